ALL64='every float and every double bit pattern'
p('N01','floor, ceil, trunc and round return the exact IEEE integral value',
 'For every float and double argument, floor, ceil, trunc and round return exactly the integral value that IEEE 754 defines for that direction (round: halves away from zero), with the sign of a zero result taken from the argument, infinities returned unchanged and NaN giving NaN. The answer is the same in compile-time and run-time evaluation and does not depend on the active rounding mode.',
 ['inputs','configurations'],'all 2^32 float and 2^64 double arguments, all four rounding modes, compile-time and run-time paths',
 'The unit tests compare a few dozen values with std::; the 2^64 doubles around half-way points, the 2^52 boundary and signed zeros cannot be enumerated.',
 [M+'nearest/floor.hpp',M+'nearest/ceil.hpp',M+'nearest/trunc.hpp',M+'nearest/round.hpp',S+'fp/directional_rounding_utils.hpp',R+'nearest/'],
 [('bit-level truncation and direction fix-up',S+'fp/directional_rounding_utils.hpp'),('run-time dispatch',R+'nearest/')],['ccm::floor','ccm::ceil','ccm::trunc','ccm::round'])
p('N02','rint and nearbyint round to the integral value chosen by the rounding mode',
 'For every float and double argument and each of the four IEEE rounding modes, the run-time rint and nearbyint return exactly the integral value that mode selects (nearest: ties to even), keeping the sign of zero; compile-time evaluation follows the configured constant-evaluation rounding mode.',
 ['inputs','configurations'],'all float/double arguments times the four rounding modes',
 'Mode-dependent behaviour at half-way points needs the product of inputs and modes; tests sample a handful.',
 [M+'nearest/rint.hpp',M+'nearest/nearbyint.hpp',S+'fp/directional_rounding_utils.hpp',R+'nearest/'],
 [('directional_round under the active mode',S+'fp/directional_rounding_utils.hpp'),('mode query',S+'fenv/rounding_mode.hpp')],['ccm::rint','ccm::nearbyint'])
p('C01','Floating-point classification agrees with the IEEE encoding',
 'For every float, double and (validly encoded) long double bit pattern, isnan, isinf, isfinite, isnormal, signbit and fpclassify give exactly the answer that the IEEE 754 encoding dictates, at compile time and at run time. Integer arguments classify as the double they convert to.',
 ['inputs','configurations'],'every bit pattern, both evaluation modes',
 'Tests sample one value per class; the class boundaries and NaN payloads form a set too large to enumerate for double.',
 [M+'compare/',S+'helpers/fpclassify_helper.hpp'],[('class predicates',M+'compare/'),('classification helper',S+'helpers/fpclassify_helper.hpp')],['ccm::isnan','ccm::isinf','ccm::isfinite','ccm::isnormal','ccm::signbit','ccm::fpclassify'])
p('C02','Quiet comparisons implement the IEEE ordering, unordered on NaN',
 'For every pair of float or double values, isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered return exactly the IEEE ordering relation: false (isunordered: true) whenever either operand is NaN, with +0 equal to -0.',
 ['inputs','configurations'],'every pair of bit patterns, both evaluation modes',
 'Pairs of 64-bit patterns cannot be enumerated; tests use a small grid.',
 [M+'compare/isgreater.hpp',M+'compare/isgreaterequal.hpp',M+'compare/isless.hpp',M+'compare/islessequal.hpp',M+'compare/islessgreater.hpp',M+'compare/isunordered.hpp'],
 [('comparison wrappers',M+'compare/')],['ccm::isless','ccm::isunordered'])
p('B01','fabs, abs and copysign change only the sign bit',
 'For every float and double, fabs/abs clears the sign bit and copysign transplants the sign bit of its second operand, and neither changes any other bit of a non-NaN value; a NaN magnitude gives a NaN, and zeros, subnormals and infinities are treated alike.',
 ['inputs','configurations'],'every bit pattern (and pair), both evaluation modes',
 'Sampling cannot cover payloads, subnormals and sign combinations of 64-bit pairs.',
 [M+'basic/fabs.hpp',M+'fmanip/copysign.hpp',X+'chgsign.hpp'],[('sign masking',M+'basic/fabs.hpp'),('sign transplant',M+'fmanip/copysign.hpp')],['ccm::fabs','ccm::abs','ccm::copysign','ccm::ext::chgsign'])
p('B02','fmin, fmax and fdim follow the C Annex F rules for every operand pair',
 'For every pair of floats or doubles, fmin/fmax (and min/max on floating point) return one of the operands, the smaller/larger one, and the non-NaN operand when exactly one is a quiet NaN; fdim returns x-y rounded once (default rounding mode) when x>y, a positive zero when x<=y, and NaN when either is NaN.',
 ['inputs','configurations'],'every pair of bit patterns, both evaluation modes',
 'NaN/zero/infinity combinations over two 64-bit operands cannot be enumerated by tests.',
 [M+'basic/min.hpp',M+'basic/max.hpp',M+'basic/fdim.hpp',R+'basic/'],[('min/max selection',M+'basic/max.hpp'),('positive difference',M+'basic/fdim.hpp')],['ccm::fmin','ccm::fmax','ccm::fdim'])
p('B03','The software fma is correctly rounded in every rounding mode',
 'For every triple of floats or doubles and every rounding mode, the library\'s own fused multiply-add returns x*y+z rounded exactly once in that mode, including subnormal, zero-sign, overflow and NaN cases.',
 ['inputs','configurations'],'all operand triples and the four rounding modes (run-time directed modes and compile-time policy modes)',
 'Triples of 64-bit operands: alignment distances, cancellations and sticky bits cannot be sampled exhaustively; the test campaign only draws random ones.',
 [S+'fp/fma.hpp',M+'basic/fma.hpp',I+'types/big_int.hpp'],[('fixed-width exact accumulator',S+'fp/fma.hpp'),('single rounding step',S+'fp/fma.hpp'),('big integer arithmetic',I+'types/big_int.hpp')],['ccm::fma'])
p('B04','fmod, remainder and remquo are exact',
 'For every finite x and finite non-zero y, fmod returns exactly x - n*y for the truncated quotient n (result smaller in magnitude than y, sign of x), remainder and remquo return exactly x - n*y for the quotient n rounded to nearest-even, and remquo reports the low bits of n with the sign of x/y. Invalid operands (x infinite or y zero) give NaN and an infinite y returns x.',
 ['inputs','configurations'],'all operand pairs within the stated exponent-gap bound, compile-time evaluation included',
 'The result is exact arithmetic on unbounded quotients; tests use small quotients only.',
 [M+'basic/fmod.hpp',M+'basic/remainder.hpp',M+'basic/remquo.hpp',M+'basic/impl/remquo_double_impl.hpp',M+'basic/impl/remquo_float_impl.hpp'],
 [('truncated remainder',M+'basic/fmod.hpp'),('quotient rounding',M+'basic/remainder.hpp'),('shift-subtract quotient loop',M+'basic/impl/remquo_double_impl.hpp')],['ccm::fmod','ccm::remainder','ccm::remquo'])
p('B05','nan(tag) always yields a quiet NaN and never reads past the string',
 'For every NUL-terminated tag string, nan, nanf and nanl return a quiet NaN whose payload comes only from the digits of the tag, never an infinity, a number or a signalling NaN, and no byte beyond the terminator is read.',
 ['inputs'],'every string of up to 20 bytes (decimal, octal, hexadecimal, garbage)',
 'The parser loops over arbitrary user bytes; tests pass a few fixed literals.',
 [M+'basic/nan.hpp',M+'basic/impl/nan_float_impl.hpp',M+'basic/impl/nan_double_impl.hpp'],[('payload parser',M+'basic/impl/nan_double_impl.hpp')],['ccm::nan','ccm::nanf'])
p('F01','frexp splits every value exactly into a fraction in [1/2,1) and an exponent',
 'For every finite non-zero float and double, frexp returns m with 1/2 <= |m| < 1 and an exponent e such that m*2^e is exactly the argument; zeros, infinities and NaNs are returned unchanged (zero stores exponent 0).',
 ['inputs','configurations'],'every bit pattern incl. all subnormals, both evaluation modes',
 'Subnormal normalisation has a different shift for every leading-zero count; tests hit a few.',
 [M+'fmanip/frexp.hpp',G+'fmanip/impl/frexp_impl.hpp'],[('exponent extraction and subnormal normalisation',G+'fmanip/impl/frexp_impl.hpp')],['ccm::frexp'])
p('F02','ldexp, scalbn and scalbln scale by a power of two with one correct rounding',
 'For every float and double x and every integer n, ldexp, scalbn and scalbln return x*2^n rounded once (to nearest-even in the default mode): exact when representable, correctly rounded to subnormals on underflow, and a correctly signed infinity or zero when far out of range, for every int (and for scalbln every long) exponent. Zeros, infinities and NaNs are returned unchanged.',
 ['inputs','configurations'],'every bit pattern times every 32-bit (64-bit for scalbln) exponent',
 'Double rounding on gradual underflow and exponent-sum overflow need specific (x,n) pairs out of 2^96.',
 [M+'fmanip/ldexp.hpp',M+'fmanip/scalbn.hpp',M+'fmanip/impl/scalbn_double_impl.hpp',M+'fmanip/impl/scalbn_float_impl.hpp'],[('ldexp',M+'fmanip/ldexp.hpp'),('staged scaling',M+'fmanip/impl/scalbn_double_impl.hpp')],['ccm::ldexp','ccm::scalbn','ccm::scalbln'])
p('F03','modf splits every value into integral and fractional parts exactly',
 'For every float and double, modf stores the argument truncated toward zero and returns the exact remaining fraction, both carrying the sign of the argument; an infinity stores itself and returns a signed zero, and NaN gives NaN in both.',
 ['inputs','configurations'],'every bit pattern, both evaluation modes',
 'The mask depends on each exponent; sampled tests cannot exclude an exponent/mantissa pair that loses a bit or a sign.',
 [M+'fmanip/modf.hpp',M+'fmanip/impl/modf_impl.hpp'],[('integral part extraction',M+'fmanip/impl/modf_impl.hpp')],['ccm::modf'])
p('F04','ilogb and logb return the unbiased binary exponent of every value',
 'For every finite non-zero float and double (subnormals included), ilogb and logb return floor(log2|x|) exactly; zero gives FP_ILOGB0 / -infinity, infinity gives INT_MAX / +infinity and NaN gives FP_ILOGBNAN / NaN.',
 ['inputs','configurations'],'every bit pattern, both evaluation modes',
 'Every subnormal leading-zero count is its own case.',
 [M+'fmanip/ilogb.hpp',M+'fmanip/logb.hpp',G+'fmanip/impl/ilogb_impl.hpp',G+'fmanip/impl/logb_impl.hpp'],[('exponent extraction',G+'fmanip/impl/ilogb_impl.hpp')],['ccm::ilogb','ccm::logb'])
p('F05','nextafter, nexttoward, nextup and nextdown return the adjacent value',
 'For every pair of floats or doubles, nextafter and nexttoward return the representable value adjacent to the first operand in the direction of the second (the second operand when they compare equal, NaN when either is NaN), and nextup/nextdown return the least greater / greatest smaller value, across zero, subnormals, binade boundaries and the largest finite values.',
 ['inputs','configurations'],'every pair of bit patterns, both evaluation modes',
 'Zero crossing, binade and overflow boundaries for both signs form many corner pairs.',
 [M+'fmanip/nextafter.hpp',M+'fmanip/nexttoward.hpp',M+'fmanip/nextup.hpp',M+'fmanip/nextdown.hpp',G+'fmanip/nextafter_gen.hpp'],[('bit-pattern increment',G+'fmanip/nextafter_gen.hpp')],['ccm::nextafter','ccm::nexttoward','ccm::nextup','ccm::nextdown'])
p('P01','The software square root is correctly rounded',
 'For every float and double argument and every rounding mode, the library\'s own square root returns the exact square root rounded once in that mode; sqrt(-0) is -0, sqrt(+inf) is +inf, and negative arguments and NaN give NaN.',
 ['inputs','configurations'],'every bit pattern times the four rounding modes',
 'The digit recurrence decides the last bit from a residual; one wrong input in 2^64 is invisible to sampling.',
 [G+'power/sqrt_gen.hpp',M+'power/sqrt.hpp'],[('shift-subtract recurrence and final rounding',G+'power/sqrt_gen.hpp')],['ccm::sqrt'])
p('P02','hypot and cbrt obey their special-case and range rules for all operands',
 'For all floats and doubles, hypot is symmetric, ignores operand signs, returns +infinity when any operand is infinite (even if another is NaN), NaN for other NaNs, |x| when the other operand is zero, and never overflows or underflows spuriously; cbrt is odd, maps zeros, infinities and NaN to themselves and returns a finite non-zero value of the same sign otherwise.',
 ['inputs','configurations'],'all operands, compile-time path',
 'Intermediate overflow/underflow and special combinations need specific pairs.',
 [M+'power/hypot.hpp',M+'power/cbrt.hpp',G+'power/impl/hypot_impl.hpp',G+'power/impl/cbrt_impl.hpp'],[('scaling',G+'power/impl/hypot_impl.hpp'),('bit seed and Newton steps',G+'power/impl/cbrt_impl.hpp')],['ccm::hypot','ccm::cbrt'])
p('P03','pow satisfies every IEEE 754 / C Annex F special-case rule',
 'For all floats and doubles, pow(x,+-0)=1 and pow(1,y)=1 even for NaN, other NaNs propagate, zero, infinite and minus-one bases and infinite exponents give the Annex F value with the sign decided by whether the exponent is an odd integer, and a negative finite base with a finite non-integer exponent gives NaN.',
 ['inputs','configurations'],'every pair of bit patterns that falls under a special-case rule',
 'Odd-integer detection at large exponents and the special combinations cover most of the 2^128 pair space and are only sampled.',
 [M+'power/pow.hpp',G+'power/pow_gen.hpp',G+'power/pow_impl/pow_impl.hpp',G+'power/pow_impl/powf_impl.hpp'],[('operand screening',G+'power/pow_impl/pow_impl.hpp'),('odd-integer test',G+'power/pow_impl/pow_impl.hpp')],['ccm::pow'])
p('P05','The vectorised run-time pow agrees with the scalar pow on every operand pair',
 'For every pair of floats or doubles, the run-time vector pow kernels return in each lane bit-for-bit the same result as the library\'s scalar pow implementation, so results do not depend on which kernel is selected.',
 ['inputs','configurations'],'every pair of bit patterns, SIMD against scalar kernel',
 'Agreement is a relation between two implementations over 2^128 inputs.',
 [G+'power/pow_impl/pow_simd_impl.hpp',G+'power/pow_impl/powf_simd_impl.hpp',R+'power/pow_rt.hpp'],[('vector kernel with scalar fallback',G+'power/pow_impl/pow_simd_impl.hpp')],['ccm::pow (run time, builtin disabled)'])
p('E01','exp, exp2 and expm1 are total with correct limits, saturation and signs',
 'For every float and double, exp and exp2 return a non-negative value or NaN: NaN exactly for NaN arguments, exp(-inf)=+0, exp(+inf)=+inf, exp(+-0)=1, +infinity for every argument above the overflow threshold and zero or the smallest subnormal for every argument below the underflow threshold, and a finite non-zero value between; expm1 keeps signed zeros, tends to -1 and never goes below -1.',
 ['inputs','configurations'],'every bit pattern through the library\'s own kernels (compile-time path)',
 'Thresholds are crossed at single bit patterns; a mis-saturated neighbour is one value in 2^64.',
 [M+'expo/impl/exp_double_impl.hpp',M+'expo/impl/exp_float_impl.hpp',M+'expo/impl/exp2_double_impl.hpp',M+'expo/impl/exp2_float_impl.hpp',M+'expo/expm1.hpp'],[('range screening',M+'expo/impl/exp_double_impl.hpp'),('special-case scaling',M+'expo/impl/exp_double_impl.hpp')],['ccm::exp','ccm::exp2','ccm::expm1'])
p('E02','Logarithms classify every argument correctly and are exact at one',
 'For every float and double, log, log2, log10 and log1p return NaN for NaN and for arguments below the domain, -infinity at the pole (0, and -1 for log1p), +infinity at +infinity, exactly 0 at 1 (log1p: the signed zero at zero), and otherwise a finite value that is positive above and negative below that point.',
 ['inputs','configurations'],'every bit pattern through the library\'s own kernels (compile-time path)',
 'Sign flips next to 1, subnormal normalisation and NaN/negative screening need specific bit patterns.',
 [M+'expo/impl/log_double_impl.hpp',M+'expo/impl/log_float_impl.hpp',M+'expo/impl/log2_double_impl.hpp',M+'expo/impl/log2_float_impl.hpp',M+'expo/impl/log10_impl.hpp',M+'expo/impl/log1p_impl.hpp'],[('argument screening and normalisation',M+'expo/impl/log_double_impl.hpp')],['ccm::log','ccm::log2','ccm::log10','ccm::log1p'])
p('E03','exp and exp2 are accurate to their stated error on every argument',
 'For every finite float and double argument whose result is a normal number, the library\'s own exp and exp2 kernels return a value within one unit in the last place of the true exponential (round to nearest).',
 ['inputs'],'every argument in the normal-result range, every table segment',
 'Accuracy is sampled by tests; a bad table entry or coefficient shows only in its own segment.',
 [M+'expo/impl/exp_double_impl.hpp',M+'expo/impl/exp_data.hpp',M+'expo/impl/exp2_double_impl.hpp',M+'expo/impl/exp_float_impl.hpp',M+'expo/impl/exp2_data.hpp'],[('table of 2^(i/N) with tails and minimax polynomial',M+'expo/impl/exp_data.hpp')],['ccm::exp','ccm::exp2'])
p('E04','log and log2 are accurate to their stated error on every argument',
 'For every positive finite float and double, the library\'s own log and log2 kernels return a value within one unit in the last place of the true logarithm (round to nearest).',
 ['inputs'],'every positive finite argument, every table segment',
 'Accuracy is sampled by tests; a bad table entry or coefficient shows only in its own segment.',
 [M+'expo/impl/log_double_impl.hpp',M+'expo/impl/log_data.hpp',M+'expo/impl/log2_double_impl.hpp',M+'expo/impl/log2_data.hpp'],[('inverse/log tables and minimax polynomials',M+'expo/impl/log_data.hpp')],['ccm::log','ccm::log2'])
p('E05','expm1, log1p and log10 stay accurate over their whole domain',
 'For every finite float and double argument in their domain with a normal result, the library\'s own expm1, log1p and log10 return a value within three units in the last place of the true function (round to nearest), in particular without cancellation near zero and near one.',
 ['inputs'],'every float argument and every double argument of the stated binades',
 'Accuracy is sampled by tests with loose tolerances; a wrong coefficient or a series cut short shows only in one band of arguments.',
 [M+'expo/impl/log1p_impl.hpp',M+'expo/impl/exp_double_impl.hpp',M+'expo/impl/exp_float_impl.hpp',M+'expo/impl/log10_impl.hpp'],[('series near zero',M+'expo/impl/exp_double_impl.hpp'),('log1p polynomial',M+'expo/impl/log1p_impl.hpp')],['ccm::expm1','ccm::log1p','ccm::log10'])
p('P04','cbrt is accurate to its stated error on every argument',
 'For every finite float and double argument, the library\'s own cbrt returns a value within two units in the last place of the true cube root (round to nearest), subnormals included.',
 ['inputs'],'every binade class of float and double arguments',
 'Accuracy is sampled by tests; a wrong seed constant or lost iteration shows only for some significands.',
 [G+'power/impl/cbrt_impl.hpp',M+'power/cbrt.hpp'],[('bit seed and Newton steps',G+'power/impl/cbrt_impl.hpp')],['ccm::cbrt'])
p('T05','asin, acos and atan are accurate over their whole domain',
 'For every float and double argument in the domain, the library\'s own asin, acos and atan return a value within a few units in the last place of the true function (acos near one: within a few units of the last place of the square root scale), round to nearest.',
 ['inputs'],'segments covering the domain of float arguments and stated binades of double arguments',
 'Accuracy is sampled by tests; a wrong coefficient shows only in its own segment.',
 [M+'trig/impl/inv_trig_impl.hpp'],[('polynomials and reductions',M+'trig/impl/inv_trig_impl.hpp')],['ccm::asin','ccm::acos','ccm::atan'])
p('T01','sin, cos and tan are total, odd/even and invalid only at infinity',
 'For every float and double, sin(-x)=-sin(x), cos(-x)=cos(x) and tan(-x)=-tan(x) bit for bit, sin and tan preserve signed zeros, cos(+-0)=1, infinities and NaN give NaN, and every finite argument gives a finite result.',
 ['inputs','configurations'],'every bit pattern through the library\'s own kernels (compile-time path)',
 'Symmetry relates pairs of inputs across the small and huge-argument reductions; tests sample a few angles.',
 [M+'trig/impl/sincos_double_impl.hpp',M+'trig/impl/sincos_float_impl.hpp',M+'trig/impl/sincos_payne_hanek.hpp',M+'trig/sin.hpp',M+'trig/cos.hpp',M+'trig/tan.hpp'],[('range reduction',M+'trig/impl/sincos_double_impl.hpp'),('huge-argument reduction',M+'trig/impl/sincos_payne_hanek.hpp')],['ccm::sin','ccm::cos','ccm::tan'])
p('T02','Trigonometric argument reduction is exact for every finite argument',
 'For every finite double, reduction modulo pi/8 selects the octant and remainder of the true multiple of pi up to the stated tolerance: huge-argument reduction equals multiplication of the significand by the correct window of the bits of 8/pi, so sin and cos stay accurate for arguments up to the largest finite value.',
 ['inputs'],'every significand for every exponent handled by the huge-argument path, and every argument of the small path',
 'Window selection and carries differ per exponent (about 1000 cases) times 2^52 significands.',
 [M+'trig/impl/sincos_payne_hanek.hpp',M+'trig/impl/sincos_double_impl.hpp',M+'trig/impl/sincos_float_impl.hpp'],[('windowed 256-bit fixed-point product',M+'trig/impl/sincos_payne_hanek.hpp')],['ccm::sin','ccm::cos'])
p('T03','sin and cos are accurate on every reduced segment',
 'For every finite float and double argument, the library\'s own sin and cos return a value whose absolute error against the true function stays within a few units in the last place of 1 on every pi/8 segment, and never exceed 1 in magnitude by more than that error.',
 ['inputs'],'every reduced argument in every pi/8 segment',
 'A bad table constant or coefficient shows only in its segment; tests sample angles.',
 [M+'trig/impl/sincos_double_impl.hpp',M+'trig/impl/sincos_double_data.hpp',M+'trig/impl/sincos_float_impl.hpp',M+'trig/impl/sincos_float_data.hpp'],[('segment table and polynomials',M+'trig/impl/sincos_double_data.hpp')],['ccm::sin','ccm::cos'])
p('T04','Inverse trigonometric functions respect domain, range, symmetry and quadrant',
 'For every float and double, asin and acos give NaN exactly outside [-1,1] and for NaN, asin and atan are odd and keep signed zeros, acos(1)=+0, results stay within their mathematical range (rounded bounds), and atan2 selects the quadrant and signed-zero/infinity results that C Annex F prescribes.',
 ['inputs','configurations'],'every bit pattern (pair for atan2) through the library\'s own kernels (compile-time path)',
 'Sign/zero/infinity combinations over 2^128 pairs cannot be enumerated.',
 [M+'trig/impl/inv_trig_impl.hpp',M+'trig/asin.hpp',M+'trig/acos.hpp',M+'trig/atan.hpp',M+'trig/atan2.hpp'],[('quadrant selection',M+'trig/impl/inv_trig_impl.hpp')],['ccm::asin','ccm::acos','ccm::atan','ccm::atan2'])
p('G01','gamma and lgamma handle poles, domain errors and limits for every argument',
 'For every float and double, lgamma returns +infinity at zero, negative integers and both infinities and NaN only for NaN, gamma (tgamma) returns a signed infinity at signed zero, NaN at negative integers and -infinity, +infinity at +infinity and beyond its overflow threshold, and neither returns NaN for any other argument.',
 ['inputs','configurations'],'every bit pattern through the library\'s own kernels (compile-time path)',
 'Integer detection for huge negative arguments and NaN-producing intermediate overflow need specific patterns.',
 [M+'misc/gamma.hpp',M+'misc/lgamma.hpp',M+'misc/impl/gamma_double_impl.hpp',M+'misc/impl/lgamma_double_impl.hpp'],[('pole screening',M+'misc/impl/lgamma_double_impl.hpp')],['ccm::lgamma','ccm::tgamma'])
p('L01','lerp is exact at the ends, stays bounded and consistent',
 'For all finite floats a, b (and doubles), lerp(a,b,0)=a, lerp(a,b,1)=b and lerp(a,a,t)=a for finite t, results for t in [0,1] lie between a and b, and a NaN operand gives NaN.',
 ['inputs'],'all operand triples',
 'Rounding can push an interpolated value past an end point for particular triples only.',
 [M+'misc/lerp.hpp'],[('end-point handling and clamping',M+'misc/lerp.hpp')],['ccm::lerp'])
p('I01','Wide integer arithmetic equals arithmetic modulo 2^N',
 'For all operands, the library\'s fixed-width wide integers (128 to 256 bits) add, subtract, multiply, shift, compare, count bits and convert exactly as integers modulo 2^N do, and wide multiplication never loses a carry.',
 ['inputs'],'all operand values, every shift amount below the width',
 'Carry and borrow propagation across limbs is exercised by specific bit patterns out of 2^256.',
 [I+'types/big_int.hpp',S+'math_support.hpp',S+'bits.hpp'],[('limb arithmetic',I+'types/big_int.hpp')],['ccm::types::UInt'])
p('I02','Dyadic float to IEEE conversion rounds once in the active mode',
 'For every sign, exponent and wide mantissa, converting a dyadic float to float or double returns that exact value rounded once in the active rounding mode, including gradual underflow and overflow.',
 ['inputs','configurations'],'all mantissas, all exponents within range, four rounding modes',
 'Sticky/round-bit positions vary with mantissa width and exponent.',
 [I+'types/dyadic_float.hpp',I+'types/big_int.hpp'],[('generic_as rounding',I+'types/dyadic_float.hpp')],['ccm::types::DyadicFloat'])
p('I03','Bit utilities match their standard definitions for every operand',
 'For every unsigned operand of 8 to 64 bits, bit_width, bit_ceil, bit_floor, countl_zero, countr_zero, countl_one, countr_one, popcount, has_single_bit and the rotations return what the C++20 <bit> definitions require, in both their builtin-backed and portable forms.',
 ['inputs','configurations'],'every operand of every width',
 'The portable loops and builtin branches must agree on 2^64 operands.',
 [S+'bits.hpp',S+'ctz.hpp'],[('bit operations',S+'bits.hpp')],['ccm::support::bit_width'])
p('X01','Integer helpers align, ceil_div, abs_diff and is_power_of_two are exact',
 'For every operand for which the mathematical result is representable, align_up/align_down return the nearest multiple of the alignment in the named direction, ceil_div (non-negative operands) returns the ceiling of the quotient, abs_diff returns |a-b|, sign returns -1, 0 or 1 and is_power_of_two (safe form: for every value) is true exactly for positive powers of two.',
 ['inputs'],'every 8- to 64-bit operand',
 'Overflow at the ends of the range needs specific operands.',
 [X+'align.hpp',X+'ceil_div.hpp',X+'abs_diff.hpp',X+'is_power_of_two.hpp',X+'sign.hpp'],[('mask arithmetic',X+'align.hpp'),('quotient adjustment',X+'ceil_div.hpp')],['ccm::ext::align_up','ccm::ext::ceil_div','ccm::ext::abs_diff','ccm::ext::is_power_of_two'])
p('X02','Clamping helpers stay in range and are identity inside it',
 'For all floats/doubles and every ordered bound pair, clamp, saturate, normalize, smoothstep and step return a value inside their documented range for every non-NaN argument, return the argument (or bound) itself where documented, and are monotone in the value for clamp and saturate.',
 ['inputs'],'all operands with ordered bounds',
 'Range violations arise from particular rounding patterns.',
 [X+'clamp.hpp',X+'saturate.hpp',X+'normalize.hpp',X+'smoothstep.hpp',X+'step.hpp'],[('min/max composition',X+'clamp.hpp')],['ccm::ext::clamp','ccm::ext::saturate','ccm::ext::normalize','ccm::ext::smoothstep'])
p('X03','The safe:: helpers are total on degenerate ranges and agree otherwise',
 'For all operands, the safe variants of unlerp, inverse_lerp, normalize, remap, repeat, delta_angle, ceil_div and is_power_of_two return their documented constant when the range length or divisor is zero and otherwise return exactly what the unchecked variant returns.',
 ['inputs'],'all operands',
 'Equality of two code paths over all operand tuples cannot be sampled.',
 [X+'unlerp.hpp',X+'inverse_lerp.hpp',X+'normalize.hpp',X+'remap.hpp',X+'repeat.hpp',X+'delta_angle.hpp',X+'ceil_div.hpp'],[('zero-length guard',X+'unlerp.hpp')],['ccm::ext::safe'])
p('X04','Moving and wrapping helpers never overshoot',
 'For all finite operands, move_towards with a non-negative step never passes its target and reaches it when the step covers the distance, fract returns a value in [0,1], repeat is the identity for values in [0,length) whose rounded quotient is below one and 0 at the length itself, and delta_angle stays within [-180,180] for angles within one turn.',
 ['inputs'],'all finite operands within the stated ranges',
 'Overshoot by one rounding error needs particular operands.',
 [X+'move_towards.hpp',X+'fract.hpp',X+'repeat.hpp',X+'delta_angle.hpp',X+'ping_pong.hpp'],[('distance test before stepping',X+'move_towards.hpp')],['ccm::ext::move_towards','ccm::ext::fract','ccm::ext::delta_angle'])
p('S01','Vector operations act lane by lane exactly like their scalar counterparts',
 'For all lane values, every arithmetic, comparison, masking, selection, blend and min/max operation of the run-time SIMD types yields in each lane the value the scalar operation yields for that lane, independent of the other lanes and of the instruction set selected.',
 ['inputs','configurations'],'all lane values, SSE2/SSE4/AVX2/scalar back ends',
 'Cross-lane mistakes and special-value lanes need particular vectors.',
 [I+'math/runtime/simd/',I+'math/runtime/pp/'],[('instruction wrappers',I+'math/runtime/simd/instructions/')],['ccm::pp::simd','ccm::intrin'])
p('A01','Compile-time and run-time evaluation agree bit for bit',
 'For every argument of the exactly specified functions (rounding, classification, comparison, sign, decomposition, scaling, adjacency, minimum/maximum, fma, square root), compile-time evaluation and run-time evaluation in the default rounding mode return the same value.',
 ['inputs','configurations'],'every argument, the two evaluation paths of each function',
 'A relation between two code paths over all inputs; tests evaluate a handful of constants at compile time.',
 [M,I+'math/runtime/func/'],[('is_constant_evaluated dispatch',I+'support/is_constant_evaluated.hpp')],['ccm public functions'])
p('U01','No argument reaches undefined behaviour in constant-evaluable code',
 'For every argument, the library\'s own kernels execute no undefined behaviour: no out-of-range table index, no invalid shift, no signed overflow, no out-of-range float-to-integer conversion and no unreachable point, so that every call is usable in a constant expression and memory safe at run time.',
 ['inputs','configurations'],'every argument of every listed function',
 'One out-of-range argument among 2^64 (or 2^128 pairs) suffices; tests sample.',
 [M,G,S,I+'types/big_int.hpp'],[('index masking and range screening',M)],['ccm public functions'])
