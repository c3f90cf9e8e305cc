#!/usr/bin/env python3
# Generates properties.jsonl (kept as a generator only because the JSON lines are long).
import json,os
B=" Builds: SSE2, SSE4.1, AVX, AVX+FMA and the portable fallback; single and double precision."
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["output buffers / returned values of the public buffer functions"],hook_needed=None)))
p("C01","Element-wise buffer operations compute the named operation at every index",
"For every element-wise arithmetic function (add, subtract, multiply, divide, min, max, the six comparisons, clip, symmetric clip, multiply-add, amplitude modulation, two/three/four-signal sum, two-signal mix, absolute value, sign, square, cube), output element i is exactly that operation applied to element i of each signal argument and to the given value of each constant argument, whichever argument positions are signals and whichever are constants. This holds alike for the scalar form, the vectorised form and the compile-time-length form, for single and double precision, on every supported x86 instruction set and in the portable fallback; comparisons yield exactly 1 or 0 and are false (not-equal: true) on NaN; multiply-add may or may not be fused; min/max/clip are only specified for non-NaN operands, and +0/-0 count as equal.",
["inputs","configurations"],"all bit patterns of all operands; every mix of signal/constant arguments; 2 precisions x 5 instruction-set builds x 3 call forms",
"The tests use a handful of fixed lengths and inputs mostly in 0.1..1, one arrangement per function, and compare the scalar with the vector form of the same functor, so an error common to both, or one showing on NaN/inf/negative/zero operands, a particular argument mix or one instruction set, stays invisible.",
["simd_binary_arithmetic.hpp","simd_ternary_arithmetic.hpp","simd_unary_arithmetic.hpp","simd_mix.hpp","detail/define_macros.hpp","detail/unroll_helpers.hpp","detail/math.hpp","detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_generic.hpp","vec/vec_base.hpp"],
[("compile_time_unroller / generate_simd_loop","detail/unroll_helpers.hpp"),("apply_on_vector","detail/math.hpp"),("argument wrappers","detail/wrap_argument_vector.hpp")])
p("C02","Ramped arguments and ramp fills follow the linear / exponential ramp",
"Wherever a start value and a slope are given (ramped argument of an element-wise function, linear ramp fill, adding a ramp to a buffer, ramped panning), sample i uses start + i*slope, and an exponential ramp fill writes start * curve^i; scalar, vectorised and compile-time-length forms agree up to rounding of the ramp's own precision (error at most a small multiple of (i+1) units in the last place of |start|+(i+1)*|slope|, relative for exponential ramps). Double-precision ramps keep double precision. The ramp runs on without a jump across vector and unrolled-block boundaries.",
["inputs","configurations"],"all finite start/slope/curve values not overflowing; every index; 2 precisions x 5 builds x call forms",
"Tests compare with 1e-4-style tolerances for one small slope and length, which cannot see double ramps computed in single precision, drift at block boundaries or one wrong lane of one instruction set.",
["detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","simd_memory.hpp","simd_pan.hpp","vec/vec_base.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
[("vector_ramp_argument","detail/wrap_argument_vector.hpp"),("set_ramp","simd_memory.hpp"),("set_slope/set_exp","vec/*.hpp")])
p("C03","Buffer functions touch only the n elements they are given",
"A buffer function called with length n reads nothing outside the first n elements of its input buffers and writes nothing outside the first n elements of its output buffers, and leaves its inputs unmodified. Apart from the documented vector alignment of the vectorised forms (none for the unaligned variants) and n being a non-zero multiple of the block length, no alignment is required, no internal assertion fires and no undefined value reaches a result.",
["inputs","configurations"],"every valid n and buffer placement; every public buffer function, call form, precision and build",
"Tests allocate larger or page-slack buffers and check only in-range elements; an over-read or over-write past the end, or a hidden alignment requirement, rarely crashes.",
["detail/unroll_helpers.hpp","detail/math.hpp","simd_memory.hpp","simd_pan.hpp","simd_peakmeter.hpp","simd_horizontal_functions.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_base.hpp"],
[("loop trip count n/objects_per_cacheline","detail/unroll_helpers.hpp"),("look-ahead load guard (N != offset)","detail/unroll_helpers.hpp"),("copyvec look-ahead","simd_memory.hpp")],["memory accesses"])
p("C04","In-place operation is safe",
"Calling an element-wise, panning or buffer-add function with the output buffer identical to any one (or all) of its input buffers gives bit-for-bit the same result as calling it with separate buffers. This holds for scalar, vectorised and compile-time-length forms on every supported build.",
["inputs","configurations"],"all inputs, every choice of which input coincides with the output, every build",
"The tests always use separate output buffers, so look-ahead loads reordered after a store are never exercised.",
["detail/unroll_helpers.hpp","detail/math.hpp","simd_pan.hpp","simd_memory.hpp"],
[("load of the next block before the store of the current one","detail/unroll_helpers.hpp")])
p("C05","Fill, copy and accumulate write exactly the requested values",
"The clear, fill and copy functions (aligned and all four aligned/unaligned copy variants, run-time and compile-time length) leave every one of the n destination elements bit-identical to zero, to the fill value, or to the source element. The accumulate functions add the signal or constant argument to each destination element exactly once.",
["inputs","configurations"],"all bit patterns including NaN payloads, -0 and denormals; every n; every variant and build",
"Tests use one length and ordinary values; they do not cover unaligned placement of every variant, NaN payload preservation or every unrolled length.",
["simd_memory.hpp"],[("setvec/copyvec/addvec unrolled recursions","simd_memory.hpp")])
p("C06","The vector type stores and returns exactly the lanes it was given",
"For the short-vector value type: aligned and unaligned load followed by store reproduces every lane bit for bit; broadcasting sets every lane; reading lane k returns lane k and writing lane k changes only lane k; loading the first element sets lane 0 and zeroes all the others; clearing zeroes all lanes; building a linear (exponential) ramp puts start+k*slope (start*curve^k) in lane k and returns the per-vector increment size*slope (the ramp's next value start*curve^size). Streaming stores equal ordinary stores.",
["inputs","configurations"],"all lane values, lane indices and precisions on every build",
"Tests exercise a few constants; an undefined upper half, a swapped lane or a wrong returned increment on one instruction set is invisible.",
["vec/vec_base.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_generic.hpp"],
[("load/store/get/set/load_first/set_slope/set_exp","vec/*.hpp")],["vec<F> member functions"])
p("C07","Vector operators act lane-wise with IEEE semantics on every instruction set",
"Arithmetic, compound-assignment, negation, multiply-add, relational, mask, bitwise and select operators of the short-vector type give in each lane exactly the IEEE-754 result of the scalar operation on that lane: relational operators give 1.0 or 0.0 and mask comparisons all-ones or all-zeros bits, both false for NaN except not-equal; bitwise operators act on the raw bits; select returns the second operand's lane where the mask lane is all ones and the first's where it is zero. Mixed vector/scalar forms equal broadcasting the scalar first.",
["inputs","configurations"],"all lane bit patterns incl. NaN/inf/denormals/-0; every operator; every build",
"Tests use a few ordinary values per lane; no NaN comparisons, no per-lane distinct bit patterns for every operator and build.",
["vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_generic.hpp","vec/vec_base.hpp","vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp"],
[("operator macros","vec/*.hpp")],["vec<F> operators"])
p("C08","Per-sample helpers are right for every bit pattern",
"For every non-NaN sample x: absolute value clears the sign only; sign is -1, 0 or 1; undenormalize returns 0 for every |x| below the smallest normal number and x itself otherwise; signed square root has the sign of x and the correctly rounded root of |x|; square root is correctly rounded; reciprocal is within relative error 5e-7 of 1/x (single; double and scalar forms: exactly rounded) whenever x and 1/x are normal numbers. Scalar and vectorised forms agree.",
["inputs","configurations"],"all 2^32 / 2^64 non-NaN bit patterns; every build",
"Tests sample positive values near 1; denormals, zeros, infinities, the normal/denormal boundary and negative values are not covered.",
["detail/vec_math.hpp","detail/math.hpp","simd_unary_arithmetic.hpp","simd_math.hpp"],
[("vec_sign/vec_undenormalize/vec_signed_sqrt/vec_reciprocal_newton","detail/vec_math.hpp")])
p("C09","Rounding functions return the right integer for every number",
"For every finite or infinite x, floor, ceil and trunc return exactly the mathematical floor, ceiling and truncation, round returns an integer nearest to x (any choice at exact ties), and frac returns x - floor(x) as one rounded subtraction; values too large to have a fractional part come back unchanged. Scalar and vectorised, single and double precision, every instruction set.",
["inputs","configurations"],"all non-NaN bit patterns, in particular |x| >= 2^23, |x| >= 2^63 and just below ties",
"Tests sample small magnitudes; wrong results at |x| >= 2^23 or 2^63 or at the largest value below 0.5 are never reached.",
["detail/vec_math.hpp","detail/math.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
[("vec_round_float/vec_floor_float/vec_ceil_float","detail/vec_math.hpp"),("trunc","detail/math.hpp")])
p("C10","Horizontal reductions return the true min, max and sum of the buffer",
"The horizontal maximum, minimum, min/max and max/sum functions return exactly the largest/smallest of the n (non-NaN) samples, whatever their signs and including infinities, and the sums equal the sum of all n samples up to summation rounding; every sample counts exactly once. The vectorised forms take any non-zero multiple of the vector size. The same holds for the horizontal min/max/sum of one short vector.",
["inputs","configurations"],"all sample values and signs, every position of the extremum; every n; every build",
"Tests use one buffer of mixed/positive values, so wrong initial values (all-negative or all-positive buffers) and ignored lanes are invisible.",
["simd_horizontal_functions.hpp","vec/vec_base.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
[("accumulator initialisation and lane reduction","simd_horizontal_functions.hpp")],["returned values / reference out-parameters"])
p("C11","Peak and RMS meters account for every sample",
"After a peak-meter call the stored peak is exactly the maximum of its (non-negative) previous value and the absolute values of all n samples, and the returned value is the absolute value of the last sample; the peak/RMS meter additionally adds the squares of all n samples to the stored squared sum, each exactly once, up to summation rounding. The vectorised forms take any non-zero multiple of twice the vector size. Scalar and vectorised forms agree, and metering a buffer in consecutive pieces gives the same result as metering it whole.",
["inputs","configurations","histories"],"all sample values, previous peak/sum values, extremum positions; every build",
"Tests run one random buffer from a zero peak, so a lost previous value, undefined upper lanes or an ignored lane is not noticed.",
["simd_peakmeter.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],[("load_first + lane-wise max + horizontal_max","simd_peakmeter.hpp")],["peak / squared-sum out-parameters, return value"])
p("C12","Panning scales the input by the two channel gains",
"Constant-gain panning writes in[i]*gain0 and in[i]*gain1 exactly to the two outputs for every i, without mixing up channels. Ramped-gain panning writes in[i] times the linearly ramped gain of that channel, each channel following its own slope, up to rounding; scalar, vectorised and compile-time-length forms agree.",
["inputs","configurations"],"all inputs, gains and slopes; every index, form and build",
"Tests use one length and one gain/slope pair with coarse tolerance.",
["simd_pan.hpp"],[("pan2 unrolled recursion","simd_pan.hpp")])
p("C13","Limiters never exceed their limits",
"Clip output always lies in [low, high] when low <= high and equals the input when that is already inside; symmetric clip always lies in [-limit, limit] for limit >= 0; for non-NaN input, including infinities. Soft-clip returns the input unchanged for |x| < 0.5 and (|x|-0.25)/x otherwise, so it has the sign of the input and magnitude at most 1 for every finite input; scalar and vectorised forms agree exactly.",
["inputs","configurations"],"all non-NaN samples and ordered limits; every form and build",
"Tests check a few in-range and one out-of-range sample; swapped bounds, negative or equal limits and extreme values are not covered.",
["simd_ternary_arithmetic.hpp","simd_binary_arithmetic.hpp","softclip.hpp"],[("clip/clip2/softclip functors","simd_ternary_arithmetic.hpp")])
p("C14","Math functions keep symmetry, saturation and domain-edge behaviour",
"For the single-precision vectorised functions and every bit pattern: sin, tan, asin, atan and tanh are exactly odd and cos exactly even; asin and acos return 0 for |x| > 1; tanh returns exactly +-1 beyond |x| > 22; exp returns 0 below -88 and the largest finite number above 88.7229 (so never infinity or NaN for non-NaN input) and is otherwise non-negative; power of a zero base is 0; signed power and signed square root carry the sign of the base; NaN input to exp, asin, acos, atan, tanh gives NaN.",
["inputs","configurations"],"all 2^32 bit patterns per function; SSE2, SSE4.1, AVX, AVX+FMA",
"Tests sample a narrow positive range; sign handling, saturation boundaries and special values are never reached.",
["detail/vec_math.hpp"],[("sign masks, select-based saturation","detail/vec_math.hpp")])
p("C15","Sine, cosine and tangent are accurate",
"Single-precision vectorised sine and cosine have absolute error below 2e-7 for |x| <= 100, sine has relative error below 5e-7 for |x| <= 3 and tangent relative error below 5e-7 for |x| <= 1.5. The scalar and double-precision forms apply the C library function to each element.",
["inputs","configurations"],"every float in the stated range; every SIMD build",
"Tests sample a few hundred arguments with looser tolerance; a wrong coefficient or octant selection confined to part of the range is not seen.",
["detail/vec_math.hpp","simd_math.hpp","vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp"],[("vec_sin_float/vec_cos_float/vec_tan_float","detail/vec_math.hpp")])
p("C16","Inverse trigonometric functions are accurate",
"Single-precision vectorised arc sine (|x| <= 1) and arc tangent (all finite x) have relative error below 5e-7 and arc cosine (|x| <= 1) absolute error below 5e-7. The scalar and double-precision forms apply the C library function to each element.",
["inputs","configurations"],"every float in the domain; every SIMD build",
"Tests sample a narrow range with coarse steps.",
["detail/vec_math.hpp","simd_math.hpp"],[("vec_asin_float/vec_acos_float/vec_atan_float","detail/vec_math.hpp")])
p("C17","Exponential, logarithm and hyperbolic tangent are accurate",
"Single-precision vectorised exp has relative error below 5e-7 for -87 <= x <= 88, log has relative error below 5e-7 for every positive normal x, and tanh relative error below 5e-7 for all finite x. The scalar and double-precision forms apply the C library function to each element.",
["inputs","configurations"],"every float in the stated range; every SIMD build",
"Tests sample a narrow range; errors tied to one exponent, octave or branch of the approximation go unseen.",
["detail/vec_math.hpp","simd_math.hpp","vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp"],[("vec_exp_float/vec_log_float/vec_tanh_float, frexp/ldexp","detail/vec_math.hpp")])
p("C18","Power, logarithm bases and unit conversions follow their formulas",
"log2 and log10 are the natural logarithm times 1/ln 2 and 1/ln 10 (relative error below 1e-6 for every positive normal x); power is x^y for x > 0 (relative error at most 1e-6*(1+|y*ln x|) in single precision while |y*ln x| <= 80); signed power is sign(x)*|x|^y; midi/frequency, midi/ratio, octave/frequency and decibel/amplitude conversions follow 440*2^((m-69)/12), 69+12*log2(f/440), 2^(m/12), 12*log2(r), 440*2^(o-4.75), 4.75+log2(f/440), 10^(d/20) and 20*log10(|a|). In the audio range (notes 0..128, 1 Hz..100 kHz, ratios and amplitudes 1e-5..1e5, -100..100 dB, octaves 0..12) single-precision results are within relative error 5e-6 (conversions to frequency, ratio or amplitude) or relative plus absolute error 2e-5 (conversions to note, octave or decibels), and double-precision ones within 1e-9.",
["inputs","configurations"],"every argument of the stated ranges; both precisions; every build",
"Tests compare the scalar with the vector form of the same formula, so a wrong formula is invisible to them.",
["simd_unit_conversion.hpp","simd_math.hpp","detail/vec_math.hpp"],[("unit-conversion functors","simd_unit_conversion.hpp")])
p("C19","Exactly n elements are processed for every length",
"For every length n up to the 32-bit limit that satisfies the documented precondition (non-zero; multiple of the block length for vectorised forms), each buffer function processes exactly elements 0..n-1, each once, and every one of them gets the value the element-wise definition gives it. No length, however large or small, takes a shortcut, skips elements or starts a second pass.",
["inputs","configurations"],"all valid 32-bit n, symbolic; every build",
"Tests use three or four fixed lengths.",
["detail/unroll_helpers.hpp","detail/math.hpp","simd_memory.hpp","simd_pan.hpp","simd_horizontal_functions.hpp","simd_peakmeter.hpp"],[("do/while loop over n / objects_per_cacheline","detail/unroll_helpers.hpp")])
p("C20","Results do not depend on the instruction set",
"The same call on the same data gives the same result on the SSE2, SSE4.1 and AVX builds and on the portable fallback: bit-identical (up to the sign of zero and NaN payloads) for arithmetic, comparison, min/max, clipping, sign, floor, ceil, trunc, frac and square-root functions, and bit-identical between the SSE2, SSE4.1 and AVX builds for the single-precision transcendental functions.",
["inputs","configurations"],"all inputs x all pairs of builds",
"Each test binary checks one build in isolation; nothing compares builds with one another.",
["vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_generic.hpp","vec/vec_int_avx.hpp","vec/vec_int_sse2.hpp"],[("per-instruction-set specialisations of the same template math","vec.hpp")])
p("C21","Low-level SSE helpers do what their names say",
"The low-level 4-lane helpers generate exactly the sign mask, absolute-value mask and the constants 1, 0.5 and 0.25 in all lanes; extraction returns lane 0 or lane 3; horizontal min/max return the smallest/largest of all four non-NaN lanes; select returns the second value where the mask is all ones and the first where it is zero.",
["inputs","configurations"],"all lane bit patterns; SSE, SSE2, SSE4.1 and AVX builds",
"No test includes this header.",
["simd_utils.hpp"],[("shuffle-based reductions","simd_utils.hpp")],["helper return values"])
p("C22","Every output sample depends only on its own input samples",
"In every element-wise function, transcendental and unit-conversion functions included, output element i is a function of element i of the inputs only: changing any other element, the position of a sample within the vector, block or buffer, or the buffer length leaves it bit-identical.",
["inputs","configurations"],"all pairs of inputs agreeing on one element; every lane position; every function and build",
"Tests compare lanes with a tolerance on one data set; cross-lane contamination that needs particular neighbours is not triggered.",
["detail/vec_math.hpp","vec/vec_int_avx.hpp","vec/vec_int_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","detail/unroll_helpers.hpp"],[("lane-wise intrinsics; 128-bit halves of AVX integer emulation","vec/vec_int_avx.hpp")])
p("C23","Calls are stateless",
"The result of a call depends only on its own arguments: no earlier call of the same or another function, with any arguments, changes what a call computes, and a call writes nothing but its own outputs.",
["inputs","histories"],"all pairs of successive calls with arbitrary arguments; every function and build",
"Tests call each function once or on unchanging data.",
["detail/vec_math.hpp","simd_math.hpp","simd_unit_conversion.hpp"],[("function-local statics hold constants only","detail/vec_math.hpp")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
