#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are readable in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
ISA = "scalar-generic, SSE, SSE2, SSE3, SSE4.1, AVX and AVX+FMA builds, with and without NDEBUG"

p("C01", "Buffer functions touch exactly the n samples they are given",
  "Every buffer function, called with n samples (any n >= 1 for the plain form, any positive multiple of samples_per_loop for the run-time and compile-time SIMD forms), terminates after reading only elements 0..n-1 of each input buffer (all of them) and writing each of the elements 0..n-1 of each output buffer. "
  "It reads or writes nothing outside these ranges, not even a value it then discards, for float and double and in every instruction-set configuration.",
  ["inputs", "configurations"], "every public function x form x element type x ISA configuration x every admissible n",
  "The tests run sizes 64, 512, 1024 and 10000 in buffers larger than needed and never look at what is read, so an over-read, a short loop for another n or a write past the end passes unnoticed.",
  ["detail/unroll_helpers.hpp", "detail/math.hpp", "simd_memory.hpp", "simd_horizontal_functions.hpp", "simd_peakmeter.hpp", "simd_pan.hpp"],
  [("run-time loop", "detail/unroll_helpers.hpp generate_simd_loop"), ("compile-time unrolling", "detail/unroll_helpers.hpp compile_time_unroller"), ("plain loop", "detail/math.hpp apply_on_vector"), ("memory loops", "simd_memory.hpp"), ("samples_per_loop", "simd_unroll_constraints.hpp")])

p("C02", "Arithmetic buffer functions compute their formula for every sample",
  "plus, minus, times, over, square, cube, muladd, ampmod, mix and the two-, three- and four-signal sum write at every index i the value of their formula applied to the arguments at index i (a+b, a-b, a*b, a/b, x*x, x*x*x, a*b+c, s*(1+m*amt), s0*f0+s1*f1, sums), evaluated in the precision of the element type up to the rounding of the individual operations; reciprocal writes 1/x with a relative error below 5e-7 (float, 1e-37 <= |x| <= 1e37) or to double precision. "
  "This holds for the plain, the run-time SIMD and the compile-time SIMD form and for every combination of buffer and scalar arguments, in every instruction-set configuration.",
  ["inputs", "configurations"], "all argument values, all indices, all forms, argument kinds, element types and " + ISA,
  "The tests draw random values in [0.1,1] with absolute tolerances around 1e-6 and compare only some argument-kind combinations; negative, large and tiny values, lost double precision and untested overloads are never looked at.",
  ["simd_binary_arithmetic.hpp", "simd_ternary_arithmetic.hpp", "simd_mix.hpp", "simd_unary_arithmetic.hpp", "detail/define_macros.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("functors", "simd_*_arithmetic.hpp, simd_mix.hpp"), ("vec operators and madd", "vec/vec_*.hpp"), ("reciprocal refinement", "detail/vec_math.hpp vec_reciprocal_newton")])

p("C03", "min, max, clip and comparisons select exactly the right value",
  "For all non-NaN arguments (infinities, zeros and denormals included) min/max return the smaller/larger argument, clip (low <= high) and clip2 (limit >= 0) return the nearest value inside the interval, bit-exactly one of the arguments (or the negated limit). "
  "less, less_equal, greater, greater_equal, equal and notequal return exactly 1 or 0 according to the IEEE comparison, a NaN operand making all of them 0 except notequal, which gives 1. All forms, element types and instruction-set configurations agree.",
  ["inputs", "configurations"], "every ordering of the arguments including equal, signed zero, infinite and (for comparisons) NaN",
  "The tests use positive random values; no negative bounds, no ties, no NaN, no infinities.",
  ["simd_binary_arithmetic.hpp", "simd_ternary_arithmetic.hpp", "vec.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("min_/max_", "vec.hpp and vec/vec_*.hpp"), ("relational operators", "vec/vec_*.hpp RELATIONAL_OPERATOR")])

p("C04", "abs, sgn, undenormalize, softclip and signed_sqrt honour every input class",
  "abs clears the sign of every input; sgn returns exactly -1, 0 or 1 by the sign of every non-NaN input; undenormalize returns 0 for every magnitude below the smallest positive normal number of the element type and the unchanged input otherwise (NaN and infinities included). "
  "softclip returns the input itself for |x| < 0.5 and (|x|-0.25)/x otherwise, so it is continuous, sign preserving and bounded by 1 for finite input; signed_sqrt returns sign(x)*sqrt(|x|). All forms, element types and instruction sets agree.",
  ["inputs", "configurations"], "all inputs partitioned by sign, magnitude class and threshold; all forms, element types and configurations",
  "Tests only feed normal positive numbers, so thresholds, negative inputs, denormals, zeros and special values are unchecked.",
  ["simd_unary_arithmetic.hpp", "softclip.hpp", "simd_math.hpp", "detail/math.hpp", "detail/vec_math.hpp"],
  [("sign", "detail/vec_math.hpp vec_sign, detail/math.hpp sign"), ("undenormalize", "detail/vec_math.hpp vec_undenormalize, detail/math.hpp undenormalize"), ("softclip", "softclip.hpp"), ("signed_sqrt", "detail/vec_math.hpp, detail/math.hpp")])

p("C05", "Rounding functions are exact for every finite input",
  "For every finite x, floor, ceil and trunc return exactly the mathematical floor, ceiling and integer part, and round returns an integer nearest to x (either neighbour on an exact tie). "
  "frac returns x - floor(x) and lies in [0, 1]. This holds for the plain and SIMD forms, for float and double and in every instruction-set configuration, including negative values, values below 1 in magnitude and values too large to have a fractional part or to fit a machine integer.",
  ["inputs", "configurations"], "all finite inputs, partitioned by integer part, fraction class and binade",
  "The tests sample a few hundred values of moderate size; the emulated rounding (adding and subtracting 2^23) and the conversions through integers only break at particular magnitudes.",
  ["simd_unary_arithmetic.hpp", "detail/math.hpp", "detail/vec_math.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("emulated rounding", "detail/vec_math.hpp vec_round_float, vec_floor_float, vec_ceil_float"), ("rounding instructions", "vec/vec_sse.hpp, vec_sse2.hpp, vec_avx_*.hpp"), ("scalar fallbacks", "detail/math.hpp")])

p("C06", "exp, log, log2, log10, pow and spow stay accurate over their range",
  "The float SIMD forms agree with the real function: exp for every x, infinities included, within relative 5e-7 or the smallest normal number (saturating at the largest float, no NaN), log, log2 and log10 for every positive normal x within 5e-7*max(1,|result|), and pow(x,y) for x > 0 and results within 1e-30..1e30 within relative 1e-6*(1+|y|*max(1,|log x|)); spow(x,y) is sign(x)*pow(|x|,y) for x != 0 with the same accuracy. "
  "The plain forms and the double SIMD forms return the standard-library function of the argument in the precision of the element type.",
  ["inputs", "configurations"], "all inputs of the stated range, partitioned into binades and sub-intervals; all ISA configurations",
  "Tests check random points in a short range (0..1 or a little more); the approximations depend on range reduction, exponent extraction and table-like selection that only show at other magnitudes.",
  ["detail/vec_math.hpp", "detail/math.hpp", "simd_math.hpp", "vec/vec_base.hpp", "vec/vec_int_sse2.hpp", "vec/vec_int_avx.hpp"],
  [("exp", "detail/vec_math.hpp vec_exp_float"), ("log", "detail/vec_math.hpp vec_log_float"), ("frexp/ldexp", "detail/vec_math.hpp frexp_float, ldexp_float"), ("pow", "detail/vec_math.hpp vec_pow, vec_signed_pow")])

p("C07", "sin, cos and tan stay accurate in every quadrant",
  "The float SIMD forms of sin and cos agree with the real function within an absolute error of 3e-7, and tan within 5e-7*(1+tan(x)^2), for every |x| <= 8192, in every quadrant and for both signs; for |x| <= 0.25 sin and tan are within relative 5e-7, down to the denormals. "
  "The plain forms and the double SIMD forms return the standard-library function of the argument in the precision of the element type.",
  ["inputs", "configurations"], "all |x| <= 8192, partitioned by quadrant and sub-interval; all ISA configurations",
  "Tests use random arguments in a small range around zero, so most quadrants, large arguments and negative arguments are never exercised.",
  ["detail/vec_math.hpp", "detail/math.hpp", "simd_math.hpp", "vec/vec_int_sse2.hpp", "vec/vec_int_avx.hpp"],
  [("sin/cos/tan", "detail/vec_math.hpp vec_sin_float, vec_cos_float, vec_tan_float"), ("quadrant integers", "vec/vec_int_sse2.hpp, vec/vec_int_avx.hpp")])

p("C08", "asin, acos, atan and tanh stay accurate on their whole domain",
  "For every x, infinities included, the float SIMD forms agree with the real function within an absolute error of 7e-7 (asin), 1e-6 (acos), 5e-7 (atan) and 4e-7 (tanh), for both signs and arbitrarily large arguments; asin, atan and tanh are within relative 5e-7 for |x| <= 0.25, and asin and acos are 0 outside [-1,1] (NaN where the library function is used). "
  "The plain forms and the double SIMD forms return the standard-library function of the argument in the precision of the element type.",
  ["inputs", "configurations"], "the whole domain of each function, partitioned at every branch threshold and into sub-intervals; all ISA configurations",
  "Tests sample a few values, mostly in [0,1]; the piecewise branches, their thresholds and the saturating regions for both signs are not covered.",
  ["detail/vec_math.hpp", "detail/math.hpp", "simd_math.hpp"],
  [("asin/acos/atan/tanh", "detail/vec_math.hpp"), ("range selection by masks", "detail/vec_math.hpp select/mask_gt/mask_lt uses")])

p("C09", "Unit conversions implement their musical formulas",
  "midi2freq = 440*2^((m-69)/12), freq2midi = 69+12*log2(|f|/440), midi2ratio = 2^(m/12), ratio2midi = 12*log2(r), oct2freq = 440*2^(o-4.75), freq2oct = 4.75+log2(|f|/440), amp2db = 20*log10(|a|) and db2amp = 10^(d/20) hold for every argument of the usable range (midi -120..250, octaves -12..22, decibels -500..500, ratios, frequencies and amplitudes 1e-30..1e30, the absolute value being taken where written), within 2e-5 (float) or 1e-9 (double) of the larger of 1 and the result. "
  "All forms, element types and instruction-set configurations agree.",
  ["inputs", "configurations"], "all arguments in the stated ranges, all forms, element types, ISA configurations",
  "Tests check round trips on small positive ranges with loose tolerances, which hide compensating constants, wrong signs and precision loss.",
  ["simd_unit_conversion.hpp", "detail/vec_math.hpp", "detail/math.hpp"],
  [("conversion functors", "simd_unit_conversion.hpp")])

p("C10", "Ramped arguments advance by exactly one slope per sample",
  "Wherever a scalar argument is given as a ramp (value, slope), the sample at index i is computed with value + i*slope, in the precision of the element type up to the rounding of the accumulation, for every i up to n, in the plain, run-time SIMD and compile-time SIMD forms, whichever argument position is ramped and however many arguments are ramps. "
  "A slope of zero is the same as a scalar argument, and ramped and buffer arguments of one call stay in step.",
  ["inputs", "configurations", "histories"], "all base/slope values, all indices and lengths, all argument positions, forms, types and ISA configurations",
  "Tests use one small slope per function, float-sized tolerances and few argument positions, so drift, a wrong vector step, or lost double precision are invisible.",
  ["detail/wrap_arguments.hpp", "detail/wrap_argument_vector.hpp", "detail/unroll_helpers.hpp", "detail/math.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("ramp wrappers", "detail/wrap_arguments.hpp scalar_ramp_argument, detail/wrap_argument_vector.hpp vector_ramp_argument"), ("set_slope", "vec/vec_*.hpp")])

p("C11", "Fill, copy and accumulate functions move values unchanged",
  "zerovec writes +0, setvec the given value, copyvec the source sample, and addvec the old destination sample plus the source sample, constant or ramp value (value + i*slope), at every index, for the plain, run-time and compile-time SIMD forms and every aligned/unaligned variant. "
  "Fills and copies are bit-exact for every value including NaN and signed zero; sums carry one rounding in the precision of the element type (plus the ramp accumulation).",
  ["inputs", "configurations"], "all values, lengths, forms, alignment variants, element types and ISA configurations",
  "addvec with scalars and ramps, compile-time forms and several alignment variants are not called by any test; bit-exactness of special values is not tested.",
  ["simd_memory.hpp"],
  [("setvec/copyvec/addvec unrolling", "simd_memory.hpp")])

p("C12", "Slope and exponential fills follow their recurrence",
  "set_slope_vec writes start + i*slope and set_exp_vec writes start * curve^i at every index i < n, in the precision of the element type up to the rounding of the accumulation, and the SIMD forms write the same sequence as the plain forms; the vec members set_slope and set_exp fill the lanes the same way and return the step (size*slope, respectively start*curve^size) that continues the sequence. "
  "This holds for every start, slope, curve and length in every instruction-set configuration.",
  ["inputs", "configurations"], "all start/slope/curve values, indices and lengths; forms, types, ISA configurations",
  "Tests use one start and one slope with tolerances, and do not check the return values or the double precision of the step.",
  ["simd_memory.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("ramp fill", "simd_memory.hpp set_ramp, ipow"), ("set_slope/set_exp", "vec/vec_*.hpp")])

p("C13", "Horizontal reductions cover every sample exactly once",
  "horizontal_min/max return the smallest/largest sample of the buffer, horizontal_sum the sum in which every sample occurs exactly once (up to rounding in the element type), and the combined minmax and maxsum functions the same pairs, for every buffer contents without NaN (negative-only and positive-only buffers included) and every admissible length. "
  "The horizontal members of vec reduce over all lanes in the same way, in every instruction-set configuration.",
  ["inputs", "configurations"], "all buffer contents without NaN, all admissible lengths, element types, ISA configurations",
  "Tests use one buffer of mixed content; the extreme value's position, all-negative or all-positive data and other lengths are not covered.",
  ["simd_horizontal_functions.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "simd_utils.hpp"],
  [("accumulator start values", "simd_horizontal_functions.hpp"), ("lane reductions", "vec/vec_*.hpp horizontal_*; simd_utils.hpp")])

p("C14", "Peak meters account for every sample and the incoming state",
  "peak updates *peak to the maximum of its old value and every |sample|, and returns |last sample|; peak_rms additionally adds the square of every sample exactly once to *squared_sum (up to rounding). "
  "The plain and SIMD forms agree for every admissible length and NaN-free buffer and any non-negative initial peak, in every instruction-set configuration, and feeding a signal in consecutive blocks gives the same meters as one call.",
  ["inputs", "histories", "configurations"], "all buffers without NaN, initial meter values, admissible lengths, block splits; types and ISA configurations",
  "Tests use one length and start from one state; lanes other than the first, other lengths and negative peaks escape.",
  ["simd_peakmeter.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("peak loops", "simd_peakmeter.hpp"), ("load_first", "vec/vec_*.hpp")],
  state=[("*peak, *squared_sum", "running meter values", "simd_peakmeter.hpp")])

p("C15", "vec load, store and element access keep lane order and touch only their lanes",
  "For every vec type, load/load_aligned followed by store/store_aligned/store_aligned_stream is the identity on size consecutive elements, load_first sets lane 0 and zeroes all others, clear/set_vec and the scalar constructors set every lane, get(i) reads lane i, and set(i,x) changes lane i only. "
  "The constants of the class (zero, one, one half, sign, absolute-value, exponent and all-ones masks) have exactly the documented bit pattern in every lane; lane j always corresponds to memory element j.",
  ["inputs", "configurations", "programs"], "all lane contents, all lane indices, all vec types and ISA configurations",
  "Tests read lanes of a few constant vectors; several members (load_first, set, get of higher lanes, streaming stores, masks) are not tested in all types.",
  ["vec/vec_base.hpp", "vec/vec_generic.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("load/store/get/set members", "vec/vec_*.hpp"), ("gen_* constants", "vec/vec_*.hpp")])

p("C16", "vec operators, masks and select act lane by lane with the documented meaning",
  "For every vec type, + - * / (also their assigning and scalar-operand variants), unary minus, madd, abs, sign, square, cube, sqrt, min_, max_, the relational operators (1.0/0.0 per lane), and, where the type offers them, the mask_* comparisons (all-ones/zero per lane), & | ^ andnot and select(lhs, rhs, mask) (rhs where the mask is set, else lhs) compute each result lane from the same lanes of the operands only, with the meaning of the scalar operation. "
  "NaN compares false except for inequality; the integer companion vectors (+ - & andnot shifts comparisons conversions) likewise.",
  ["inputs", "configurations", "programs"], "all lane values, all vec types, ISA configurations",
  "Tests call a few operators with constant lanes, so lane mix-ups with equal values, NaN behaviour and scalar-operand variants are not visible.",
  ["vec/vec_base.hpp", "vec/vec_generic.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp", "vec/vec_int_sse2.hpp", "vec/vec_int_avx.hpp"],
  [("operators", "vec/vec_*.hpp"), ("integer vectors", "vec/vec_int_*.hpp"), ("select", "vec/vec_*.hpp select, detail/vec_math.hpp vec_select")])

p("C17", "Unaligned variants need no alignment, aligned ones only vector alignment",
  "The plain functions and the unaligned variants (zerovec_na, setvec_na, the source of copyvec_na, the destination of copyvec_an, both sides of copyvec_nn, vec load, load_first, store) access the caller's buffers without assuming more than element alignment, and the aligned SIMD forms never assume more than the size of one vec. "
  "vec::is_aligned(p) is true exactly for the pointers for which load_aligned/store_aligned are allowed.",
  ["inputs", "configurations"], "all buffer addresses, all functions and ISA configurations",
  "Test buffers are cache-aligned or happen to be offset by one element on one path; a wrongly aligned instruction faults only for particular addresses.",
  ["simd_memory.hpp", "vec/vec_base.hpp", "vec/vec_generic.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("aligned/unaligned loads and stores", "vec/vec_*.hpp"), ("copyvec/setvec aligned flags", "simd_memory.hpp"), ("is_aligned", "vec/vec_*.hpp")])

p("C18", "Processing in place gives the same result as processing out of place",
  "Every elementwise buffer function may be called with an output buffer that is the same buffer as one of (or all of) its input buffers: each output sample is then still computed from the original input sample of the same index. "
  "This holds for the plain, run-time and compile-time SIMD forms and every argument position, element type, length and instruction-set configuration.",
  ["inputs", "configurations"], "all functions, forms, aliasing positions, lengths, types and ISA configurations",
  "Tests mostly use distinct buffers; reading ahead or re-reading after a store only shows when buffers alias.",
  ["detail/unroll_helpers.hpp", "detail/math.hpp", "simd_memory.hpp", "simd_pan.hpp"],
  [("load-before-store order", "detail/unroll_helpers.hpp mp_iteration_*"), ("plain loops", "detail/math.hpp")])

p("C19", "Functions are pure, reentrant and real-time safe",
  "No function of the library writes any memory other than its output arguments, keeps or reads mutable state between calls, allocates, locks, throws, or calls anything besides side-effect-free math and memory-block routines (and the assertion failure hook in debug builds). "
  "Consequently concurrent calls on disjoint buffers do not interfere, and equal arguments always give equal results.",
  ["schedules", "histories", "configurations"], "all call sequences, thread interleavings, inputs and ISA configurations",
  "Tests run single-threaded with one call at a time and cannot see hidden state, allocation or errors that need an interleaving.",
  ["detail/vec_math.hpp", "detail/math.hpp", "detail/unroll_helpers.hpp", "simd_memory.hpp", "simd_horizontal_functions.hpp", "simd_peakmeter.hpp", "simd_pan.hpp", "vec/vec_base.hpp"],
  [("header-only value code", "all headers"), ("function-local constants", "detail/vec_math.hpp DP1..DP3")])

p("C20", "The whole documented API is usable in every configuration",
  "Every documented function, overload, argument-wrapper combination and vec member can be instantiated and linked for float and double, in each supported configuration (" + ISA + "), as C++98 and C++14, from several translation units, and each header compiles on its own. "
  "In each configuration samples_per_loop is a positive multiple of vec::size and the vec has at least as many bytes as size elements.",
  ["programs", "configurations"], "all API instantiations x ISA configurations x language modes",
  "Templates that no test instantiates are not even type-checked; the tests instantiate part of the API in three configurations.",
  ["vec.hpp", "simd_memory.hpp", "simd_unroll_constraints.hpp", "simd_utils.hpp", "detail/define_macros.hpp", "vec/vec_generic.hpp"],
  [("templates", "all headers"), ("configuration switches", "vec.hpp")])

p("C21", "Results never depend on undefined values",
  "No output sample, return value or branch of any public function depends on an uninitialised or otherwise undefined value or lane, and no operation with undefined behaviour (out-of-range shift, out-of-range float-to-integer conversion, misuse of uninitialised lanes, integer overflow of signed counters) decides a result, for any input. "
  "Debug and release builds compute the same values.",
  ["inputs", "configurations"], "all inputs (for float-to-integer conversion: all finite inputs), functions, element types and ISA configurations",
  "Undefined lanes usually happen to hold harmless values with one compiler and optimisation level, so tests pass by luck.",
  ["vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_base.hpp", "detail/math.hpp", "detail/vec_math.hpp", "simd_peakmeter.hpp"],
  [("lane initialisation", "vec/vec_*.hpp load_first, get, set; vec/vec_int_avx.hpp"), ("conversions", "detail/math.hpp trunc")])

p("C22", "Panning distributes the input with the right factor on each side",
  "pan2 writes out0[i] = in[i]*factor0 and out1[i] = in[i]*factor1, and the ramped overload in[i]*(factor0+i*slope0) and in[i]*(factor1+i*slope1), at every index, in the precision of the element type, for the plain, run-time and compile-time SIMD forms in every instruction-set configuration, also when one output is the input buffer.",
  ["inputs", "configurations"], "all factors, slopes, samples, lengths, forms, types, ISA configurations",
  "Tests use one factor pair and one slope pair with small values; exchanged or shared slopes and compile-time forms with other lengths are not distinguished reliably.",
  ["simd_pan.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp"],
  [("pan loops", "simd_pan.hpp")])

p("C23", "Every sample is processed independently and identically",
  "For every elementwise buffer function (arithmetic, comparison, rounding, mathematical, conversion and softclip functions) output sample i depends on the buffer arguments only through their samples at the same index i, depends on every argument, and the computation applied is the same whatever i, n, the lane position or the neighbouring samples are. "
  "No sample is skipped, duplicated, reordered or influenced by another lane.",
  ["inputs", "configurations"], "all indices, lengths, neighbouring values, functions, forms, types and ISA configurations",
  "Tests compare whole buffers of well-behaved data at a few lengths; a cross-lane dependency that matters only for special neighbours, or a lane treated differently only in one form, escapes.",
  ["detail/unroll_helpers.hpp", "detail/math.hpp", "vec/vec_base.hpp", "vec/vec_sse.hpp", "vec/vec_sse2.hpp", "vec/vec_avx_float.hpp", "vec/vec_avx_double.hpp", "vec/vec_int_avx.hpp"],
  [("lane-wise vec operations", "vec/vec_*.hpp"), ("loop structure", "detail/unroll_helpers.hpp, detail/math.hpp")])

p("C24", "Processing-time and throughput guarantees",
  "The SIMD forms are at least as fast as the plain forms, with a run time per sample that does not depend on the sample values (no denormal or branch penalties).",
  ["inputs", "configurations"], "all inputs and machines",
  "Tests measure nothing.",
  ["benchmarks/benchmark_helpers.hpp", "detail/unroll_helpers.hpp"],
  [("unrolled SIMD loops", "detail/unroll_helpers.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
