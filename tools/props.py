import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=["src/neo/"+f for f in files],mechanism=[dict(name=n,where="src/neo/"+w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where="src/neo/"+c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

prop("C01","Radix-2 complex FFT plans compute the DFT",
 "For every supported order and every finite input, a power-of-two complex transform plan (the default plan and every alternative radix-2 kernel, scalar or SIMD-batched) replaces its input with the unnormalised discrete Fourier transform, with exponent sign minus for forward and plus for backward, to within rounding. Forward followed by backward gives the input times its length, for any element type, contiguous or strided view, in place or through the out-of-place helpers, and the plan reports the size it transforms. Orders beyond the supported maximum are refused with an exception.",
 ["inputs","configurations"],"all orders 0..max, both directions, all complex element types, kernels, view layouts and signals",
 "the tests transform a few stored vectors or check a round trip; a wrong twiddle, direction or reordering at one order, kernel or size-1/2 corner survives them",
 ["fft/fft.hpp","fft/reference/c2c_dit2_plan.hpp","fft/reference/kernel/c2c_dit2.hpp","fft/reference/bitrevorder.hpp","fft/twiddle.hpp","fft/order.hpp"],
 [("decimation-in-time butterflies","fft/reference/kernel/c2c_dit2.hpp"),("twiddle tables","fft/twiddle.hpp"),("bit reversal","fft/reference/bitrevorder.hpp")])

prop("C02","Higher-radix, Stockham, split and arbitrary-size plans compute the DFT",
 "Every other complex transform the library offers (radix 3, 4 and 5 plans, the self-sorting plans of radix 2, 3, 4, 5 and 8, the split real/imaginary plan, the arbitrary-length plan and the direct transform) computes the same unnormalised DFT as the definition, in both directions, for every size it accepts including one. Out-of-place forms leave their input unchanged.",
 ["inputs","configurations"],"all plan kinds, orders or lengths, directions, element types, layouts and signals",
 "tests of these plans compare one or two orders, some only forward, against stored vectors or the radix-2 plan",
 ["fft/reference/c2c_dif3_plan.hpp","fft/reference/c2c_dif5_plan.hpp","fft/reference/c2c_dit4_plan.hpp","fft/reference/c2c_stockham_dif2_plan.hpp","fft/reference/c2c_stockham_dif3_plan.hpp","fft/reference/c2c_stockham_dif4_plan.hpp","fft/reference/c2c_stockham_dif5_plan.hpp","fft/reference/c2c_stockham_dif8_plan.hpp","fft/reference/c2c_stockham_dit4_plan.hpp","fft/fallback/fallback_dft_plan.hpp","fft/fallback/fallback_split_fft_plan.hpp","fft/dft.hpp","fft/split_fft.hpp"],
 [("radix-r butterflies and twiddles","fft/reference"),("chirp convolution","fft/fallback/fallback_dft_plan.hpp"),("swapped-part backward transform","fft/fallback/fallback_split_fft_plan.hpp")])

prop("C03","Real transforms match the DFT of real signals",
 "The real transform of n samples yields exactly the first n/2+1 bins of their DFT and writes nothing else; its inverse treats those bins as a conjugate-symmetric spectrum and returns n times the signal, for any half spectrum, ignoring whatever a longer input holds past it. Splitting the transform of two packed real signals returns both spectra, the type-II cosine transform equals its defining cosine sum, and the packed in-place real transform and its inverse agree with the same DFT.",
 ["inputs","configurations"],"all orders including 0 and 1, element types, layouts, signals and arbitrary half spectra",
 "tests round-trip a few orders; an error in one bin, in the Nyquist or DC handling, in the inverse of a non-physical spectrum or at the smallest sizes is invisible to them",
 ["fft/rfft.hpp","fft/fallback/fallback_rfft_plan.hpp","fft/dct.hpp","fft/experimental/rfft.hpp"],
 [("conjugate extension","fft/fallback/fallback_rfft_plan.hpp"),("deinterleave","fft/rfft.hpp"),("cosine post-twiddle","fft/dct.hpp"),("packed split step","fft/experimental/rfft.hpp")])

prop("C04","Results do not depend on what was computed before",
 "A transform plan, one-shot convolver or algorithm returns bit-identical results for identical inputs, whatever it or any other object processed earlier, including inputs holding infinities or NaN. A streaming convolver's output depends only on its own filter and stream. Copies continue independently of their originals and moving an object changes nothing.",
 ["histories"],"all histories of calls, directions, copies, moves and foreign objects before a call",
 "tests build a fresh object, use it once or twice and never compare with a long or poisoned history",
 ["fft/fft.hpp","fft/fallback/fallback_rfft_plan.hpp","fft/fallback/fallback_dft_plan.hpp","fft/stft.hpp","convolution/fft_convolver.hpp","convolution/uniform_partitioned_convolver.hpp","convolution/overlap_add_convolver.hpp"],
 [("scratch buffers fully rewritten per call","fft/fallback/fallback_dft_plan.hpp"),("zero padding per call","convolution/fft_convolver.hpp"),("value-semantics storage","container/mdspan.hpp")])

prop("C05","Short-time transform, windows, bin frequencies and partitioning",
 "The short-time transform cuts every channel into frames one hop apart starting at the first sample, zero-pads the last, applies the window and returns each frame's real spectrum, covering the whole signal with exactly the frames needed. Window functions return their defining values, bin frequencies are the multiples of rate over length, and partitioning an impulse response yields per channel the spectrum of each zero-padded block of it, losing and duplicating no sample.",
 ["inputs","configurations"],"all frame, transform and overlap sizes, channel counts, signal lengths and window choices",
 "tests check output extents and one configuration; frame positions, padding of the last frame and the values themselves are sampled at best once",
 ["fft/stft.hpp","fft/rfftfreq.hpp","math/windowing.hpp","convolution/uniform_partition.hpp"],
 [("frame loop","fft/stft.hpp"),("window formulas","math/windowing.hpp"),("block partitioning","convolution/uniform_partition.hpp")])

prop("C06","Streaming convolvers compute the linear convolution",
 "Fed any signal block by block, every partitioned convolver (overlap-add or overlap-save; dense, split or sparse storage; single or double precision) outputs, sample for sample and without extra latency, the running linear convolution of the whole stream with the impulse response it was given, to within rounding. This holds for every power-of-two block size from two, every response length and arbitrarily long streams; after infinities or NaN in the input, the output is exact again once they are out of the filter's reach.",
 ["inputs","histories","configurations"],"all convolver kinds, block sizes, response lengths, signals and stream lengths (past every wrap of the delay line)",
 "tests convolve with an identity or one short response for a few blocks; ring-buffer wrap-around, last partial partitions and long tails are not reached",
 ["convolution/uniform_partitioned_convolver.hpp","convolution/overlap_add.hpp","convolution/overlap_save.hpp","convolution/dense_fdl.hpp","convolution/dense_filter.hpp","convolution/sparse_filter.hpp","convolution/fdl_index.hpp","convolution/overlap_add_convolver.hpp","algorithm/multiply_add.hpp"],
 [("frequency delay line and index","convolution/fdl_index.hpp"),("overlap bookkeeping","convolution/overlap_add.hpp"),("spectral multiply-accumulate","algorithm/multiply_add.hpp")],
 state=[("delay line","spectra of past blocks","convolution/dense_fdl.hpp"),("overlap tail","samples still to be added","convolution/overlap_add.hpp")])

prop("C07","Loading a filter restarts a convolver; instances are independent",
 "After a new impulse response is loaded, of the same or another block size and length, a convolver behaves exactly like a new one: nothing of the earlier response or stream is heard. Interleaving any number of convolvers gives each the output it would have alone, and a copy carries on from the history at the moment of copying.",
 ["histories","configurations"],"all sequences of filter changes, streams, copies and interleavings",
 "no test loads a second filter or interleaves convolvers",
 ["convolution/uniform_partitioned_convolver.hpp","convolution/overlap_add_convolver.hpp","convolution/overlap_add.hpp","convolution/overlap_save.hpp"],
 [("filter() rebuilds delay line, index, overlap and accumulator","convolution/uniform_partitioned_convolver.hpp"),("position reset","convolution/overlap_add_convolver.hpp")])

prop("C08","A sparse convolver equals a dense one with the dropped bins zeroed",
 "Whatever predicate chooses which coefficients of a partitioned response are kept, the sparse convolver outputs exactly what frequency-domain convolution with the dropped coefficients set to zero gives, including predicates that keep nothing or everything. The predicate sees each coefficient with its own partition, bin and value.",
 ["inputs","configurations"],"all keep/drop patterns, responses, block sizes and streams",
 "the tests keep everything, or compare one threshold; empty rows, single columns and first/last bins are not covered",
 ["convolution/sparse_filter.hpp","convolution/sparse_convolver.hpp","container/csr_matrix.hpp","algorithm/multiply_add.hpp"],
 [("compressed-row construction","container/csr_matrix.hpp"),("sparse multiply-accumulate","algorithm/multiply_add.hpp")])

prop("C09","Chunk sizes do not change the chunked convolver's output",
 "For the convolver that accepts calls of any length of at least one block, the concatenated output is the linear convolution of the concatenated input, however the stream is cut into calls. No sample is dropped, repeated or delayed at call borders that fall inside a block.",
 ["inputs","histories"],"all cuts of all streams into calls of at least one block, all responses and block sizes",
 "tests only use calls that are whole blocks",
 ["convolution/overlap_add_convolver.hpp"],
 [("partial-block position and input window","convolution/overlap_add_convolver.hpp")],
 state=[("input position","samples of the current block already seen","convolution/overlap_add_convolver.hpp")])

prop("C10","Overlap-add and overlap-save frames are exact",
 "For each block, the callback receives exactly once the spectrum of the right frame: the zero-padded block for overlap-add, the most recent transform-length samples for overlap-save. What the callback leaves there is transformed back so that any per-bin filter within the filter length yields the linear convolution, and an untouched spectrum reproduces the input without delay; reported sizes match the configuration.",
 ["inputs","histories","configurations"],"all block and filter sizes from one, signals, filters and numbers of blocks",
 "tests pass an identity callback over one or two configurations",
 ["convolution/overlap_add.hpp","convolution/overlap_save.hpp"],
 [("overlap ring","convolution/overlap_add.hpp"),("sliding window","convolution/overlap_save.hpp")])

prop("C11","One-shot convolutions equal the convolution sum",
 "Direct and FFT-based convolution of two finite signals return exactly len(a)+len(b)-1 samples equal to the convolution sum (exactly for the direct form up to rounding of the sum, within FFT rounding for the other), for every pair of lengths including one. The result is symmetric in its operands, inputs are not modified, and a reusable FFT convolver can be called repeatedly.",
 ["inputs","configurations"],"all length pairs, signals, element types and view layouts",
 "tests use a few short pairs; unequal lengths, lengths of one and strided views are not covered",
 ["convolution/direct_convolve.hpp","convolution/fft_convolver.hpp","convolution/mode.hpp","convolution/method.hpp"],
 [("edge loops","convolution/direct_convolve.hpp"),("zero padding and scaling","convolution/fft_convolver.hpp")])

prop("C12","Frequency delay lines keep rows; the index pairs block age with partition",
 "A delay line returns for every row exactly what was last inserted there (in compressed form: within half a quantisation step for values in [-1,1]), untouched rows stay as they were and start at zero, and integer-compressed views read each stored value as its fraction of full scale. On every call the delay-line index stores once, before use, then visits every row and every filter partition exactly once, pairing the block stored k calls ago with partition k, wrapping forever, and starting over after a reset. A convolver on a compressed delay line stays within the bound the quantisation implies.",
 ["histories","inputs","configurations"],"all insert/read/copy/reset histories, row counts, index types, values and storage widths",
 "tests insert one row and step the index through one wrap of three rows",
 ["convolution/dense_fdl.hpp","convolution/compressed_fdl.hpp","convolution/fdl_index.hpp","container/compressed_accessor.hpp"],
 [("row storage","convolution/dense_fdl.hpp"),("round to integer scale","convolution/compressed_fdl.hpp"),("ring index","convolution/fdl_index.hpp")])

prop("C13","Fixed-point scalars convert, saturate and compare exactly",
 "A fixed-point number built from a floating value is that value (rounded to single precision) clamped to the representable range and truncated toward zero on its grid, and converts back exactly; addition, subtraction and negation saturate at the limits and are otherwise exact; multiplication rounds the exact product down to the grid and saturates. Comparisons order numbers exactly as their values, for every fraction size of 8- and 16-bit storage.",
 ["inputs","configurations"],"all operand values and pairs, all fraction sizes of 8- and 16-bit storage, all finite and infinite float inputs",
 "tests try a handful of values of two formats; limits, negative products and out-of-range conversions are reached by exhaustive or boundary-aimed runs only",
 ["fixed_point/fixed_point.hpp"],
 [("saturating operators","fixed_point/fixed_point.hpp"),("float constructor","fixed_point/fixed_point.hpp")])

prop("C14","Bulk and SIMD fixed-point operations equal the scalar operators",
 "Adding, subtracting or multiplying whole arrays of fixed-point numbers gives, element for element and bit for bit, what the scalar operators give, for every length, alignment and in-place use, on every instruction set the library has code for. The fixed-point SIMD batch types do the same per lane, their loads, stores and broadcasts move values unchanged, and nothing outside the arrays is read or written.",
 ["inputs","configurations"],"all operand pairs, lengths (vector bodies and remainders), alignments, aliasing, formats and instruction sets",
 "tests use a few lengths with values far from saturation, on one instruction set",
 ["fixed_point/algorithm.hpp","fixed_point/simd.hpp"],
 [("vector loop and scalar remainder","fixed_point/algorithm.hpp"),("saturating and rounding-multiply kernels","fixed_point/simd.hpp")])

prop("C15","Complex fixed-point arithmetic follows the complex definition",
 "Sums and differences of complex fixed-point numbers saturate part by part like the scalar operators, and parts are stored, replaced and returned unchanged. A product is the complex product scaled by one quarter, each of its four partial products rounded down to the grid; every part of both operands enters exactly the terms the complex product prescribes.",
 ["inputs"],"all operand pairs of the complex fixed-point types",
 "one product is checked, with operands whose symmetric imaginary parts hide an operand mix-up",
 ["fixed_point/complex.hpp"],
 [("operators","fixed_point/complex.hpp")])

prop("C16","Floating SIMD batches act lane by lane",
 "On every floating-point SIMD batch type, arithmetic equals the scalar operation in every lane, loads and stores at any address move exactly one batch of elements unchanged, and broadcast fills every lane with one value. The native batch type is the widest one the build supports and its reported size is its number of lanes.",
 ["inputs","configurations"],"all lane values including infinities, NaN, signed zero and denormals, all offsets and instruction sets",
 "tests broadcast and add one or two values",
 ["simd/sse2.hpp","simd/avx.hpp","simd/avx512.hpp","simd/native.hpp","simd.hpp"],
 [("intrinsic wrappers","simd/avx.hpp"),("native selection","simd/native.hpp")])

prop("C17","multiply_add computes x*y+z in every form",
 "Every form of multiply-add (real, complex and split-complex vectors, any mix of layouts, SIMD or scalar, dense or one row of a sparse matrix) yields x*y+z for each element to within rounding, also when the output is the addend. The sparse form does so for the elements stored in that row and leaves every other output element alone; extents, strides and operand types never change which elements meet.",
 ["inputs","configurations"],"all lengths (SIMD bodies and remainders), layouts, element types, aliasing and instruction sets",
 "tests use contiguous operands of a few fixed lengths and one layout",
 ["algorithm/multiply_add.hpp"],
 [("layout dispatch and SIMD paths","algorithm/multiply_add.hpp"),("sparse row loop","algorithm/multiply_add.hpp")])

prop("C18","Elementwise algorithms act on corresponding elements only",
 "Adding, multiplying, scaling, copying and filling vectors and matrices, including conversions between interleaved and split complex, act on corresponding logical elements for every combination of layouts and strides, also in place, and write no other element. Comparison for closeness is true exactly when every corresponding pair differs by at most the tolerance (never when a NaN occurs), and matching is true exactly when its predicate holds for every corresponding pair.",
 ["inputs","configurations"],"all extents (including empty), layouts, strides, element types, values and aliasing",
 "tests use contiguous row-major data of one or two shapes",
 ["algorithm/add.hpp","algorithm/multiply.hpp","algorithm/scale.hpp","algorithm/copy.hpp","algorithm/fill.hpp","algorithm/allclose.hpp","algorithm/allmatch.hpp","algorithm/backend/linalg_binary_op.hpp","algorithm/backend/linalg_unary_op.hpp"],
 [("extent loops","algorithm/backend/linalg_binary_op.hpp"),("split copies","algorithm/copy.hpp"),("all-elements predicates","algorithm/allclose.hpp")])

prop("C19","Statistics and normalisation match their definitions",
 "Mean, variance, standard deviation and (root) mean squared error equal their defining sums, and are absent where undefined (empty, or variance of fewer than two values). Peak normalisation scales so that the largest magnitude is one, energy normalisation so that the sum of squares is one, impulse normalisation applies one common factor to all channels, and all of them leave silence unchanged.",
 ["inputs","configurations"],"all extents, layouts, element types and value distributions including constants, silence and large offsets",
 "tests use a few constant or tiny vectors",
 ["algorithm/mean.hpp","algorithm/variance.hpp","algorithm/standard_deviation.hpp","algorithm/mean_squared_error.hpp","algorithm/root_mean_squared_error.hpp","algorithm/normalize_peak.hpp","algorithm/normalize_energy.hpp","convolution/normalize_impulse.hpp"],
 [("accumulation loops","algorithm/mean.hpp"),("factor computation","algorithm/normalize_energy.hpp")])

prop("C20","The sparse matrix behaves like a map from positions to values",
 "After any sequence of constructions and insertions, in any order and with repeated positions, reading any position returns the last value put there or zero, row and column counts are those requested, and the exposed row, column and value arrays stay a valid compressed-row form with columns ascending and each position stored once. Building from a dense matrix keeps exactly the elements the predicate chose.",
 ["histories","inputs"],"all matrix shapes, insertion orders, repeated insertions and predicates",
 "tests insert a few elements in one order into one small matrix",
 ["container/csr_matrix.hpp"],
 [("ordered insert","container/csr_matrix.hpp"),("predicate constructor","container/csr_matrix.hpp")],
 state=[("row offsets, column indices, values","compressed rows","container/csr_matrix.hpp")])

prop("C21","Complex numbers and numeric helpers match the mathematics",
 "The library's own complex type adds, subtracts, negates, multiplies, divides and scales like mathematical complex numbers, also when both operands are the same object. Absolute value, conjugate, real and imaginary part, polar form, base-2 logarithm and exact comparison agree with the mathematical functions to within rounding, for the library's and the standard complex type, for floats and for integers, wherever squares stay in range.",
 ["inputs"],"all finite operands of each type, including zeros, extremes of magnitude and equal or nearby values",
 "tests use one or two small integers per function",
 ["complex/scalar_complex.hpp","complex/complex.hpp","math/abs.hpp","math/conj.hpp","math/real.hpp","math/imag.hpp","math/polar.hpp","math/log2.hpp","math/fast_math.hpp","math/float_equality.hpp","math/a_weighting.hpp"],
 [("operators","complex/scalar_complex.hpp"),("function objects","math")])

prop("C22","Integer helpers and index permutations are exact",
 "Integer power, ceiling division, power-of-two ceiling, base-2 logarithm, parity tests, bit casts and transform order/size conversions return the exact mathematical result for every argument in range, identically at compile time and run time. Bit reversal and digit reversal permute every supported length exactly as defined: applying bit reversal twice restores the input, and every element appears exactly once.",
 ["inputs","configurations"],"all in-range integer arguments of every integer type and all permutation lengths and layouts",
 "tests check a few values of each function and short permutations",
 ["math/ipow.hpp","math/idiv.hpp","math/is_even.hpp","math/is_odd.hpp","bit/bit_ceil.hpp","bit/bit_log2.hpp","bit/bit_cast.hpp","fft/order.hpp","fft/reference/bitrevorder.hpp","fft/reference/digitrevorder.hpp"],
 [("integer formulas","bit/bit_ceil.hpp"),("swap tables","fft/reference/bitrevorder.hpp")])

prop("C23","Decibel, mel and weighting conversions follow their formulas",
 "Amplitude to decibel, hertz to mel and back, and A-weighting follow their defining formulas to within the precision of the number type, and the fast decibel estimate stays within a hundredth of a decibel. Amplitudes at or below zero map to the given floor, results never fall below it, and mel frequency tables are evenly spaced in mel from the first to the last given frequency, both included.",
 ["inputs"],"all amplitudes, levels, frequencies, floors, table sizes and number types",
 "tests check a few fixed values",
 ["unit/decibel.hpp","unit/mel.hpp","math/a_weighting.hpp"],
 [("conversion formulas","unit/decibel.hpp"),("mel table","unit/mel.hpp")])

prop("C24","Valid calls return, stay in bounds, and have no undefined behaviour",
 "Every library call whose documented preconditions hold returns, reads and writes only elements of the views it was given and of its own storage, executes no undefined operation, and depends on no uninitialised memory. Inputs passed as read-only are bit-identical afterwards, including operands of in-place and strided calls that are not outputs.",
 ["inputs","histories","configurations"],"all valid calls on all instruction sets, sizes, strides, alignments and call histories",
 "the tests run without sanitizers on exact-size vectors of a few lengths; one element past a remainder loop goes unnoticed",
 ["algorithm","fft","convolution","container","fixed_point","simd"],
 [("extents from views","container/mdspan.hpp"),("vector remainder handling","fixed_point/algorithm.hpp"),("layout dispatch","algorithm/multiply_add.hpp")])

prop("C25","Objects in different threads are independent",
 "Plans, convolvers and algorithms used at the same time from different threads, each on objects of its own, give the same bits as the same work done on one thread, and never race. Read-only inputs, delay lines, sparse matrices and partitioned responses may be shared between such threads.",
 ["schedules"],"all interleavings of any number of threads using distinct objects or shared read-only ones",
 "no test starts a thread; a shared static table or scratch buffer introduces a race without changing any single-threaded result",
 ["fft/fft.hpp","fft/twiddle.hpp","fft/reference","convolution","algorithm"],
 [("no mutable global state; per-object scratch","fft/fallback/fallback_rfft_plan.hpp"),("const read access","container/csr_matrix.hpp")])

prop("C26","Processing calls never use the heap",
 "Once a plan or convolver has been constructed and its filter loaded, transforming, convolving and the elementwise algorithms allocate and free no heap memory, for any input and however long the stream runs. Only construction, loading a filter and functions that return new arrays may allocate.",
 ["histories","inputs","configurations"],"all processing calls of all objects after setup, in every build mode",
 "no test observes allocation; a temporary array inside a real-time path changes no result",
 ["fft","convolution/uniform_partitioned_convolver.hpp","convolution/overlap_add.hpp","convolution/overlap_save.hpp","convolution/overlap_add_convolver.hpp","convolution/fft_convolver.hpp","algorithm"],
 [("buffers sized at construction","fft/fallback/fallback_rfft_plan.hpp"),("accumulators sized when the filter is loaded","convolution/uniform_partitioned_convolver.hpp")])

open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
T={"default":"model-based runtime monitor under sanitizers"}
tech={
 "C04":"history monitor (bitwise differential) under sanitizers","C07":"history monitor with convolution oracle under sanitizers",
 "C12":"trace checker and reference model under sanitizers","C20":"history monitor against a map model under sanitizers",
 "C13":"exhaustive/boundary sweeps against an exact integer oracle under sanitizers","C14":"differential monitor per instruction set under sanitizers",
 "C24":"ASan+UBSan, bounds-monitored views, canaries, memcheck","C25":"ThreadSanitizer plus cross-thread result comparison","C26":"heap-interposition monitor"}
import subprocess
m=dict(version=1,setup_cmd="python3 check.py --setup",checks=[],not_applicable=[],
  notes="Every check compiles its harnesses from /repo/src on each run. Level exploration throughout: verdicts hold for the executions listed in the evidence. See DESIGN.md.")
for d in P:
    m["checks"].append(dict(property=d["id"],quick_cmd=f"python3 check.py {d['id']}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {d['id']}",
      technique=tech.get(d["id"],"runtime monitor with long double/exact oracle under sanitizers"),level="exploration",
      level_note="Held on the executions counted in the evidence file, on the builds listed there; trusts the oracle in harness/, the compilers and the bounds-monitored mdspan stand-in in shim/.",
      evidence_file=f"evidence/{d['id']}.json"))
json.dump(m,open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../MANIFEST.json','w'),indent=1)
