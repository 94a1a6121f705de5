"""Which harness builds decide which property."""


def on(harness, *variants, **opt):
    return [(harness, v, opt) if opt else (harness, v) for v in variants]


FFT_RULE = ("one case = one plan and the transforms asked of it (every unit vector of a size, or a generated signal with its direction, view layout and amplitude); "
            "it counts when its output was compared with a long double DFT; distinct by build variant and case description")
CONV_RULE = ("one case = one generated impulse response, block size and input stream driven through one convolver; it counts when the output stream was compared "
             "with a long double convolution; distinct by build variant and case description")
ELEM_RULE = ("one case = one call with generated sizes, layouts, strides and values; it counts when its result was compared with a long double (or exact) model; "
             "distinct by build variant and case description")
TOL = "results are compared within a rounding budget a few times what correct code needs, not bit for bit"
SHIM = "mdspan/mdarray come from the bounds-monitored stand-in in /verif/shim, because the Kokkos library is not installed here"

PLAN = {
    "C01": dict(jobs=on("fft2", "asan", "rel", "gcc", "avx512", "sse2"), rule=FFT_RULE, assumptions=[TOL, SHIM, "dense signals against every bin up to order 17 (quick) or 18 (thorough); sampled bins plus full round trip up to order 22 (quick) or 24 (thorough); unit vectors up to order 25 (quick) or 27, the largest supported (thorough)"]),
    "C02": dict(jobs=on("fft_ref", "asan", "rel", "gcc") + on("fft_stockham", "asan", "rel", "gcc") + on("fft_any", "asan", "rel", "gcc"), rule=FFT_RULE,
                assumptions=[TOL, SHIM, "direct DFT and arbitrary-size plan with std::complex only"]),
    "C03": dict(jobs=on("real_fft", "asan", "rel", "gcc", "avx512"), rule=FFT_RULE, assumptions=[TOL, SHIM]),
    "C04": dict(jobs=on("history", "asan", "rel", "gcc"),
                rule="one case = one kind of object, a random history of calls, copies, moves and foreign objects, and the same question asked before and after; it counts "
                     "when the answers were compared bit for bit; distinct by build variant, kind, shape and history", assumptions=[SHIM]),
    "C05": dict(jobs=on("stft", "asan", "rel", "gcc"), rule=FFT_RULE, assumptions=[TOL, SHIM, "frame not longer than the transform; signal not empty"]),
    "C06": dict(jobs=on("convolver", "asan", "rel", "gcc", "avx512", "sse2"), rule=CONV_RULE, assumptions=[TOL, SHIM, "block sizes are powers of two from 2"]),
    "C07": dict(jobs=on("conv_state", "asan", "rel", "gcc"), rule=CONV_RULE, assumptions=[TOL, SHIM]),
    "C08": dict(jobs=on("conv_sparse", "asan", "rel", "gcc"), rule=CONV_RULE, assumptions=[TOL, SHIM]),
    "C09": dict(jobs=on("conv_chunks", "asan", "rel", "gcc"), rule=CONV_RULE, assumptions=[TOL, SHIM, "every call has at least one block"]),
    "C10": dict(jobs=on("overlap", "asan", "rel", "gcc"), rule=CONV_RULE, assumptions=[TOL, SHIM]),
    "C11": dict(jobs=on("linear_conv", "asan", "rel", "gcc"), rule=CONV_RULE, assumptions=[TOL, SHIM]),
    "C12": dict(jobs=on("fdl", "asan", "rel", "gcc"),
                rule="one case = one history of inserts, reads and copies on one delay line, one trace of indexer calls, every storage value of an accessor, or one stream "
                     "through a compressed convolver; it counts when reads or events were compared with the model; distinct by build variant and case description",
                assumptions=[SHIM, "compressed lines hold values within [-1, 1]"]),
    "C13": dict(
        jobs=on("fixed_scalar", "asan", "rel", "gcc"),
        rule="one case = one sweep of operands (all values, all pairs, one operand against all, random pairs, float bit patterns) for one storage width and "
             "fraction size; it counts when at least one result was compared with the exact integer model; distinct by build variant and case description",
        assumptions=["storage is int8 or int16", "NaN is never converted"],
    ),
    "C14": dict(
        jobs=on("fixed_bulk", "asan", "rel", "sse41", "sse2", "avx512", "gcc"),
        rule="one case = one bulk call (operation, length, alignment, aliasing, fraction size) or one batch of lanes; it counts when its output was compared "
             "element by element with the exact integer model; distinct by build variant and case description",
        assumptions=["equal lengths; output disjoint from or identical to an input"],
    ),
    "C15": dict(
        jobs=on("fixed_complex", "asan", "rel", "gcc"),
        rule="one case = 400 operand pairs of one complex fixed-point type, compared with the integer model; distinct by build variant and stream",
        assumptions=["8-bit complex multiplication is not provided by the library"],
    ),
    "C16": dict(jobs=on("simd_float", "asan", "rel", "gcc", "avx512", "sse2"),
                rule="one case = one batch of operands through every operation of one batch type; it counts when lanes were compared with the scalar operation; distinct by build variant and stream",
                assumptions=["NEON batches cannot be run here"]),
    "C17": dict(jobs=on("madd", "asan", "rel", "gcc", "avx512", "sse2", "noxs"), rule=ELEM_RULE, assumptions=[TOL, SHIM]),
    "C18": dict(jobs=on("elementwise", "asan", "rel", "gcc"), rule=ELEM_RULE, assumptions=[TOL, SHIM]),
    "C19": dict(jobs=on("stats", "asan", "rel", "gcc"), rule=ELEM_RULE, assumptions=[TOL, SHIM]),
    "C20": dict(jobs=on("csr", "asan", "rel", "gcc"),
                rule="one case = one history of constructions, inserts and reads on one sparse matrix; it counts when every element and container invariant was compared with a map model; "
                     "distinct by build variant and case description", assumptions=[SHIM]),
    "C21": dict(jobs=on("complex_math", "asan", "rel", "gcc"), rule=ELEM_RULE, assumptions=[TOL]),
    "C22": dict(jobs=on("integers", "asan", "rel", "gcc"),
                rule="one case = one sweep of operands or one permutation; it counts when results were compared with an exact model; distinct by build variant and case description",
                assumptions=[SHIM]),
    "C23": dict(jobs=on("units", "asan", "rel", "gcc"), rule=ELEM_RULE, assumptions=[TOL]),
    "C24": dict(
        jobs=on("fft2", "asan512", scale=0.5) + on("fft_ref", "asan512") + on("fft_stockham", "asan512") + on("fft_any", "asan512") + on("real_fft", "asan512")
        + on("stft", "asan512") + on("convolver", "asan512", "asan2") + on("conv_state", "asan512") + on("conv_sparse", "asan512") + on("conv_chunks", "asan512")
        + on("overlap", "asan512") + on("linear_conv", "asan512") + on("fdl", "asan512") + on("fixed_bulk", "asan512", "asan2", scale=0.5) + on("fixed_scalar", "asan2", scale=0.3)
        + on("madd", "asan512", "asan2") + on("elementwise", "asan512") + on("stats", "asan512") + on("csr", "asan512") + on("integers", "asan512")
        + on("history", "vg", scale=0.5) + on("csr", "vg", scale=0.5),
        keys=r"crash-.*|hang|out_of_range_write|input_changed|intact",
        rule="one case = one workload case of another property, run under address and undefined-behaviour sanitizers (AVX-512 and baseline builds) or memcheck, with guarded buffers, "
             "canaries and bounds-monitored views; it counts when it made library calls; distinct by build variant and case description",
        assumptions=[SHIM, "a clean sanitizer run is not memory safety: only executed paths were watched"],
    ),
    "C25": dict(jobs=on("threads", "tsan", "tsan2", "rel"),
                rule="one case = 2 to 8 threads released by a barrier, each with its own objects (or sharing read-only ones); it counts when results were compared bit for bit with the same "
                     "work on one thread; distinct by build variant and case description",
                assumptions=[SHIM, "objects are not shared between threads except for reading"]),
    "C26": dict(jobs=on("alloc", "rel", "dbg", "gcc"),
                rule="one case = one object set up and its processing calls watched; it counts when at least one call ran with the heap watcher on; distinct by build variant, kind and stream",
                assumptions=[SHIM, "calls that return fresh storage (short-time transform, one-shot convolutions) are excluded"]),
}
