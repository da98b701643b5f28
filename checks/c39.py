META = {"level": "model_checking",
        "technique": "TLA+ spec of calls as functions of arguments and registry (which computing schemes answer by the book in every interleaving, model checked), TLC validation of recorded histories and instruction-level pre-emptions of the real library",
        "note": "the outcome of each call as first call of a process of its own is the book; about 100 calls covering the library's functions are repeated in long histories, after changes of the GLONASS map and pre-empted by one another after chosen numbers of instructions. Outcomes are compared as 60-bit hashes of all output fields. Trusts the trap-flag scheduler.",
        "assumptions": ["x86-64; interleavings at instruction boundaries", "registries change only between calls", "outcomes compared bit for bit within one build"]}


def run(ctx):
    ctx.mc("PurityMC", workers=1)
    n = 4 if ctx.quick else 8
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        ts = list(ex.map(lambda k: ctx.driver("pure", [1 if ctx.quick else 0, ctx.seed * 100 + k], timeout=800,
                                              what="library call terminates without fault", outname="pure%d" % k), range(n)))
    for t in ts:
        ctx.validate("PurityTrace", t, reset="begin", minchunk=200, what="calls are independent of each other")
