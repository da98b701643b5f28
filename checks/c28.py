META = {"technique": "TLA+ memory model of the checked copy, string/membership/path functions and the log as a state machine, lemmas over all small memories and paths; TLC validation of exhaustive small cases and random log histories",
        "note": "every destination, source, size and count in a small memory, 2^k sizes; every string of separators and letters up to length 6 (8 thorough); histories of installs, resets and messages at every level, threshold and form, with the default writing to the error stream or not."}


def run(ctx):
    ctx.mc("BoundedMC")
    q = 1 if ctx.quick else 0
    for part, cfg, what in ((0, "asan", "copies, lengths, membership"), (1, "asan", "paths"),
                            (2, "asan", "log without a default sink"), (3, "log", "log with the default sink")):
        t = ctx.driver("bounded", [part, q, ctx.seed], cfg=cfg, what=what)
        ctx.validate("BoundedTrace", t, what=what, minchunk=40)
