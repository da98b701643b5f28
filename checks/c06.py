META = {"technique": "TLA+ cursor state machine with exact 32-bit ranges (overflow check model-checked for every word of a small machine); TLC validation of exhaustive small and boundary histories of the real readers and writers",
        "note": "all small (length, cursor, position, count) combinations, boundary values up to 2^32-1, random histories; accepted bit accesses use supported widths only, and the cursor is not advanced past 2^32-1 in total."}


def run(ctx):
    ctx.mc("StreamMC")
    t = ctx.driver("stream", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="stream cursors")
    ctx.validate("StreamTrace", t, what="stream cursors", reset="init")
