META = {"technique": "TLA+ bit-sequence specification with TLC-checked algebra; TLC validation of every alignment and width of the real bit accessors on exactly-sized buffers",
        "note": "all bit alignments and all supported widths with several buffer contents and values (widths 0 and above the maximum leave the buffer alone for writes); 8- and 16-bit helpers exhaustive or nearly so, wider ones by walking bits and random values; AddressSanitizer watches accesses outside the addressed bytes."}


def run(ctx):
    ctx.mc("BitFieldMC")
    t = ctx.driver("bits", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="bit access")
    ctx.validate("BitsTrace", t, what="bit access", minchunk=300)
