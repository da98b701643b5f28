META = {"technique": "TLA+ bit-serial CRC register with TLC-checked algebra (table step, linearity, self-check); TLC validation of recorded CRCs of the real code",
        "note": "the whole byte table from many register values (which determines the byte-wise step for every value by linearity), byte messages of all short lengths and random long ones also computed in pieces, bit messages of every length up to 130 (700 thorough) in both polarities; AddressSanitizer watches reads outside the message. Starting values are 24-bit."}


def run(ctx):
    ctx.mc("CrcMC")
    t = ctx.driver("crc", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="CRC-24Q")
    ctx.validate("CrcTrace", t, what="CRC-24Q", minchunk=100)
