META = {"technique": "TLA+ slot-map state machine with lock/write/unlock steps, model-checked; TLC validation of recorded histories including the map seen inside every lock callback",
        "note": "every (slot, channel) assignment, pairs of slots on one channel, out-of-range 16-bit requests and random histories; the fill-with-dummy-data test helper and lookups of the 'unknown' channel are outside the property."}


def run(ctx):
    ctx.mc("GloMapMC")
    t = ctx.driver("glomap", [1 if ctx.quick else 0, ctx.seed], cfg="asan", what="GLONASS slot map")
    ctx.validate("GloMapTrace", t, what="GLONASS slot map", reset=False)
