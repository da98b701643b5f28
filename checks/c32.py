META = {"technique": "TLA+ fixed-point geodesy (sixteen decimals, laws of the arithmetic and of the ellipsoid checked with TLC); TLC validation of the real conversions against the forward conversion and the local frame to a micrometre",
        "note": "Latitudes and longitudes including both poles and points a picometre to a decimetre off the axis, the equator, the date line from both sides, heights from near the Earth's centre (60 km) to 10^8 m; geodetic to Cartesian and back, Cartesian to geodetic and back, degrees and radians, rotation matrices, local vectors both ways, azimuth and elevation in every direction including straight up and down."}


def run(ctx):
    ctx.mc("FixMC")
    ctx.mc("CoordMC")
    if not ctx.quick:
        ctx.mc("FixMC", "FixMCdeep.cfg")
        ctx.mc("CoordMC", "CoordMCdeep.cfg")
    for k in range(1 if ctx.quick else 4):
        t = ctx.driver("coord", [0, 1 if ctx.quick else 0, ctx.seed + 1000 * k], cfg="asan", what="conversions")
        ctx.validate("CoordTrace", t, what="conversions", minchunk=150)
