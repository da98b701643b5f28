META = {"technique": "TLA+ fixed-point orbit models (Keplerian with harmonics, equations of motion, polynomial), whose laws (Kepler, energy, area, Newton, Jacobi integral, time reversal) are checked with TLC; TLC validation of the real satellite states, Doppler and look angles against them",
        "note": "GPS, QZSS, Galileo and BeiDou (medium, inclined and geostationary) ephemerides over the realistic ranges of every parameter, eccentricity to 0.17, references at week boundaries, times on both sides and across the week; GLONASS to half an hour; SBAS to a day; almanacs; position to 8 micrometres (GLONASS a millimetre), velocity to 0.1 mm/s, acceleration to 1e-7 m/s^2, clock to 1e-13 s; every entry point (validity checked or not, orbit type or not) and the readings derived from the state."}


def run(ctx):
    ctx.mc("FixMC")
    ctx.mc("OrbitMC")
    if not ctx.quick:
        ctx.mc("OrbitMC", "OrbitMCdeep.cfg")
    for k in range(1 if ctx.quick else 4):
        t = ctx.driver("orbit", [0, 1 if ctx.quick else 0, ctx.seed + 1000 * k], cfg="asan", what="orbits")
        ctx.validate("OrbitTrace", t, what="orbits", minchunk=100)
