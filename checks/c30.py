META = {"technique": "TLA+ definitions of integer matrix operations and the laws characterising inverses and factorisations, checked with TLC over elementary row operations; TLC validation of the real routines' results",
        "note": "Products (real, 32 and 64 bit), transpose, copy, scaled sum, selection, triangular and identity forms, vector operations, inversion, orthogonal factorisation, linear systems, weighted least squares, the four pseudo-inverses and UDU factorisation, on dimensions from one to eight, with unimodular, random and singular contents, under AddressSanitizer with exactly sized buffers."}


def run(ctx):
    ctx.mc("LinMC")
    ctx.mc("LinMC", "LinMC4.cfg")
    if not ctx.quick:
        ctx.mc("LinMC", "LinMCdeep.cfg")
        ctx.mc("LinMC", "LinMC4deep.cfg")
    for part, what in ((0, "definitions"), (1, "inverses"), (2, "least squares")):
        for k in range(1 if ctx.quick else 4):
            t = ctx.driver("lin", [part, 1 if ctx.quick else 0, ctx.seed + 1000 * k], cfg="asan", what=what)
            ctx.validate("LinTrace", t, what=what, minchunk=400)
