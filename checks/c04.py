META = {"technique": "TLA+ registration/delivery state machine (intrusive list refinement model-checked); TLC validation of exhaustive short and random long histories of the real code",
        "note": "all histories of up to 3 operations over three receivers (4-operation ones sampled), random longer ones over six with nested reports and receivers that remove themselves while being called; registrations also change while a report is delivered (a receiver removed or registered then may or may not get that report, all others get it exactly once); delivery order is not constrained."}
KNOWN = []


def run(ctx):
    ctx.mc("StatusReportMC", None if ctx.quick else "StatusReportMCdeep.cfg")
    t = ctx.driver("status", [1 if ctx.quick else 0, ctx.seed], cfg="asan", timeout=60 if ctx.quick else 300, what="status report delivery")
    ctx.validate("StatusReportTrace", t, what="status report delivery", reset="rst")

    # known finding: printed as long as the specification rejects the history
    t = ctx.driver("status", [2, 0], cfg="asan", timeout=60, what="status report delivery")
    if ctx._tlc("StatusReportTrace.tla", "StatusReportTrace.cfg", 1, env={"TRACE": t})[0] != 0:
        KNOWN.append("a receiver that deregisters itself and registers again while it is being called: the receivers after it miss that report")
