import re
META = {"level": "model_checking",
        "technique": "TLA+ spec of the lock-free queue (shared-memory steps), TLC model checking, and TLC trace validation of instruction-level preemptive schedules of the real code",
        "note": "the design is checked exhaustively for small capacities; every (capacity, offset, fill, call, length) pair and tens of thousands of instruction-level pre-emption schedules of the real code are validated as behaviours of the spec. Trusts x86 store ordering and the trap-flag scheduler in the driver.", "assumptions": [
    "x86-64: hardware keeps each core's stores in order, so interleaving at instruction boundaries covers the schedules of one writer and one reader; weaker memory models are not explored",
    "one writer and one reader, as documented for the queue"]}


def run(ctx):
    ctx.mc("FifoMC")
    if not ctx.quick:
        ctx.mc("FifoMC", "FifoMCdeep.cfg", timeout=800)
    t = ctx.driver("fifo", [1 if ctx.quick else 0, ctx.seed], timeout=800,
                   what="queue call terminates without fault")
    m = re.search(r"scenarios (\d+) distinct (\d+) preempted (\d+)", open(t + ".err").read())
    if m:
        ctx.coverage.update(scenarios_run=int(m.group(1)), distinct_histories=int(m.group(2)),
                            preemption_schedules=int(m.group(3)))
    ctx.validate("FifoTrace", t, reset="init", what="queue history")
