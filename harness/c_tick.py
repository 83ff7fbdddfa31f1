"""P17, P18: file echoes"""
import sched, tickcrash, tickgen
from c_sched import fails, tried


def run(ctx, kinds, quick, thorough):
    ctx.validate("TickTrace", tickgen.execute, [(tickgen.gen("%d-%d" % (ctx.seed, k)), ctx.bins, ctx.shim)
                                                for k in range(ctx.n(quick, thorough))], kinds=kinds, chunk=100)


def crash(ctx, kinds):
    exe = sched.psched()
    ctx.validate("TickCrash", tickcrash.execute, [(tickcrash.gen("%d-%d" % (ctx.seed, k)), exe, ctx.bins, ctx.shim, ctx.n(30, 400))
                                                  for k in range(ctx.n(16, 150))], kinds=kinds, chunk=8)


def P17(ctx):
    ctx.model("MCTick", "MCTick.cfg")
    if not ctx.quick:
        ctx.model("MCTick", "MCTickBig.cfg")
    for c in ("Early", "Record", "Tic", "Passive"):
        fails(ctx, "MCTick", "MCTick%s.cfg" % c)
    run(ctx, lambda m: m["acc"], 250, 4000)
    crash(ctx, lambda m: m["what"] not in ("undue", "hurt"))


def P18(ctx):
    run(ctx, lambda m: m["ref"] or not m["acc"], 250, 4000)
    crash(ctx, lambda m: m["what"] in ("undue", "hurt", "again refused"))
