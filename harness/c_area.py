"""P13 - P16: the area table, Areafix and Filefix"""
import areagen, rewrite, sched
from c_sched import fails, tried


def run(ctx, kinds, quick, thorough):
    ctx.validate("AreaFixTrace", areagen.execute,
                 [(areagen.gen("a-%s-%d-%d" % (ctx.prop, ctx.seed, k)), ctx.bins, ctx.shim)
                  for k in range(ctx.n(quick, thorough))], kinds=lambda m: m["what"] in kinds, chunk=200)


def P13(ctx):
    run(ctx, ("areas", "links", "order", "passive", "state", "keep", "same", "first", "backup", "stray"), 120, 1500)
    ctx.model("MCRewrite")
    for v in ("Move", "Ignore", "Early"):
        fails(ctx, "MCRewrite", "MCRewrite%s.cfg" % v)
    exe = sched.psched()
    tr = ctx.validate("RewriteTrace", rewrite.execute, [(s, exe, ctx.bins, ctx.shim) for s in rewrite.scenarios(ctx)])
    ctx.count("crash and fault points", tried(tr))
    tr = ctx.validate("AreaFixTrace", rewrite.race, [(s, exe, ctx.bins, ctx.shim) for s in rewrite.race_scenarios(ctx)])
    ctx.count("schedules", tried(tr))


def small(ctx, *broken):
    ctx.model("MCAreaFix", "MCAreaFix.cfg" if ctx.quick else "MCAreaFixBig.cfg")
    for v in broken:
        fails(ctx, "MCAreaFix", "MCAreaFix%s.cfg" % v)


def P14(ctx):
    small(ctx, "Any", "Level", "Count")
    run(ctx, ("areas", "links", "refusal", "shown", "addressee"), 250, 2500)


def P15(ctx):
    small(ctx)
    run(ctx, ("areas", "links", "passive", "keep", "reply", "rc"), 250, 2500)


def P16(ctx):
    small(ctx, "Silent")
    run(ctx, ("areas", "state", "request"), 250, 2500)
