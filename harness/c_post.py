"""P21: the gateway from Fidonet"""
import postgen
from c_sched import fails

VARIANTS = ("carry", "worn", "stray", "bounce")


def P21(ctx):
    ctx.model("MCPost", "MCPost.cfg")
    if not ctx.quick:
        ctx.model("MCPost", "MCPostBig.cfg", timeout=3000)
    for v in VARIANTS:
        fails(ctx, "MCPost", "MCPost_%s.cfg" % v)
    ctx.validate("PostTrace", postgen.execute,
                 [(postgen.gen("%s-%d-%d" % (ctx.prop, ctx.seed, k)), ctx.bins) for k in range(ctx.n(300, 6000))], chunk=100)
