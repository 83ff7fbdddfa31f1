"""P06 - P08: netmail, routing, packing"""
import netgen, packgen, routegen


def P06(ctx):
    ctx.model("MCNet")
    ctx.validate("NetTrace", netgen.execute,
                 [(netgen.gen("n-%d-%d" % (ctx.seed, k)), ctx.bins, ctx.shim) for k in range(ctx.n(150, 1500))])


def P07(ctx):
    ctx.model("MCNet", "MCNetRoute.cfg")
    ctx.validate("RouteTrace", routegen.execute,
                 [(routegen.gen("r-%d-%d" % (ctx.seed, k)), ctx.bins, ctx.shim) for k in range(ctx.n(250, 3000))])


def P08(ctx):
    ctx.model("MCMail", None if ctx.quick else "MCMailBig.cfg", timeout=860)
    ctx.model("MCMail", "MCMailLive.cfg")
    ctx.validate("PackTrace", packgen.execute,
                 [(packgen.gen("p-%d-%d" % (ctx.seed, k)), ctx.bins, ctx.shim) for k in range(ctx.n(200, 2500))])
