"""P19, P20: the gateway from the Internet"""
import gategen
from c_sched import fails


def model(ctx, variants):
    ctx.model("MCGate", "MCGate.cfg")
    ctx.model("MCGate", "MCGateLive.cfg")
    if not ctx.quick:
        ctx.model("MCGate", "MCGateBig.cfg", timeout=3000)
    for v in variants:
        fails(ctx, "MCGate", "MCGate_%s.cfg" % v)


def runs(ctx, n, kinds, focus):
    ctx.validate("GateTrace", gategen.execute,
                 [(gategen.gen("%s-%d-%d" % (ctx.prop, ctx.seed, k), focus), ctx.bins) for k in range(n)], chunk=200, kinds=kinds)


# a rejected run is about the parts when senders, areas and recipients are the
# right ones and something was or should have been cut; a text that is not the
# one sent concerns both
def parts(m):
    return m["kind"] == "parts" or bool({"text", "subject"} & set(m["diff"]["fields"]))


def P19(ctx):
    model(ctx, ("xpost", "limit", "once"))
    runs(ctx, ctx.n(300, 6000), lambda m: m["kind"] != "parts", "")


def P20(ctx):
    model(ctx, ("count", "reset"))
    runs(ctx, ctx.n(300, 6000), parts, "parts")
