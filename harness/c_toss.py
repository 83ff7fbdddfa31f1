"""P01 - P04: the echomail tosser"""
import random
import floodgen, pktgen, tossgen

P01K = {"destinations", "copies", "copy-from", "copy-to", "copy-hdr-from", "copy-hdr-to", "packet-password",
        "stray-output", "exit-code", "not-reached", "leaked", "got-twice", "flood-copies", "flood-twice",
        "flood-local", "area-state"}
P02K = {"seenby", "path", "seenby-sorted", "control-line-length", "garbled-control-line", "destinations", "copies",
        "bad-area", "not-in-flight", "flood-copies", "flood-local", "flood-twice", "flood-bad", "still-in-flight",
        "not-reached", "leaked", "got-twice"}
P04K = {"destinations", "copies", "bad-area", "bad-addresses", "exit-code"}


def toss(ctx, n, prefix, **kw):
    return [(tossgen.gen("%s-%d-%d" % (prefix, ctx.seed, k), **kw), ctx.bins, ctx.shim) for k in range(n)]


def flood(ctx, n, prefix, **kw):
    return [(floodgen.gen("%s-%d-%d" % (prefix, ctx.seed, k), **kw), ctx.bins, ctx.shim) for k in range(n)]


def P01(ctx):
    ctx.model("MCToss", None if ctx.quick else "MCTossBig.cfg", timeout=870)
    ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(90, 900), "a"), kinds=lambda m: m["what"] in P01K)
    ctx.validate("FloodTrace", floodgen.execute, flood(ctx, ctx.n(60, 400), "a"), kinds=lambda m: m["what"] in P01K)


def P02(ctx):
    ctx.model("MCFlood", None if ctx.quick else "MCFloodBig.cfg", timeout=800)
    ctx.model("MCToss")
    k = lambda m: m["what"] in P02K
    ctx.validate("FloodTrace", floodgen.execute, flood(ctx, ctx.n(150, 1500), "b"), kinds=k)
    ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(60, 500), "b", force=("CheckPath",)), kinds=k)
    ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(30, 300), "b4", force=("CheckPath", "TossEchoMail4D")),
                 kinds=k)


def P03(ctx):
    ctx.model("MCToss", "MCTossDupe.cfg")
    k = lambda m: m["what"] not in ("seenby", "path", "seenby-sorted", "control-line-length", "packet-password",
                                    "area-state", "area-time", "area-kept", "area-links", "area-uplinks", "copy-from", "copy-hdr-from")
    ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(90, 900), "c", rich=True), kinds=k)
    rng = random.Random(ctx.seed)
    sc = []
    for j in range(ctx.n(3, 12)):
        sc += [(x, ctx.bins, ctx.shim) for x in pktgen.gen_all("%d-%d" % (ctx.seed, j), rng)]
    ctx.validate("PacketTrace", pktgen.execute, sc, chunk=4000)


def P04(ctx):
    ctx.model("MCToss")
    k = lambda m: m["what"] in P04K
    ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(60, 600), "d"), kinds=k)
    ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(15, 100), "pw", force=("-t",), ban=("-n",), pwcase=True), kinds=k)
    for o in ("CheckPath", "CheckPointOriginAddr", "KillInsecure", "KillUnknown", "KillRouted", "KillCircular", "KillDupe"):
        ctx.validate("TossTrace", tossgen.execute, toss(ctx, ctx.n(10, 80), "d" + o, force=(o,), ban=("-n", "-t")), kinds=k)
