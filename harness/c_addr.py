"""P23, P22: addresses and message identifiers in both worlds"""
import addrgen, sched
from c_sched import fails
from common import HarnessError


def driver(ctx):
    drv, err = sched.driver(ctx.bins, "addrdrv")
    if not drv:
        raise HarnessError("the address driver does not compile: " + err)
    return drv


def P23(ctx):
    ctx.model("MCInet", "MCInet.cfg")
    if not ctx.quick:
        ctx.model("MCInet", "MCInetBig.cfg", timeout=3000)
    for v in ("strip", "suffix", "point", "node", "net"):
        fails(ctx, "MCInet", "MCInet_%s.cfg" % v)
    exe = driver(ctx)
    ctx.validate("InetTrace", addrgen.execute, [(addrgen.gen("%d-%d" % (ctx.seed, k)), exe, ctx.bins) for k in range(ctx.n(300, 6000))], chunk=250)


def P22(ctx):
    ctx.model("MCMsgid", "MCMsgid.cfg")
    if not ctx.quick:
        ctx.model("MCMsgid", "MCMsgidBig.cfg", timeout=3000)
    for v in ("reply", "split", "plain"):
        fails(ctx, "MCMsgid", "MCMsgid_%s.cfg" % v)
    exe = driver(ctx)
    ctx.validate("MsgidTrace", addrgen.idexecute, [(addrgen.idgen("%d-%d" % (ctx.seed, k)), exe, ctx.bins) for k in range(ctx.n(300, 6000))], chunk=250)
