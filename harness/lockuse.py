"""P10, second part: which locks real programs hold while they work
(LockUse.tla): every program alone, in front of locks of others, and two
programs at a time in many schedules."""
import os, random, zlib
import ftn, sched
from box import Box
from common import HarnessError

DEAD = "3999999\n"
THINGS = ["areas.bbs", "fareas.bbs", "history", "ftntoss", "ftnroute", "ftnpack", "ftntick", "ftnaf", "ftnafpkt", "ftn2rfc"]
LOCKS = {t: "var/%s.lock" % t if t.endswith(".bbs") else "lock/" + t for t in THINGS}
THING = {v: k for k, v in LOCKS.items()}
HIST = ("var/history", "var/tic_hist", "var/dbc")
INPUT = {"ftntoss": "bt/in/", "ftnroute": "spool/toss/toss/", "ftnpack": "spool/toss/route/", "ftntick": "bt/in/",
         "ftnafpkt": "bt/pin/", "ftn2rfc": "bt/pin/"}
CONF = """DupeCheck
LOCK_HISTORY history
AutoCreateFechoPath {r}/area
PassthroughtBoxesDir {r}/boxes
KillTickDupe
AreaFixNoTrafficTimeout 10
AreaFixRequestTimeout 10
AreasBBSPrefix {r}/area
"""
UP, DOWN, D2 = (2, 5020, 100, 0), (2, 4500, 2, 0), (2, 4500, 3, 0)
OLD = 1700000000
ARCH = """#!/bin/sh
cat "$2" >> "$1"
"""


def setup(b):
    b.write("etc/passwd", "af 2:4500/2 PASS 5 ABCD\nff 2:4500/2 PASS 5 ABCD\naf 2:5020/100 UPW 5 ABCD\nuplink 2:5020/100 x\n"
                          "packet 2:4500/2 x\n")
    b.write("etc/uplinks", "af * 2:5020/100 AreaFix UPW\nff * 2:5020/100 FileFix UPW\n")
    b.write("etc/areas", "LOCAL.NEWS local.news -z 2\n")
    b.write("etc/routing", "echomail\nsend normal *\nnetmail\nsend normal *\ntick\nsend normal *\n")
    os.chmod(b.write("arch", ARCH), 0o755)
    b.write("etc/packing", 'arc zip "%s %%s %%s"\nechomail\npack zip *\nnetmail\npack zip *\n' % b.path("arch"))
    b.write("var/areas.bbs", "H\n#- OLD.ONE -z 2 -t %d -s S 2:5020/100 2:4500/3\n#- LIVE.ONE -z 2 -t 1900000000 -s S 2:5020/100 2:4500/3\n"
                             "#- WAIT.ONE -z 2 -t %d -s W 2:5020/100 2:4500/3\n" % (OLD, OLD))
    b.write("var/fareas.bbs", "H\n{r}/area FILES -z 2 -t %d -s S 2:5020/100 2:4500/3\n" % OLD)


def pkt(b, rel, frm, to, msgs, pw=""):
    b.write(rel, ftn.packet(frm, to, msgs, pw))


def echo(area, n):
    return dict(frm=UP, to=(2, 4500, 1, 0), text=("AREA:%s\r\1MSGID: 2:5020/100 %08x\rhello\r--- x\r * Origin: x (2:5020/100)\rSEEN-BY: 5020/100\r\1PATH: 5020/100\r"
                                                   % (area, n)).encode())


def tic(b, name, n):
    data = b"file %d\n" % n
    b.write("bt/in/" + name, data)
    b.write("bt/in/t%d.tic" % n, "Area FILES\r\nOrigin 2:5020/100\r\nFrom 2:5020/100\r\nFile %s\r\nDesc d\r\nCRC %08X\r\nCreated by x\r\n"
            "Size %d\r\nDate %d\r\nPath 2:5020/100 1 x\r\nSeenby 2:5020/100\r\nPw \r\n" % (name, zlib.crc32(data), len(data), OLD))


def af_mail():
    return b"From: f2@f2.n4500.z2.fidonet.by\nTo: areafix@f1.n4500.z2.fidonet.by\nSubject: PASS\nX-FTN-From: x @ 2:4500/2\n\n+LIVE.ONE\n"


def af_pkt(b, n):
    pkt(b, "bt/pin/%08x.pkt" % n, DOWN, (2, 4500, 1, 0), [dict(frm=DOWN, to=(2, 4500, 1, 0), subj="PASS", to_name="AreaFix", from_name="x",
                                                                    text=b"\1INTL 2:4500/1 2:4500/2\r+LIVE.ONE\r%HELP\r")])


# program -> (arguments, prepare(b, n), locks needed, things surely worked on, program lock or "")
def programs():
    def toss(b, n):
        pkt(b, "bt/in/%08x.pkt" % n, UP, (2, 4500, 1, 0), [echo("LIVE.ONE", n), echo("NEW.%d" % n, n + 100)])
    def route(b, n):
        pkt(b, "spool/toss/toss/%08x.pkt" % (0xe1000000 + n), (2, 4500, 1, 0), D2, [echo("LIVE.ONE", n)])
        os.rename(b.path("spool/toss/toss/%08x.pkt" % (0xe1000000 + n)), b.path("spool/toss/toss/e%07x.pkt" % n))
    def pack(b, n):
        pkt(b, "spool/toss/route/qen%05x.pkt" % n, (2, 4500, 1, 0), D2, [echo("LIVE.ONE", n)])
    def hist(kind):
        def f(b, n):
            b.write("var/" + kind, "a\t%d\nb\t1\n" % 1900000000 if kind != "dbc" else "a\tb\t1900000000\nc\td\t1\n")
            b.write("var/%s.dir" % kind, "")
            b.write("var/%s.pag" % kind, "")
        return f
    def rfc(b, n):
        pkt(b, "bt/pin/%08x.pkt" % n, UP, (2, 4500, 1, 0), [echo("LOCAL.NEWS", n)])
    no = lambda b, n: None
    A, F, H = "areas.bbs", "fareas.bbs", "history"
    d = {
        "toss": ("ftntoss", ["-I", "{r}/bt/in"], toss, [A, H], [A, H], ""),
        "toss -l": ("ftntoss", ["-l", "-I", "{r}/bt/in"], toss, [A, H, "ftntoss"], [A, H, "ftntoss"], "ftntoss"),
        "toss -l file": ("ftntoss", ["-l", "{r}/bt/in/00000001.pkt"], toss, [A, H, "ftntoss"], [A, H, "ftntoss"], "ftntoss"),
        "toss -w": ("ftntoss", ["-w", "3", "-I", "{r}/bt/in"], toss, [A, H], [A, H], ""),
        "route -l": ("ftnroute", ["-l"], route, ["ftnroute"], ["ftnroute"], "ftnroute"),
        "route -l file": ("ftnroute", ["-l", "{r}/spool/toss/toss/e0000001.pkt"], route, ["ftnroute"], ["ftnroute"], "ftnroute"),
        "route -l -p": ("ftnroute", ["-l", "-p"], no, ["ftnroute"], [], "ftnroute"),
        "pack -l": ("ftnpack", ["-l"], pack, ["ftnpack"], ["ftnpack"], "ftnpack"),
        "pack -l file": ("ftnpack", ["-l", "{r}/spool/toss/route/qen00001.pkt"], pack, ["ftnpack"], ["ftnpack"], "ftnpack"),
        "expire": ("ftnexpire", [], hist("history"), [H], [H], ""),
        "expire -d": ("ftnexpire", ["-d"], hist("dbc"), [H], [H], ""),
        "expire -t": ("ftnexpire", ["-t"], hist("tic_hist"), [H], [H], ""),
        "tick": ("ftntick", ["-I", "{r}/bt/in"], lambda b, n: tic(b, "f%d.txt" % n, n), [F, H, "ftntick"], [F, H, "ftntick"], "ftntick"),
        "tick -w": ("ftntick", ["-w", "2", "-I", "{r}/bt/in"], lambda b, n: tic(b, "f%d.txt" % n, n), [F, H, "ftntick"], [F, H, "ftntick"], "ftntick"),
        "af +": ("ftnaf", ["2:4500/2", "+LIVE.ONE"], no, [A], [A], ""),
        "af -w": ("ftnaf", ["-w", "2", "2:4500/2", "+LIVE.ONE"], no, [A], [A], ""),
        "af -F": ("ftnaf", ["-F", "2:4500/2", "+FILES"], no, [F], [F], ""),
        "af list": ("ftnaf", ["2:4500/2", "list"], no, [A], [], ""),
        "af bad": ("ftnaf", ["2:4500/2", "~NO.SUCH"], no, [A], [], ""),
        "afpkt": ("ftnafpkt", ["-I", "{r}/bt/pin"], af_pkt, [A], [A], ""),
        "afpkt -l": ("ftnafpkt", ["-l", "-I", "{r}/bt/pin"], af_pkt, [A, "ftnafpkt"], [A, "ftnafpkt"], "ftnafpkt"),
        "afpkt -l file": ("ftnafpkt", ["-l", "{r}/bt/pin/00000001.pkt"], af_pkt, [A, "ftnafpkt"], [A, "ftnafpkt"], "ftnafpkt"),
        "util expire": ("ftnafutil", ["expire"], no, [A], [A], ""),
        "util delete": ("ftnafutil", ["delete", "OLD.ONE"], no, [A], [], ""),
        "util -w": ("ftnafutil", ["-w", "3", "subscribe", "2:4500/2", "LIVE.ONE"], no, [A], [], ""),
        "util bad": ("ftnafutil", ["nonsense"], no, [A], [], ""),
        "rfc -l": ("ftn2rfc", ["-l", "-I", "{r}/bt/pin"], rfc, ["ftn2rfc"], ["ftn2rfc"], "ftn2rfc"),
    }
    return d


def events(ev, progs, owner):
    """the operations of a run, as events of LockUse"""
    out = []
    own = dict(owner)
    for e in ev:
        if "ret" not in e or e["op"] in ("exit",) or e["ret"] < 0:
            continue
        p, op, path, to = e["p"] + 1, e["op"], e["path"], e.get("to", "")
        mutate = op in ("unlink", "rename", "link", "truncate", "mkdir", "rmdir", "write") or (op == "open" and e["arg"] & 0o3103)
        if op == "link" and to in THING or op == "open" and path in THING and e["arg"] & os.O_CREAT:
            x = THING[to if op == "link" else path]
            own[x] = "taken"
            out.append(dict(p=p, ev="take", x=x))
        elif op in ("unlink", "rename") and path in THING:
            x = THING[path]
            if own[x] == "dead":
                own[x] = "none"         # whether that is right is for LockTrace
                continue
            out.append(dict(p=p, ev="drop", x=x))
        elif path in THING or to in THING or ".L" in path:
            continue
        else:
            for f in (path, to):
                if f.startswith(HIST) and op in ("open", "unlink", "rename", "link"):
                    out.append(dict(p=p, ev="use", x="history"))
                for t in ("areas", "fareas"):
                    if f.startswith("var/%s." % t) and op != "write":
                        if mutate:
                            out.append(dict(p=p, ev="write", x=t + ".bbs"))
                        elif op == "open":
                            out.append(dict(p=p, ev="read", x=t + ".bbs"))
            pl = progs[p - 1][5]
            # what it takes away, nobody else may be working on
            if pl and op in ("unlink", "rename") and path.startswith(INPUT[pl]):
                out.append(dict(p=p, ev="use", x=pl))
    # the same again and again says nothing new
    res = []
    last = {}
    for e in out:
        if e["ev"] in ("use", "read") and last.get(e["p"]) == e:
            continue
        last[e["p"]] = e
        if e["ev"] in ("take", "drop"):
            last = {}
        res.append(e)
    return res


def run1(args):
    sc, exe, bins = args
    table = programs()
    progs = [table[x] for x in sc["progs"]]
    rng = random.Random(sc["seed"])
    runs, seen, n = [], set(), 0

    def once(s):
        with Box(bins, conf=CONF) as b:
            setup(b)
            for k, (name, av, prep, needs, does, pl) in enumerate(progs):
                prep(b, k + 1)
            for x, o in sc["owner"].items():
                if o != "none":
                    b.write(LOCKS[x], DEAD if o == "dead" else "%d\n" % os.getpid())
            cmds = [b.argv(p[0], *[a.replace("{r}", b.root) for a in p[1]]) for p in progs]
            ev = sched.run(exe, b, cmds, s, max=sc["max"])
            rc = [-1] * len(progs)
            for e in ev:
                if e["op"] == "exit":
                    rc[e["p"]] = e["ret"] if e["ret"] >= 0 else 1000 - e["ret"]
            if any(e["op"] in ("limit", "stuck") for e in ev):
                for k in range(len(rc)):
                    if not any(e["op"] == "exit" and e["p"] == k and e["ret"] >= 0 for e in ev):
                        rc[k] = -1
            files = [x for x in THINGS if b.read(LOCKS[x]) is not None]
            stray = [f for d in ("lock", "var") for f in b.ls(d) if ".L" in f]
            return ev, dict(sched=s, ev=events(ev, progs, sc["owner"]), rc=rc, owner=sc["owner"], files=files + stray)
    vis = lambda o: o["path"] in THING or o.get("to", "") in THING or "areas." in o["path"] or o["op"] == "sleep"
    for s, ev, r in sched.explore(once, sc["bound"], sc["limit"], rng, visible=vis):
        n += 1
        key = repr((r["ev"], r["rc"], r["files"]))
        if key not in seen:
            seen.add(key)
            runs.append(r)
    return dict(progs=sc["progs"], needs=[p[3] for p in progs], does=[p[4] if len(progs) == 1 else [] for p in progs],
                runs=runs, tried=n)


def scenarios(ctx, only=None, pairs=None):
    table = programs()
    none = {x: "none" for x in THINGS}
    scs = []
    def add(progs, owner, **kw):
        scs.append(dict(dict(progs=progs, owner=dict(none, **owner), bound=0, limit=1, max=6000, seed=ctx.seed * 1000 + len(scs)), **kw))
    for name, p in table.items():
        if only and name not in only:
            continue
        add([name], {})
        for x in p[3]:
            add([name], {x: "stranger"})
            add([name], {x: "dead"})
        if len(p[3]) > 1:
            add([name], {x: "stranger" for x in p[3]})
            add([name], {x: "dead" for x in p[3]})
    pairs = pairs or [("toss -l", "toss -l"), ("toss", "toss"), ("toss", "af +"), ("toss -w", "expire"), ("af +", "af +"), ("af +", "afpkt -l"),
             ("afpkt -l", "afpkt -l"), ("af -w", "util expire"), ("tick", "af -F"), ("tick", "tick"), ("route -l", "route -l"),
             ("pack -l", "pack -l"), ("expire", "expire -t"), ("rfc -l", "rfc -l"), ("tick", "expire -t"), ("util delete", "util expire"),
             ("util -w", "af +")]
    for a, c in pairs:
        add([a, c], {}, bound=1 if ctx.quick else 2, limit=ctx.n(25, 300), max=9000)
    return scs
