"""P13: the replacement of the area tables by the real programs, killed and
failing at every operation on them, and two commands at a time."""
import errno, os, random
import areagen, ftn, lockuse, sched
from box import Box
from ftn import astr
from tossgen import NOW

KEYS = ["af +", "af -F", "afpkt", "util expire", "util unresub", "toss", "toss -l", "tick", "af new"]
FAULT = {"open": [errno.ENOSPC], "write": [errno.ENOSPC, errno.EIO], "read": [errno.EIO], "rename": [errno.EACCES],
         "link": [errno.EPERM], "unlink": [errno.EACCES], "close": [errno.EIO]}


REAL = dict(FG_REALSLEEP=1)


def content(b, name):
    c = b.read(name)
    return c and c.replace(b.root.encode(), b"{r}")


def progs():
    d = lockuse.programs()
    d["util unresub"] = ("ftnafutil", ["unresubscribe"], lambda b, n: None)
    d["af new"] = ("ftnaf", ["2:5020/100", "new BRAND.NEW"], lambda b, n: None)
    return d


def prepare(bins, shim, key, seed):
    b = Box(bins, ["2:4500/1"], lockuse.CONF, shim=shim, now=NOW)
    lockuse.setup(b)
    b.write("etc/passwd", "af 2:4500/2 PASS 5 ABCD\nff 2:4500/2 PASS 5 ABCD\naf 2:5020/100 UPW 5 $ABCD\nuplink 2:5020/100 x\n")
    prog, args, prep = progs()[key][:3]
    prep(b, 1)
    f = "var/fareas." if key in ("af -F", "tick") else "var/areas."
    rng = random.Random("%s%s" % (key, seed))
    have = rng.choice([[], [1], [1, 2, 3, 4, 5], [1, 3], [2, 5], [1, 2, 3, 4]])
    for k in have:
        b.write(f + "o%02d" % k, "backup %d\n" % k)
    return b, [bins.path(prog)] + ["-c", b.path("etc/fidogate.conf")] + [a.replace("{r}", b.root) for a in args], f, have


def files(b, f, old, new):
    out = {}
    for n, ext in [("bbs", "bbs")] + [("o%d" % k, "o%02d" % k) for k in range(1, 6)]:
        c = content(b, f + ext)
        v = 99
        if c is None:
            v = 0
        elif c == old:
            v = 1
        elif c == new:
            v = 2
        elif c[:7] == b"backup ":
            v = 10 + int(c[7:])
        out[n] = v
    return out


def rc_of(ev):
    x = [e for e in ev if e["op"] == "exit" and e.get("p", 0) == 0]
    return x[-1]["ret"] if x else -999


def execute(args):
    sc, exe, bins, shim = args
    key = sc["key"]

    def once(s, norm=None):
        b, argv, f, have = prepare(bins, shim, key, sc["seed"])
        with b:
            old = content(b, f + "bbs")
            ev = sched.run(exe, b, [argv], s, env=REAL)
            new = norm or content(b, f + "bbs")
            said = key.startswith(("toss", "tick")) and "error" in b.log().lower()
            r = dict(sched=s, rc=rc_of(ev), noticed=rc_of(ev) != 0 or said, files=files(b, f, old, new), again=True, how="full")
            if norm:
                # what comes after finds its way: the same once more
                prog = progs()[key]
                if r["files"]["bbs"] == 1:
                    for d in ("bt/in", "bt/pin"):
                        b.clear(d)
                    if key.startswith("toss"):
                        # another message of the area: the first one is known by now
                        lockuse.pkt(b, "bt/in/00000002.pkt", lockuse.UP, (2, 4500, 1, 0), [lockuse.echo("LIVE.ONE", 776), lockuse.echo("NEW.1", 777)])
                    else:
                        prog[2](b, 2 if key == "tick" else 1)
                    ev2 = sched.run(exe, b, [argv], "", env=REAL)
                    r["again"] = files(b, f, old, new)["bbs"] == 2 and rc_of(ev2) == 0
            return ev, r, new, have
    ev, r, new, have = once("")
    if r["files"]["bbs"] not in (1, 2):
        raise ftn.Bad("no table left by %s" % key)
    _, r, new, have = once("", new)
    runs = [r]
    st = sched.steps(ev)
    n = 1
    for k, e in enumerate(st):
        o = e["en"][0]
        paths = (o["path"], o.get("to", ""))
        mine = any(p.startswith(("var/areas.", "var/fareas.")) and ".lock" not in p for p in paths)
        pre = ["0"] * k
        todo = []
        if mine or (k and any(p.startswith(("var/areas.", "var/fareas.")) for p in
                              (st[k - 1]["en"][0]["path"], st[k - 1]["en"][0].get("to", "")))):
            todo.append(("kill", "k0"))
        if mine:
            if o["op"] == "write":
                todo.append(("kill", "h0"))
            todo += [("fault", "f0:%d" % x) for x in FAULT.get(o["op"], [])]
        for how, x in todo:
            ev2, r, _, _ = once(",".join(pre + [x]), new)
            r["how"] = how
            r["op"] = "%s %s %s" % (x, o["op"], " ".join(paths))
            runs.append(r)
            n += 1
    return dict(key=key, backups={"o%d" % k: 10 + k if k in have else 0 for k in range(1, 6)}, runs=runs, tried=n)


def scenarios(ctx):
    return [dict(key=k, seed=s + ctx.seed) for k in KEYS for s in range(ctx.n(1, 6))]


# -- two commands at a time
def race(args):
    sc, exe, bins, shim = args
    rng = random.Random(sc["seed"])
    steps, seen, n = [], set(), 0
    fl = [] if sc["af"] else ["-F"]
    root = [""]

    def once(s):
        with areagen.make_box(sc, bins, shim) as b:
            root[0] = b.root
            f = "var/areas.bbs" if sc["af"] else "var/fareas.bbs"
            t0, f0 = areagen.parse_table(b.read(f))
            argv = [[bins.path("ftnaf"), "-c", b.path("etc/fidogate.conf")] + fl + ["--", astr(r["node"]), r["lines"][0]]
                    for r in sc["runs"]]
            ev = sched.run(exe, b, argv, s, env=REAL)
            rcs = {e["p"]: e["ret"] for e in ev if e["op"] == "exit"}
            dead = {e["p"] for e in ev if e["op"] == "crash"}
            stray = [e["op"] for e in ev if e["op"] in ("stuck", "limit")]
            try:
                t1, f1 = areagen.parse_table(b.read(f) or b"")
                if f1 != f0:
                    stray.append("first line %r" % f1)
            except ftn.Bad as e:
                t1 = []
                stray.append(str(e))
            return ev, dict(k="race", now=NOW, before=t0, after=t1, stray=stray,
                            cmds=[dict(node=r["node"], line=areagen.mkline(r["lines"][0]), killed=k in dead,
                                       rc=-1 if k in dead else rcs.get(k, -2)) for k, r in enumerate(sc["runs"])])
    vis = sched_visible
    for s, ev, r in sched.explore(once, sc["bound"], sc["limit"], rng, crash=sc["crash"], visible=vis):
        n += 1
        key = repr(r)
        if key not in seen:
            seen.add(key)
            r["sched"] = s
            steps.append(r)
    return dict(cfg=areagen.cfg_of(sc, ""), steps=steps, tried=n)


def sched_visible(o):
    return o["path"].startswith("var/") or o.get("to", "").startswith("var/") or o["op"] in ("kill", "sleep")


def race_scenarios(ctx):
    out, k = [], 0
    while len(out) < ctx.n(16, 60):
        sc = areagen.gen("race-%d-%d" % (ctx.seed, k))
        k += 1
        if not sc["table"] or sc["conf"]["fechopath"].startswith("{r}"):
            continue
        sc["conf"]["fechopath"] = ""
        rng = random.Random(k)
        runs = []
        for j in range(2):
            for _ in range(30):
                c = areagen.gen_cmd(rng, sc, False)
                l = areagen.mkline(c)
                if l["sign"] in ("+", "-", "~") or l["word"] in ("passive", "active", "pause", "resume", "sub", "unsub"):
                    break
            runs.append(dict(prog="ftnaf", now=NOW, opts=[], node=rng.choice([p["node"] for p in sc["passwd"]]), lines=[c]))
        sc["runs"] = runs
        sc.update(bound=2 if ctx.quick else 3, limit=ctx.n(40, 300), crash=len(out) % 2 == 1)
        out.append(sc)
    return out
