"""P24: expiry of the histories, with kills and faults"""
import os, random
import lockuse, sched
from box import Box
from c_sched import fails, tried
from rewrite import FAULT, REAL, rc_of
from tossgen import NOW

DAY = 86400
BASE = {"main": "var/history", "tic": "var/tic_hist", "dbc": "var/dbc"}
OPT = {"main": [], "tic": ["-t"], "dbc": ["-d"]}
CONF = {"main": "MaxHistory", "tic": "MaxTicHistory", "dbc": "MaxHistoryDBC"}


def key(rng, kind, k):
    r = rng.random()
    if kind == "dbc":
        return "%08x%s" % (rng.getrandbits(32), rng.choice(["", "", "-x%d" % k]))
    if kind == "tic":
        return "AREA.%d 2:5020/%d.0 file%d.zip %x" % (k % 3, k % 5, k, rng.getrandbits(32))
    return rng.choice(["2:5020/%d %08x" % (k, rng.getrandbits(32)), "<%d.%x@host.org>" % (k, rng.getrandbits(24)),
                       "A %d 19 Nov 26  12:00:00 %08x" % (k, rng.getrandbits(32)), "k%d" % k + "x" * rng.choice([1, 100, 200])])


def gen(seed, small=False):
    rng = random.Random("hist-%s" % seed)
    kind = rng.choice(["main", "main", "tic", "dbc"])
    conf = {}
    for k, c in CONF.items():
        if rng.random() < 0.6:
            conf[c] = rng.choice(["14", "1", "0.5", "30", "0", "-3", "7", "2.25"])
    steps, keys, now = [], [], NOW
    n = 0
    for r in range(1 if small else rng.choice([2, 3, 5])):
        m = rng.choice([None, None, "14", "1", "0.5", "0", "-1", "20000", "3.5", "7"])
        if small and m == "20000":
            m = "7"
        days = m or conf.get(CONF[kind]) or conf.get("MaxHistory") or "14"
        cut = max(0, now - int(86400.0 * max(0.0, float(days))))
        ents = []
        for _ in range(rng.choice([3, 6, 9]) if small else rng.choice([0, 1, 5, 20, 60])):
            n += 1
            if keys and rng.random() < 0.08 and kind != "dbc":
                k = rng.choice(keys)
            else:
                k = key(rng, kind, n)
                while k.lower() in [x.lower() for x in keys]:
                    k = key(rng, kind, n)
                keys.append(k)
            t = rng.choice([cut, cut - 1, cut + 1, now, now, now - DAY, cut + DAY, cut - DAY, 1, now + DAY, rng.randrange(1, now),
                            rng.randrange(max(1, cut - 9), cut + 9)])
            ents.append(dict(key=k, val="v%d@x" % n if kind == "dbc" else "", time=max(1, t), ok=True))
        if ents or not small:
            steps.append(dict(k="write", ents=ents, crash=(not small) and rng.random() < 0.15))
        if rng.random() < 0.2:
            steps.append(dict(k="junk", text="".join(rng.choice(["nonsense\n", "\n", "lonely\t\n", "\t\t\n"]) for _ in range(rng.choice([1, 2])))))
        steps.append(dict(k="expire", m=m, cut=cut, now=now))
        now += rng.choice([0, 1, DAY, 3 * DAY, 7 * DAY, 13 * DAY])
    return dict(kind=kind, conf=conf, steps=steps, keys=keys or ["_"], seed=seed)


def text(b, kind):
    out = []
    for l in (b.read(BASE[kind]) or b"").decode("latin-1").split("\n")[:-1]:
        f = [x for x in l.split("\t") if x]
        n = 3 if kind == "dbc" else 2
        if len(f) >= n:
            out.append(dict(key=f[0], val=f[1] if n == 3 else "", time=int(f[n - 1]), ok=True))
        else:
            out.append(dict(key=l, val="", time=0, ok=False))
    return out


def drive(b, drv, kind, cmds, crash=False):
    import subprocess
    r = subprocess.run([drv, kind], input="".join(c + "\n" for c in cmds + (["crash"] if crash else [])).encode("latin-1"),
                       env=b.env(FGDRV_CONF=b.path("etc/fidogate.conf")), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    return r.stdout.decode("latin-1").split("\n")[:-1]


def lookup(b, drv, sc):
    out = drive(b, drv, sc["kind"], ["t " + k for k in sc["keys"]])
    if len(out) != len(sc["keys"]):
        return ["?"] * len(sc["keys"])
    return [o[2:] if o.startswith("1 ") else "1" if o == "1" else "" for o in out]


def write(b, drv, sc, st):
    drive(b, drv, sc["kind"], ["w %d %s%s" % (e["time"], e["key"], "\t" + e["val"] if sc["kind"] == "dbc" else "") for e in st["ents"]],
          st["crash"])


def box_of(bins, shim, sc):
    return Box(bins, ["2:4500/1"], "".join("%s %s\n" % x for x in sc["conf"].items()), shim=shim, now=NOW)


def execute(args):
    sc, exe, drv, bins, shim = args
    kind = sc["kind"]
    base = BASE[kind]
    steps = []
    tried_ = 0

    def files(b):
        return [x for x in b.ls("var") if x.startswith(base[4:] + ".") and x not in (base[4:] + ".dir", base[4:] + ".pag")] + b.ls("lock")
    with box_of(bins, shim, sc) as b:
        for st in sc["steps"]:
            s = dict(k=st["k"])
            if st["k"] == "write":
                write(b, drv, sc, st)
                s.update(ents=st["ents"], crash=st["crash"])
            elif st["k"] == "junk":
                with open(b.path(base), "a") as f:
                    f.write(st["text"])
            elif not os.path.exists(b.path(base)):
                continue
            else:
                b.now = st["now"]
                opts = OPT[kind] + (["-m", st["m"]] if st["m"] else [])
                last = st is sc["steps"][-1]
                if exe and last:
                    argv = [bins.path("ftnexpire"), "-c", b.path("etc/fidogate.conf")] + opts
                    save = {x: b.read("var/" + x) for x in b.ls("var") if x.startswith(base[4:])}

                    def reset():
                        for x in b.ls("var") + []:
                            if x.startswith(base[4:]):
                                os.unlink(b.path("var/" + x))
                        for x, c in save.items():
                            b.write("var/" + x, c)
                        b.clear("lock")
                    ev = sched.run(exe, b, [argv], "", env=REAL)
                    after = text(b, kind), lookup(b, drv, sc)
                    pts = sched.steps(ev)
                    for k, e in enumerate(pts):
                        o = e["en"][0]
                        mine = o["path"].startswith(base) or o.get("to", "").startswith(base)
                        prev = k and pts[k - 1]["en"][0]["path"].startswith(base)
                        todo = []
                        if mine or prev:
                            todo.append(("kill", "k0"))
                        if mine and o["op"] == "write":
                            todo.append(("kill", "h0"))
                        if mine:
                            todo += [("fault", "f0:%d" % x) for x in FAULT.get(o["op"], [])]
                        for how, x in todo:
                            reset()
                            ev2 = sched.run(exe, b, [argv], ",".join(["0"] * k + [x]), env=REAL)
                            b.clear("lock")
                            r = dict(k=how, op="%s %s %s" % (x, o["op"], o["path"]), rc=rc_of(ev2), txt=text(b, kind), cut=st["cut"])
                            r["found"] = lookup(b, drv, sc)
                            ev3 = sched.run(exe, b, [argv], "", env=REAL)
                            r["again"] = rc_of(ev3) == 0 and (text(b, kind), lookup(b, drv, sc)) == after and not files(b)
                            steps.append(r)
                            tried_ += 1
                    reset()
                rc, so, se = b.run("ftnexpire", *opts)
                s.update(rc=rc, cut=st["cut"], stray=files(b))
            s.update(txt=text(b, kind), found=lookup(b, drv, sc))
            steps.append(s)
    return dict(keys=sc["keys"], steps=steps or [dict(k="junk", txt=[], found=[""] * len(sc["keys"]))], tried=tried_)


def race(args):
    """a tosser and an expiry at the same time: one of the two orders"""
    sc, exe, drv, bins, shim = args
    rng = random.Random(sc["seed"])

    def make(old):
        b = Box(bins, conf=lockuse.CONF, shim=shim, now=NOW)
        lockuse.setup(b)
        lockuse.pkt(b, "bt/in/00000001.pkt", lockuse.UP, (2, 4500, 1, 0), [lockuse.echo("LIVE.ONE", n) for n in sc["msgs"]])
        if old:
            write(b, drv, dict(kind="main"), dict(ents=old, crash=False))
        return b
    with make([]) as b:
        b.run("ftntoss", "-I", b.path("bt/in"))
        ents = text(b, "main")
    old, steps, seen, tried_ = [], [], set(), 0
    for e, t in zip(ents, sc["when"]):
        if t:
            old.append(dict(e, time=t))
    for k in range(sc["more"]):
        old.append(dict(key="k%d" % k, val="", time=rng.choice([sc["cut"] - 100, sc["cut"] + 100, NOW]), ok=True))
    rng.shuffle(old)
    keys = [e["key"] for e in ents] + ["k%d" % k for k in range(sc["more"])]

    def once(s):
        with make(old) as b:
            cmds = [b.argv("ftntoss", "-w", "3", "-I", b.path("bt/in")), b.argv("ftnexpire", "-m", sc["m"])]
            ev = sched.run(exe, b, cmds[::sc["dir"]], s, max=9000, env=REAL)
            rc = [-1, -1]
            for e in ev:
                if e["op"] == "exit":
                    rc[e["p"]] = e["ret"]
            return ev, dict(k="race", rc=rc[::sc["dir"]], ents=ents, cut=sc["cut"],
                            txt=[dict(e, time=NOW) if NOW <= e["time"] < NOW + 60 else e for e in text(b, "main")],
                            found=lookup(b, drv, dict(kind="main", keys=keys)),
                            stray=[x for x in b.ls("var") if x.startswith("history.n")] + b.ls("lock"))
    for s, ev, r in sched.explore(once, sc["bound"], sc["limit"], rng,
                                  visible=lambda o: o["path"].startswith(("var/history", "lock/history")) or o["op"] == "sleep"):
        tried_ += 1
        key = repr(r)
        if key not in seen:
            seen.add(key)
            r["sched"] = s
            steps.append(r)
    return dict(keys=keys, steps=[dict(k="junk", txt=[], found=[""] * len(keys)), dict(k="write", ents=old, crash=False, txt=old,
                found=["1" if any(e["key"] == k for e in old) else "" for k in keys])] + steps, tried=tried_)


def races(ctx):
    for k in range(ctx.n(6, 30)):
        rng = random.Random("hr-%d-%d" % (ctx.seed, k))
        m = rng.choice(["7", "1", "14"])
        cut = NOW - 86400 * int(m)
        yield dict(seed=k, m=m, cut=cut, msgs=list(range(1, 1 + rng.choice([1, 2, 4]))), more=rng.choice([1, 2, 5]), dir=1 if k % 2 else -1,
                   when=[rng.choice([0, cut - 100, cut + 100, NOW - 9, cut - 9999]) for _ in range(4)], bound=2, limit=ctx.n(40, 250))


def P24(ctx):
    ctx.model("MCHist", "MCHist.cfg" if ctx.quick else "MCHistBig.cfg")
    fails(ctx, "MCHist", "MCHistOld.cfg")
    exe = sched.psched()
    drv, err = sched.driver(ctx.bins, "hidrv")
    if drv is None:
        raise RuntimeError(err)
    ctx.validate("HistTrace", execute, [(gen("%d-%d" % (ctx.seed, k)), None, drv, ctx.bins, ctx.shim) for k in range(ctx.n(150, 2500))])
    tr = ctx.validate("HistTrace", execute, [(gen("c-%d-%d" % (ctx.seed, k), True), exe, drv, ctx.bins, ctx.shim)
                                             for k in range(ctx.n(8, 60))])
    tr2 = ctx.validate("HistTrace", race, [(s, exe, drv, ctx.bins, ctx.shim) for s in races(ctx)])
    tr3 = ctx.validate("LockUseTrace", lockuse.run1, [(s, exe, ctx.bins) for s in lockuse.scenarios(
        ctx, ["expire", "expire -d", "expire -t"], [("toss -w", "expire"), ("expire", "expire -t"), ("tick", "expire -t")])], chunk=6)
    ctx.count("crash and fault points", tried(tr))
    ctx.count("schedules", tried(tr2) + tried(tr3))
