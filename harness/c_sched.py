"""P10 (locks), P11 (sequencers), P12 (flow files): the real code under chosen
schedules, crashes and faults, against Lock.tla, Seq.tla and Flo.tla."""
import os, random
import lockuse, sched, tlc
from box import Box
from common import HarnessError

DEAD = "3999999\n"


def fails(ctx, module, cfg):
    """the model must show the weakness of the algorithm as it was"""
    r = tlc.run(module, cfg, check=False)
    if not r.violated:
        raise HarnessError("%s: the weak variant is not found out" % cfg)
    ctx.cover.setdefault("models", {})[cfg] = dict(states=r.states, transitions=r.generated, violated=True)


def visible(prefix):
    return lambda o: o["path"].startswith(prefix) or o.get("to", "").startswith(prefix) or o["op"] in ("kill", "sleep")


def marks(ev, base=0):
    out = []
    for e in ev:
        if e["op"] == "mark":
            w = e["path"].split()
            out.append([e["p"] + 1 + base] + w)
        elif e["op"] == "crash" or (e["op"] == "exit" and e["ret"] < 0):
            if not out or out[-1] != [e["p"] + 1 + base, "dead"]:
                out.append([e["p"] + 1 + base, "dead"])
    return out


# -- locks

def lock_init(b, kind, own):
    if kind == "stale":
        b.write("lock/L", DEAD)
    elif kind == "live":
        b.write("lock/L", "%d\n" % own)
    elif kind == "junk":
        b.write("lock/L", "")


def lock_run(args):
    sc, exe, drv = args
    rng = random.Random(sc["seed"])
    runs, seen = [], set()
    n = [0]

    def once(s):
        with Box(None) as b:
            env = {"FGDRV_CONF": b.path("etc/fidogate.conf"), "FGDRV_POINT": b.path("var/x")}
            lock_init(b, sc["init"], os.getpid())
            was = b.read("lock/L")
            ev = sched.run(exe, b, [[drv, "lock", "L", str(w), str(c)] for w, c in sc["procs"]], s, env=env)
            left = b.ls("lock")
            same = b.read("lock/L") == was
            ev2 = sched.run(exe, b, [[drv, "lock", "L", "0", "1"]], "", env=env)
            m = marks(ev) + marks(ev2, 3)
            stuck = [e.get("p", -1) for e in ev + ev2 if e["op"] in ("stuck", "limit")] if not sc["forever"] else []
            bad = [x for x in m if x[1] not in ("try", "have", "refused", "giveup", "free", "dead")]
            return ev, dict(sched=s, ev=[dict(p=x[0], ev=x[1]) for x in m], left=left, same=same, stuck=stuck)
    for s, ev, r in sched.explore(once, sc["bound"], sc["limit"], rng, crash=sc["crash"], visible=visible("lock/")):
        n[0] += 1
        key = repr((r["ev"], r["left"], r["same"], r["stuck"]))
        if key not in seen:
            seen.add(key)
            runs.append(r)
    return dict(init=sc["init"], runs=runs, tried=n[0])


def P10(ctx):
    q = ctx.quick
    ctx.model("MCLock")
    ctx.model("MCLock", "MCLockLive.cfg")
    if not q:
        ctx.model("MCLock", "MCLockBig.cfg", timeout=600)
    fails(ctx, "MCLock", "MCLockOld.cfg")
    exe = sched.psched()
    drv, err = sched.driver(ctx.bins)
    if not drv:
        ctx.notes.append("the lock driver does not compile: " + err)
    scs = []
    if drv:
        base = []
        for init in ("none", "stale"):
            for procs in ([[0, 1], [0, 1]], [[0, 2], [0, 1]], [[0, 1], [0, 1], [0, 1]], [[2, 1], [0, 1]], [[1, 1], [0, 2]],
                          [[0, 2], [0, 2], [3, 1]]):
                for crash in (False, True):
                    base.append((init, procs, crash))
        base += [(i, p, False) for i in ("live", "junk") for p in ([[0, 2], [0, 1]], [[2, 1], [0, 1], [0, 1]])]
        for init, procs, crash in base:
            for k in range(1 if q else 4):
                scs.append(dict(init=init, procs=procs, crash=crash, forever=False,
                                bound=(3 if q else 4) if len(procs) == 2 else (2 if q else 3),
                                limit=ctx.n(250, 1500), seed=ctx.seed * 1000 + len(scs)))
    tr = ctx.validate("LockTrace", lock_run, [(s, exe, drv) for s in scs])
    ctx.model("MCLockUse")
    for v in ("Early", "Loose", "Break"):
        fails(ctx, "MCLockUse", "MCLockUse%s.cfg" % v)
    tr2 = ctx.validate("LockUseTrace", lockuse.run1, [(s, exe, ctx.bins) for s in lockuse.scenarios(ctx)], chunk=6)
    ctx.count("schedules", tried(tr) + tried(tr2))


def tried(tr):
    return sum(x["tried"] for x in tr if x) if tr else 0


# -- sequencers

def seq_run(args):
    sc, exe, drv = args
    rng = random.Random(sc["seed"])
    runs, seen, n = [], set(), 0

    def once(s):
        with Box(None) as b:
            env = {"FGDRV_CONF": b.path("etc/fidogate.conf")}
            f = b.path("var/seq/x")
            if sc["init"] is not None:
                b.write("var/seq/x", sc["init"])
            ev = sched.run(exe, b, [[drv, "seq", f, str(c)] for c in sc["procs"]], s, env=env)
            ev2 = sched.run(exe, b, [[drv, "seq", f, "1"]], "", env=env)
            out = []
            for m in marks(ev) + marks(ev2, 3):
                if m[1] == "draw":
                    out.append(dict(p=m[0], ev="draw", n=0))
                elif m[1] == "drew":
                    out.append(dict(p=m[0], ev="drew" if int(m[2]) > 0 else "failed", n=int(m[2])))
                else:
                    out.append(dict(p=m[0], ev=m[1], n=0))
            try:
                fin = int(b.read("var/seq/x"))
            except (ValueError, TypeError):
                fin = -2
            return ev, dict(sched=s, ev=out, final=fin, fault=any(e.get("fault") for e in ev))
    it = sched.explore(once, sc["bound"], sc["limit"], rng, crash=sc["crash"], visible=visible("var/seq"))
    def more():
        yield from it
        if sc["fault"]:
            ev, r = once("")
            st = sched.steps(ev)
            for k, e in enumerate(st):
                o = [x for x in e["en"] if x["p"] == e["p"]][0]
                if o["op"] in ("write", "lock", "open"):
                    for err in (28, 5):
                        s = ",".join([str(x["p"]) for x in st[:k]] + ["f%d:%d" % (e["p"], err)])
                        yield (s,) + once(s)
    for s, ev, r in more():
        n += 1
        key = repr((r["ev"], r["final"]))
        if key not in seen:
            seen.add(key)
            runs.append(r)
    return dict(init=int((sc["init"] or "0").strip() or 0), runs=runs, tried=n)


def P11(ctx):
    q = ctx.quick
    ctx.model("MCSeq")
    ctx.model("MCSeq", "MCSeqFile.cfg")
    fails(ctx, "MCSeq", "MCSeqOld.cfg")
    fails(ctx, "MCSeq", "MCSeqFull.cfg")
    exe = sched.psched()
    drv, err = sched.driver(ctx.bins)
    if not drv:
        ctx.notes.append("the sequencer driver does not compile: " + err)
        return
    scs = []
    for init in (None, "", "7\n", "9\n", "99999\n", "41"):
        for procs in ([1, 1], [2, 1], [3, 2], [1, 1, 1], [2, 2, 1]):
            for crash in (False, True):
                scs.append(dict(init=init, procs=procs, crash=crash, fault=not crash, bound=3 if len(procs) == 2 or not q else 2,
                                limit=ctx.n(60, 1500), seed=ctx.seed * 1000 + len(scs)))
    tr = ctx.validate("SeqTrace", seq_run, [(s, exe, drv) for s in scs])
    ctx.count("schedules", tried(tr))


# -- flow files

FEXT = ["hlo", "flo", "dlo", "clo"]
FFLAV = {"hlo": "hold", "flo": "normal", "dlo": "direct", "clo": "crash"}
FBASE = "bt/out/11940001"
SEND = """#!/bin/sh
n=0; [ -f "$1" ] && n=$(wc -l < "$1")
echo "$3" >> "$1"
[ $((n+1)) != "$2" ]
"""


def flo_text(b, ents, torn):
    s = "".join("%s%s%s\n" % ("~" if e["sent"] else "", "" if e["m"] == "-" or e["sent"] else e["m"], b.path("bt/" + e["f"])) for e in ents)
    return s[:-1] if torn else s


def flo_ents(b, text):
    out = []
    for l in text.decode("latin-1").splitlines():
        e = dict(m="-", f="?", sent=False)
        if l[:1] == "~":
            # the mark overwrites what comes first
            e["sent"], l = True, l[1:]
            l = l if l[:1] == "/" else "/" + l
        elif l[:1] in "^#@" and l:
            e["m"], l = l[0], l[1:]
        e["f"] = flo_name(b, l)
        if e["f"] == "?":
            e["m"] = "?"
        out.append(e)
    return out


def flo_name(b, p):
    r = b.path("bt/")
    return p[len(r):] if p.startswith(r) and len(p) < len(r) + 12 else "?"


def flo_state(b, names):
    flo = [dict(ext=x, ent=flo_ents(b, b.read("%s.%s" % (FBASE, x)))) for x in FEXT if b.read("%s.%s" % (FBASE, x)) is not None]
    fs = []
    for n in names:
        d = b.read("bt/" + n)
        fs.append(dict(name=n, **{"is": "gone" if d is None else "full" if d else "empty"}))
    return dict(flo=flo, files=fs)


def flo_run(args):
    sc, exe, drv, bins = args
    rng = random.Random(sc["seed"])
    runs, seen, n = [], set(), [0]
    start = []

    def argv(b, o, k):
        name = b.path("bt/" + o["f"])
        m = "" if o["m"] == "-" else o["m"]
        if o["op"] == "attach" and o["how"] == "drv":
            return [drv, "attach", "2:4500/1", o["m"], name, FFLAV[o["flav"]], "1" if o["bsy"] else "0"]
        if o["op"] == "attach":
            return [bins.path("ftnfattach"), "-c", b.path("etc/fidogate.conf"), "-F", FFLAV[o["flav"]], "2:4500/1", m + name]
        a = [bins.path("ftnflo"), "-c", b.path("etc/fidogate.conf")]
        if o["op"] == "list":
            return a + ["-l", "2:4500/1"]
        if o["op"] == "dry":
            a += ["-n"]
        return a + ["-x", "%s %s %d %%s" % (b.path("bin/send"), b.path("log/sent.%d" % k), o["bad"]), "2:4500/1"]

    def once(s):
        with Box(bins, akas=("2:4500/2",)) as b:
            env = {"FGDRV_CONF": b.path("etc/fidogate.conf")}
            b.write("bin/send", SEND)
            os.chmod(b.path("bin/send"), 0o755)
            for f in sc["files"]:
                if f["is"] != "gone":
                    b.write("bt/" + f["name"], "x" if f["is"] == "full" else "")
            for f in sc["flo"]:
                b.write("%s.%s" % (FBASE, f["ext"]), flo_text(b, f["ent"], f["torn"]))
            if sc["bsy"]:
                b.write(FBASE + ".bsy", DEAD)
            start.append(flo_state(b, [f["name"] for f in sc["files"]]))
            ops, ev0, stuck, crashed, fault = [], None, False, False, False
            k0 = 0
            for g, grp in enumerate(sc["groups"]):
                ev = sched.run(exe, b, [argv(b, o, k0 + k) for k, o in enumerate(grp)], s if g == 0 else "", env=env)
                ev0 = ev0 or ev
                stuck = stuck or any(e["op"] in ("stuck", "limit") for e in ev)
                fault = fault or any(e.get("fault") for e in ev)
                for k, o in enumerate(grp):
                    ends = [e for e in ev if e["op"] in ("exit", "crash") and e["p"] == k]
                    dead = not ends or ends[0]["op"] == "crash" or ends[0]["ret"] < 0
                    crashed = crashed or dead
                    rc = ends[0]["ret"] if ends and not dead else 0
                    said = "\n".join(e["path"] for e in ev if e["op"] == "mark" and e["p"] == k)
                    if o["op"] == "attach" and o["how"] == "drv" and not dead:
                        rc = 0 if "attached 0" in said else 1
                    took = []
                    if o["op"] == "list":
                        took = [flo_name(b, l.split()[-1]) for l in said.splitlines()]
                    elif o["op"] in ("drain", "dry"):
                        took = [flo_name(b, l) for l in (b.read("log/sent.%d" % (k0 + k)) or b"").decode().splitlines()]
                    ops.append(dict(op=o["op"], m=o["m"], f=o["f"], flav=o["flav"], bad=o["bad"], group=g + 1,
                                    took=took, rc=rc, dead=dead))
                k0 += len(grp)
            stray = [x for x in b.ls("bt/out") if not x.endswith(("hlo", "flo", "dlo", "clo")) and not (crashed and x.startswith("11940001.bsy"))
                     and b.read("bt/out/" + x) != DEAD.encode()]
            if stuck:
                stray.append("stuck")
            return ev0, dict(sched=s, ops=ops, groups=len(sc["groups"]), fault=fault, stray=stray,
                             final=flo_state(b, [f["name"] for f in sc["files"]]))

    def more():
        yield from sched.explore(once, sc["bound"], sc["limit"], rng, crash=sc["crash"], visible=visible("bt/"))
        if sc["fault"]:
            ev, r = once("")
            st = sched.steps(ev)
            for k, e in enumerate(st):
                o = [x for x in e["en"] if x["p"] == e["p"]][0]
                if o["op"] in ("write", "lock", "open") and sc["groups"][0][e["p"]]["op"] == "attach" and o["path"].endswith("lo"):
                    for err in (28, 5):
                        s = ",".join([str(x["p"]) for x in st[:k]] + ["f%d:%d" % (e["p"], err)])
                        yield (s,) + once(s)
    for s, ev, r in more():
        n[0] += 1
        key = repr((r["ops"], r["final"], r["stray"]))
        if key not in seen:
            seen.add(key)
            runs.append(r)
    return dict(start=start[0], runs=runs, tried=n[0])


def flo_scenario(rng, k, q):
    # names that are easily taken for one another
    names = list(rng.choice([["f1", "f2", "f3", "f4"], ["n.1", "n.10", "N.1", "an.1"], ["d/a", "a", "d/a.b", "e/a"], ["x", "x-x", "x.x", "xx"]]))
    rng.shuffle(names)
    def op(kind):
        o = dict(op=kind, m=rng.choice("--^^##@") if kind == "attach" else "-", f=rng.choice(names[:3]),
                 flav=rng.choice(FEXT), bad=rng.choice([0, 0, 0, 1, 2, 3]) if kind == "drain" else 0, how="prog", bsy=True)
        if kind == "attach" and rng.random() < .4:
            o["how"] = "drv"
        elif kind == "attach" and o["m"] == "@":
            o["m"] = "^"
        return o
    flo = []
    for x in rng.choice([[], [], ["flo"], ["hlo"], ["clo"], ["hlo", "clo"], ["flo", "dlo"]]):
        ents = [dict(m=rng.choice("-^#@"), f=f, sent=rng.random() < .25) for f in rng.sample(names, rng.randrange(0, 4))]
        flo.append(dict(ext=x, ent=ents, torn=bool(ents) and rng.random() < .2))
    n = rng.choice([2, 2, 2, 3])
    kinds = [rng.choice(["attach", "attach", "attach", "drain", "drain", "list", "dry"]) for _ in range(n)]
    if "attach" not in kinds:
        kinds[0] = "attach"
    g1 = [op(x) for x in kinds]
    if rng.random() < .5:
        # without busy flags: one flavour only, or new ones might appear side by side
        fl = rng.choice(FEXT)
        flo = flo[:1]
        for o in g1:
            if o["op"] == "attach":
                o["flav"] = flo[0]["ext"] if flo else fl
                if o["how"] == "drv":
                    o["bsy"] = False
    else:
        for o in g1:
            o["bsy"] = True
    g2 = [op("attach")] if rng.random() < .5 else []
    g2 and g2[0].update(how="prog", m=rng.choice("-^#"))
    groups = [g1] + ([g2] if g2 else []) + ([[op(rng.choice(["drain", "list"]))]] if rng.random() < .7 else [])
    return dict(files=[dict(name=x, **{"is": rng.choice(["full", "full", "full", "gone"])}) for x in names], flo=flo,
                bsy=rng.random() < .2, groups=groups, crash=k % 2 == 1, fault=k % 2 == 0, bound=3 if n == 2 else 2,
                limit=60 if q else 400, seed=rng.getrandbits(30))


def P12(ctx):
    q = ctx.quick
    ctx.model("MCFlo")
    ctx.model("MCFlo", "MCFloLive.cfg")
    fails(ctx, "MCFlo", "MCFloOld.cfg")
    exe = sched.psched()
    drv, err = sched.driver(ctx.bins)
    rng = random.Random(ctx.seed + 12)
    scs = [flo_scenario(rng, k, q) for k in range(ctx.n(160, 700))]
    if not drv:
        ctx.notes.append("the flow file driver does not compile: " + err)
        for sc in scs:
            for g in sc["groups"]:
                for o in g:
                    o.update(how="prog", m="-" if o["m"] == "@" else o["m"])
    tr = ctx.validate("FloTrace", flo_run, [(s, exe, drv, ctx.bins) for s in scs])
    ctx.count("schedules", tried(tr))
