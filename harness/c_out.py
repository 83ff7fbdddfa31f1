"""P09: output packets, with schedules, kills, faults and signals"""
import os, random, re
import ftn, lockuse, sched
from box import Box
from c_sched import fails, tried
from ftn import astr
from rewrite import FAULT, REAL, rc_of
from tossgen import NOW

NODES = [(2, 5020, 100, 0), (2, 4500, 2, 0), (2, 4500, 3, 0), (2, 4500, 2, 5), (1, 4500, 2, 0)]
FROM = [(2, 4500, 1, 0), (2, 4500, 1, 7)]
DIRS = ("spool/toss/toss", "spool/toss/bad")


def gen(seed, procs):
    rng = random.Random("out-%s" % seed)
    keys = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        keys.append((rng.choice(FROM), rng.choice(NODES), rng.choice("qp"), rng.choice("en"), rng.choice("nhcd"), int(rng.random() < 0.15)))
    n, ps = 0, []
    for p in range(procs):
        ops = [("limit", rng.choice([1, 1, 2, 3, 20]))]
        for _ in range(rng.choice([1, 2, 3, 5] if procs > 1 else [2, 4, 8, 14])):
            if rng.random() < 0.12 and ops[-1][0] == "put":
                ops.append(("close",))
            n += 1
            ops.append(("put", rng.choice(keys), n, rng.choice([0, 5, 100, 100, 4200, 9000])))
        ps.append(ops + [("close",)])
    seq = rng.choice([0, 7, 0xffffe, 0xffffd, 0xfffff, 0x1ffffe, 1234567])
    old = set()
    for k in keys:
        for d in range(1, 6):
            if rng.random() < 0.25:
                old.add("%s/%s%s%s%05x.%s" % (DIRS[k[5]], k[2], k[3], k[4], (seq + d) & 0xfffff, rng.choice(["pkt", "pkt", "pkt", "tmp"])))
    return dict(procs=ps, seq=seq, old=sorted(old), seed=seed)


def name_key(frm, to, rel):
    return "%s %s %s %s" % (astr(frm), astr(to), os.path.basename(rel)[:3], os.path.dirname(rel))


def op_key(k):
    return "%s %s %s%s%s %s" % (astr(k[0]), astr(k[1]), k[2], k[3], k[4], DIRS[k[5]])


OLDPKT = ftn.packet((2, 1, 1, 0), (2, 1, 2, 0), [dict(frm=(2, 1, 1, 0), to=(2, 1, 2, 0), text=b"old\r")])


def listing(b, dirs, old):
    out = []
    for d in dirs:
        for f in b.ls(d):
            rel = d + "/" + f
            if os.path.isdir(b.path(rel)):
                continue
            c = b.read(rel)
            if c is None:
                continue
            e = dict(name=rel, st="pkt" if f.endswith(".pkt") else "tmp", old=rel in old, same=rel in old and c == OLDPKT, whole=False,
                     key="", ids=[], named=bool(re.match(r"^...[0-9a-f]{5}\.pkt$", f)))
            try:
                p = ftn.parse_packet(c)
                e.update(whole=True, key=name_key(p["frm"], p["to"], rel), ids=[int(m["subj"]) if m["subj"].isdigit() else 0 for m in p["msgs"]])
            except ftn.Bad:
                pass
            out.append(e)
    return out


def run(args):
    sc, exe, drv, bins, points, bound, limit = args
    rng = random.Random(sc["seed"])
    steps, seen, n = [], set(), [0]

    def once(s, faulted=False):
        n[0] += 1
        with Box(bins) as b:
            b.write("var/seq/toss", "%d\n" % sc["seq"])
            for o in sc["old"]:
                b.write(o, OLDPKT)
            cmds = []
            for k, ops in enumerate(sc["procs"]):
                L = []
                for o in ops:
                    if o[0] == "put":
                        f, t, g, y, v, bad = o[1]
                        L.append("put %d %d %d %d %d %d %d %d %s %s %s %d %d %d" % (f + t + (g, y, v, bad, o[2], o[3])))
                    else:
                        L.append(" ".join(str(x) for x in o))
                cmds.append([drv, b.write("etc/ops%d" % k, "\n".join(L) + "\n")])
            ev = sched.run(exe, b, cmds, s, env=dict(FGDRV_CONF=b.path("etc/fidogate.conf")))
            procs = []
            for k, ops in enumerate(sc["procs"]):
                todo = [o for o in ops if o[0] != "limit"]
                mk = [e["path"].split() for e in ev if e["op"] == "mark" and e["p"] == k]
                dead = any(e["p"] == k and (e["op"] == "crash" or e["op"] == "exit" and e["ret"] != 0) for e in ev)
                L = []
                for o, m in zip(todo, mk):
                    L.append(dict(op="put", key=op_key(o[1]), id=o[2], ok=m[2] == "1") if o[0] == "put" else dict(op="close", ok=m[1] == "1"))
                if dead and len(mk) < len(todo) and todo[len(mk)][0] == "put":
                    # it may have been written already
                    o = todo[len(mk)]
                procs.append(dict(ev=L, dead=dead, all=len(mk) == len(todo)))
            return ev, dict(k="run", procs=procs, faulted=faulted, files=listing(b, DIRS, sc["old"]), sched=s)

    def note(r):
        key = repr(dict(r, sched=0))
        if key not in seen:
            seen.add(key)
            steps.append(r)
    vis = lambda o: o["path"].startswith(("spool/", "var/seq"))
    for s, ev, r in sched.explore(once, bound if len(sc["procs"]) > 1 else 0, limit, rng, visible=vis):
        note(r)
        if s == "":
            first = ev
    pts = []
    base = sched.steps(first)
    pre = [str(e["p"]) for e in base]
    for k, e in enumerate(base):
        en = [o for o in e["en"] if o["p"] == e["p"]] or [e["en"][0]]
        o = en[0]
        p = e["p"]
        if vis(o) or (k and vis(([x for x in base[k - 1]["en"] if x["p"] == base[k - 1]["p"]] or [base[k - 1]["en"][0]])[0])):
            pts.append((k, "k%d" % p, False))
        if vis(o):
            if o["op"] == "write":
                pts.append((k, "h%d" % p, False))
            pts += [(k, "f%d:%d" % (p, x), True) for x in FAULT.get(o["op"], []) if not o["path"].startswith("var/seq")]
    if len(pts) > points:
        pts = rng.sample(pts, points)
    for k, x, fl in pts:
        note(once(",".join(pre[:k] + [x]), fl)[1])
    return dict(old=sc["old"], steps=steps, tried=n[0])


# -- the programs

TOK = re.compile(rb"tok[0-9]+end")


def texts(data):
    """the texts of all whole messages of a packet that may be cut off"""
    pos, out = 58, []
    while data[pos:pos + 2] == b"\2\0":
        p = pos + 34
        ss = []
        for _ in range(4):
            e = data.find(b"\0", p)
            if e < 0:
                return out
            ss.append(data[p:e])
            p = e + 1
        out.append(ss[3])
        pos = p
    return out


def net(n, to, frm=(2, 5020, 100, 0), **kw):
    t = "\1INTL %d:%d/%d %d:%d/%d\rbody\rtok%dend\r" % (to[:3] + frm[:3] + (n,))
    return dict(dict(frm=frm, to=to, text=t.encode()), **kw)


def echo(area, n, size=0):
    return dict(frm=lockuse.UP, to=(2, 4500, 1, 0), text=("AREA:%s\r\1MSGID: 2:5020/100 %08x\r%stok%dend\r--- x\r * Origin: x (2:5020/100)\rSEEN-BY: 5020/100\r\1PATH: 5020/100\r"
                                                          % (area, n, ("y" * 70 + "\r") * (size // 71), n)).encode())


def p_toss(b, rng):
    for k in range(rng.choice([1, 2, 3])):
        lockuse.pkt(b, "bt/in/%08x.pkt" % (k + 1), lockuse.UP, (2, 4500, 1, 0), [
            echo(rng.choice(["LIVE.ONE", "OLD.ONE", "NO.AREA"]), 100 * k + j, rng.choice([0, 100, 5000])) if rng.random() < 0.7 else
            net(100 * k + j, rng.choice([(2, 4500, 2, 0), (2, 4500, 3, 0), (2, 5020, 7, 0)])) for j in range(rng.choice([1, 2, 4]))])


def p_route(b, rng):
    for k in range(rng.choice([1, 2, 3])):
        to = rng.choice([(2, 4500, 2, 0), (2, 4500, 3, 0), (2, 5020, 100, 0)])
        lockuse.pkt(b, "spool/toss/toss/q%sn%05x.pkt" % (rng.choice("en"), k + 1), (2, 4500, 1, 0), to,
                    [net(100 * k + j, to, frm=(2, 4500, 1, 0)) for j in range(rng.choice([1, 2, 4]))])


def p_move(b, rng):
    b.write("etc/packing", "netmail\ndirmove %s *\n" % b.path("boxes"))
    p_pack(b, rng)


def p_pack(b, rng):
    for k in range(rng.choice([1, 2])):
        to = rng.choice([(2, 4500, 2, 0), (2, 4500, 2, 0), (2, 4500, 3, 0)])
        lockuse.pkt(b, "spool/toss/route/qnn%05x.pkt" % (k + 1), (2, 4500, 1, 0), to,
                    [net(100 * k + j, to, frm=(2, 4500, 1, 0)) for j in range(rng.choice([1, 2, 4]))])


def p_noarc(b, rng):
    b.write("etc/packing", "netmail\npack noarc *\n")
    p_pack(b, rng)


def p_gate(b, rng):
    lockuse.pkt(b, "bt/in/00000001.pkt", lockuse.UP, (2, 4500, 1, 0),
                [net(j, (2, 4500, 1, 0), to_name="Joe%2:4500/9" if j % 2 else "Joe") for j in range(rng.choice([1, 2, 4]))])


def p_af(b, rng):
    lockuse.af_pkt(b, 1)


PROGS = {
    "toss": ("ftntoss", ["-I", "{r}/bt/in"], p_toss),
    "toss -M1": ("ftntoss", ["-M", "1", "-I", "{r}/bt/in"], p_toss),
    "toss -m1": ("ftntoss", ["-m", "1", "-I", "{r}/bt/in"], p_toss),
    "route": ("ftnroute", [], p_route),
    "route -M1": ("ftnroute", ["-M", "1"], p_route),
    "dirmove": ("ftnpack", [], p_move),
    "noarc": ("ftnpack", [], p_noarc),
    "ftn2ftn": ("ftn2ftn", ["-A", "2:4500/1", "-B", "2:4500/2", "{r}/bt/in/00000001.pkt"], p_gate),
    "afpkt": ("ftnafpkt", ["-I", "{r}/bt/pin"], p_af),
    "outpkt": ("ftnoutpkt", ["-f", "Joe@2:4500/1", "-s", "tok", "Jim@2:4500/2"], lambda b, rng: None),
}
SPOOL = DIRS + ("spool/toss/route", "spool/toss/pack", "spool/outpkt", "boxes", "bt/in", "bt/pin")


def everything(b):
    return [os.path.join(d, f) for x in ("spool", "bt", "boxes", "out") for d, _, fs in os.walk(b.path(x)) for f in fs]


def tokens(b):
    out = set()
    for f in everything(b):
        with open(f, "rb") as h:
            for t in texts(h.read()):
                out |= {x.decode() for x in TOK.findall(t)}
    return out


def published(b):
    """what has been put out, apart from names and times"""
    out = []
    for f in everything(b):
        rel = os.path.relpath(f, b.root)
        if rel.startswith(("bt/in", "bt/pin")):
            continue
        with open(f, "rb") as h:
            data = h.read()
        try:
            p = ftn.parse_packet(data)
        except ftn.Bad:
            continue
        name = os.path.basename(rel)
        out.append("%s %s %s %s %s" % (os.path.dirname(rel), name[:3] if name.endswith(".pkt") else name, astr(p["frm"]), astr(p["to"]),
                                       [(m["subj"], TOK.findall(m["text"])) for m in p["msgs"]]))
    return sorted(out)


def prog(args):
    key, seed, points, exe, bins, shim = args
    name, av, prep = PROGS[key]
    rng = random.Random("prog-%s-%s" % (key, seed))
    st = rng.getrandbits(32)
    old = []
    if rng.random() < 0.5:
        seq = rng.choice([3, 0xffffe])
        old = ["spool/toss/%s/%s%05x.pkt" % (d, t, (seq + k) & 0xfffff) for d, t in (("toss", "qen"), ("route", "qnn"), ("bad", "bad"))
               for k in (1, 2)] if name == "ftntoss" else ["spool/outpkt/%08d.pkt" % (seq + 1)] if name in ("ftn2ftn", "ftnpack") else \
            ["spool/outpkt/000%05x.pkt" % ((seq + 1) & 0xfffff)] if name in ("ftnoutpkt", "ftnafpkt") else []
    src, n = [()], [0]

    def once(s, how, bare=False, extra=()):
        n[0] += 1
        with Box(bins, conf=lockuse.CONF.replace("DupeCheck\n", ""), shim=shim, now=NOW) as b:
            lockuse.setup(b)
            if old:
                b.write("var/seq/toss", "%d\n" % seq)
                b.write("var/seq/pkt", "%d\n" % seq)
            for o in old:
                b.write(o, OLDPKT)
            prep(b, random.Random(st))
            src[0] = {os.path.relpath(f, b.root) for f in everything(b)} - set(old)
            every = sorted(tokens(b))
            argv = b.argv(name, *(list(extra) + [a.replace("{r}", b.root) for a in av]))
            ev = sched.run(exe, b, [argv], s, env=REAL, max=9000)
            rc = rc_of(ev)
            dirs = sorted({os.path.dirname(os.path.relpath(f, b.root)) for f in everything(b)})
            files = [f for f in listing(b, dirs, old) if f["name"].endswith((".pkt", ".tmp")) and (f["name"] not in src[0] or how != "plain")]
            if how == "fault":
                for f in everything(b):
                    rel = os.path.relpath(f, b.root)
                    if rel.startswith("out") and rel.endswith("ut"):
                        try:
                            ftn.parse_packet(b.read(rel))
                            ok = True
                        except ftn.Bad:
                            ok = not b.read(rel)
                        files.append(dict(name=rel, st="pkt", old=False, same=False, whole=ok, key="", ids=[], named=True))
            pub = published(b)
            aside = name == "ftnafpkt" and any(f.endswith(".bad") for f in everything(b))
            return ev, dict(k="prog", aside=aside, how=how, rc=rc, files=files, kept=sorted(tokens(b)), all=every, sched=s, prog=key), pub
    ev, r, pub0 = once("", "plain")
    steps, seen = [r], set()
    if name in ("ftntoss", "ftnroute"):
        for m in ("1", "2"):
            steps.append(dict(k="limit", a=pub0, b=once("", "plain", extra=["-M", m])[2]))
    vis = lambda o: any(x.startswith(("spool/", "boxes", "bt/", "out")) for x in (o["path"], o.get("to", "")))
    base = sched.steps(ev)
    pts = []
    for k, e in enumerate(base):
        o = e["en"][0]
        if vis(o) or (k and vis(base[k - 1]["en"][0])):
            pts.append((k, "k0", "kill"))
            if name in ("ftntoss", "ftnroute", "ftnpack", "ftnafpkt"):
                pts.append((k, "s0:%d" % rng.choice([1, 2, 3]), "signal"))
        if vis(o):
            if o["op"] == "write":
                pts.append((k, "h0", "kill"))
            pts += [(k, "f0:%d" % x, "fault") for x in FAULT.get(o["op"], [])]
    for k, x, how in rng.sample(pts, min(points, len(pts))):
        e, r, pub = once(",".join(["0"] * k + [x]), how)
        # ftnpack keeps the packet and tries again
        # and ftnafpkt puts the request aside
        r["out"] = name == "ftnpack" or pub == pub0 or r.pop("aside") or base[k]["en"][0]["op"] in ("unlink", "read") or base[k]["en"][0]["path"] in src[0]
        key2 = repr(dict(r, sched=0))
        if key2 not in seen:
            seen.add(key2)
            r["op"] = "%s %s" % (base[k]["en"][0]["op"], base[k]["en"][0]["path"])
            steps.append(r)
    return dict(old=old, steps=steps, tried=n[0])


def P09(ctx):
    ctx.model("MCOutpkt", "MCOutpkt.cfg" if ctx.quick else "MCOutpktBig.cfg", timeout=800)
    for v in ("Wrap", "Err"):
        fails(ctx, "MCOutpkt", "MCOutpkt%s.cfg" % v)
    exe = sched.psched()
    drv, err = sched.driver(ctx.bins, "opdrv")
    if drv is None:
        raise RuntimeError(err)
    s = ctx.seed
    jobs = [(gen("%d-%d" % (s, k), 1), exe, drv, ctx.bins, ctx.n(40, 150), 0, 1) for k in range(ctx.n(16, 80))] + \
           [(gen("t-%d-%d" % (s, k), 2), exe, drv, ctx.bins, ctx.n(10, 40), ctx.n(1, 2), ctx.n(30, 200)) for k in range(ctx.n(12, 50))]
    tr = ctx.validate("PktOutTrace", run, jobs)
    tr2 = ctx.validate("PktOutTrace", prog, [(p, "%d-%d" % (s, k), ctx.n(70, 200), exe, ctx.bins, ctx.shim) for p in PROGS for k in range(ctx.n(2, 6))])
    ctx.count("schedules, crash and fault points", tried(tr) + tried(tr2))
