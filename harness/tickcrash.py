"""P17, P18: ftntick killed and failing at every operation on a TIC"""
import os, random
import ftn, sched, tickgen
from box import Box
from rewrite import FAULT, REAL, rc_of
from tickgen import history, snapshot, table, tic_line
from areagen import atoi

DIRS = ("bt/pin", "area", "boxes", "replaced", "var/tic_hist", "var/seq", "var/fareas")


def gen(seed):
    """a scenario of tickgen whose first TIC comes with its file"""
    for k in range(200):
        sc = tickgen.gen("crash-%s-%d" % (seed, k))
        t = sc["tick"]
        r = [r for r in sc["runs"] if r["k"] == "ftntick"]
        if not r or not t["boxes"]:
            continue
        x = r[0]["tics"][0]
        if x["file"] != "yes" or "/" in x["disk"] or x["disk"] == ".." or not sc["table"]:
            continue
        t.update(actions=[], script=False, nohist=False)
        sc["run"] = dict(now=r[0]["now"], tic=x)
        rng = random.Random("c%s" % seed)
        # mostly what is accepted
        a = [l.split(None, 1)[1] for l in x["lines"] if l.lower().startswith("area") and len(l.split(None, 1)) == 2]
        known = a and any(y["name"].lower() == a[0].lower() and len(y["nodes"]) > 1 for y in sc["table"])
        if not known and rng.random() < 0.8:
            continue
        return sc


def execute(args):
    sc, exe, bins, shim, points = args
    rng = random.Random("p%s" % sc["seed"])
    x, toks = sc["run"]["tic"], {}
    low = "bt/pin/" + x["disk"].lower()
    out = {}

    def tok(data):
        return toks.setdefault(data, "F%d" % len(toks))

    def files(b):
        return [f for f in snapshot(b, toks) if not f["p"].startswith(("bin/", "etc/"))]

    def once(s, again):
        with tickgen.make_box(sc, bins, shim) as b:
            b.now = sc["run"]["now"]
            e = "\r\n" if x["crlf"] else "\n"
            b.write("bt/pin/00000001.tic", "".join(l + e for l in x["lines"]).encode("latin-1"))
            os.utime(b.path("bt/pin/00000001.tic"), (x["mt"], x["mt"]))
            tok(b.read("bt/pin/00000001.tic"))
            data = tickgen.content(x["size"], 1)
            tok(data)
            b.write("bt/pin/" + x["disk"], data)
            os.utime(b.path("bt/pin/" + x["disk"]), (x["fmt"], x["fmt"]))
            # what it replaces is there in most cases
            for l in x["lines"]:
                w = l.split()
                if len(w) == 2 and w[0].lower() == "replaces" and "/" not in w[1]:
                    for k, a in enumerate(sc["table"]):
                        p = a["dir"].replace("{r}/", "") + "/" + w[1].lower()
                        if a["dir"].startswith("{r}/area") and b.read(p) is None:
                            d = b"replaced %d" % k
                            tok(d)
                            b.write(p, d)
            stray = []
            before = dict(fs=files(b), tab=table(b, stray), hist=history(b), seq=atoi((b.read("var/seq/tick") or b"0").decode()))
            argv = [bins.path("ftntick"), "-c", b.path("etc/fidogate.conf"), "-I", b.path("bt/pin")] + (["-t"] if sc["tick"]["insecure"] else [])
            ev = sched.run(exe, b, [argv], s, env=REAL)
            rc = rc_of(ev)
            r = dict(rc=rc, noticed=rc != 0 or "ERROR" in b.log(), fs=files(b), hist=history(b), again=[], hist2=[])
            if again:
                sched.run(exe, b, [argv], "", env=REAL)
                r.update(again=files(b), hist2=history(b))
            if "before" not in out:
                out.update(before=before, cfg=tickgen.cfg_of(sc, b, toks), order=[dict(name="00000001.tic", mt=x["mt"], lines=[tic_line(l) for l in x["lines"]])])
            return ev, r
    ev, r = once("", False)
    runs, seen, n = [dict(r, how="full", op="")], set(), 1
    st = sched.steps(ev)
    pts = []
    mine = lambda o: any(p.startswith(DIRS) and ".lock" not in p for p in (o["path"], o.get("to", "")))
    for k, e in enumerate(st):
        o = e["en"][0]
        if mine(o) or k and mine(st[k - 1]["en"][0]):
            pts.append((k, "kill", "k0"))
        if mine(o):
            if o["op"] == "write" and not o["path"].startswith(("var/tic_hist", "var/seq")):
                pts.append((k, "kill", "h0"))
            # (an inbound that cannot be listed is one without the file)
            if not o["path"].startswith("var/tic_hist.") and o["path"] != "bt/pin":
                pts += [(k, "fault", "f0:%d" % y) for y in FAULT.get(o["op"], [])]
    if len(pts) > points:
        pts = rng.sample(pts, points)
    for k, how, y in sorted(pts):
        _, r = once(",".join(["0"] * k + [y]), how == "kill")
        n += 1
        key = repr((how, r))
        if key not in seen:
            seen.add(key)
            o = st[k]["en"][0]
            runs.append(dict(r, how=how, op="%s %s %s %s" % (y, o["op"], o["path"], o.get("to", ""))))
    return dict(out, cfg=dict(out["cfg"], now=sc["run"]["now"], size={v: len(k) for k, v in toks.items()}), runs=runs, tried=n)
