"""P07: queues and route tables for the real ftnroute, and their abstraction
for RouteTrace.tla."""
import os, random, re
import ftn, netgen
from box import Box
from ftn import astr
from netgen import gen_pat, pat_text, net_obs, MISSING, WILD
from tossgen import NOW, NONODE

AKAS = netgen.AKAS
OLD = (2026, 3, 7, 1, 2, 3)      # date of the packets in the queue
NODES = [(2, 4500, 10, 0), (2, 4500, 10, 3), (2, 4500, 11, 0), (2, 5020, 100, 0), (2, 5020, 100, 1), (2, 5020, 100, 7),
         (2, 5020, 0, 0), (1, 100, 20, 0), (1, 100, 20, 3), (3, 700, 2, 0), (1, 4500, 10, 0), (2, 4500, 10, 65534)]
FLAV = {"n": ["normal", "Normal", "out"], "h": ["hold", "hut"], "c": ["crash", "CUT"], "d": ["direct", "dut"]}
TYPES = {"n": "netmail", "e": "echomail", "t": "tick"}


def patlist(rng, n, zone):
    out = []
    while len(out) < n:
        p = gen_pat(rng, NODES, first=not out)
        # a list in which nothing is known about the preceding net cannot be completed
        out.append(p)
    return out


def gen(seed, moves=True):
    rng = random.Random(seed)
    akas = [AKAS[0]] + rng.sample(AKAS[1:], rng.choice([0, 1, 2]))
    if rng.random() < 0.2:
        rng.shuffle(akas)
    zone = akas[0][0]
    lines, mk, rules = [], [], []
    typ = "n"
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        if rng.random() < 0.35:
            typ = rng.choice("nnet")
            lines.append(TYPES[typ] if rng.random() < 0.5 else TYPES[typ].upper())
        k = rng.random()
        fl = rng.choice("nhcd")
        fw = rng.choice(FLAV[fl])
        if k < 0.08:
            up = gen_pat(rng, NODES, True)
            ps = patlist(rng, 2, zone)
            mk.append(dict(cmd="xroute", flav=fl, uplink=up, nodes=ps))
            lines.append("xroute %s %s %s %s" % (fw, pat_text(up), pat_text(ps[0]), pat_text(ps[1])))
        elif k < 0.15:
            ps = patlist(rng, rng.choice([1, 2, 3]), zone)
            mk.append(dict(cmd="hostroute", flav=fl, uplink=NONODE, nodes=ps))
            lines.append("hostroute %s %s" % (fw, " ".join(map(pat_text, ps))))
        elif k < 0.24:
            ps = patlist(rng, rng.choice([1, 2, 3]), zone)
            mk.append(dict(cmd="bossroute", flav=fl, uplink=NONODE, nodes=ps))
            lines.append("bossroute %s %s" % (fw, " ".join(map(pat_text, ps))))
        else:
            cmd = rng.choice(["send", "send", "route", "route", "route", "sendmove", "change", "change"])
            if cmd == "sendmove" and not moves:
                cmd = "send"
            ps = patlist(rng, rng.choice([1, 1, 2, 3, 5]), zone)
            if cmd == "route" and rng.random() < 0.8:
                ps[0] = list(rng.choice(NODES))[:3] + [rng.choice([MISSING, 0, 1])]
            new = rng.choice("nhcd")
            rules.append(dict(type=typ, cmd=cmd, flav=fl, new=new, nodes=ps))
            lines.append("%s %s %s%s" % (cmd if rng.random() < 0.8 else cmd.upper(), fw,
                                         rng.choice(FLAV[new]) + " " if cmd == "change" else "",
                                         "\t".join(map(pat_text, ps))))
        if rng.random() < 0.1:
            lines.append(rng.choice(["# x", "remap 2:4500/10 2:1/1 *", "; route normal 2:5020/100 *", "rewrite 2:1/1 2:2/2"]))
    pw = [dict(node=list(n), pw=rng.choice(["SeCret", "x", "LONGPASS"])) for n in rng.sample(NODES, 3)]
    runs = []
    n = 0
    for r in range(rng.choice([1, 1, 1, 2])):
        packs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            t = rng.choice("nnnneeet0z")
            f = rng.choice("nnnnhcd" + ("0x" if rng.random() < 0.2 else "n"))
            g = rng.choice("nnnab-")
            to, frm = rng.choice(NODES), rng.choice(akas + NODES[:3])
            msgs = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                uid = "u%d" % n
                n += 1
                if t == "e" or (t not in "net" and rng.random() < 0.5):
                    msgs.append(echo(rng, uid, frm, to))
                else:
                    # mostly to the packet's node, as the tosser makes them
                    msgs.append(net(rng, uid, frm, to, rng.choice(NODES)))
            packs.append(dict(grade=g, type=t, flav=f, frm=list(frm), to=list(to), pw=rng.choice(["", "old"]), msgs=msgs))
        runs.append(dict(packs=packs, g=rng.choice("na") if rng.random() < 0.1 else "", maxopen=rng.choice([0, 0, 1, 2])))
    return dict(akas=akas, mk=mk, rules=rules, lines=lines, pw=pw, runs=runs, seed=seed)


def echo(rng, uid, frm, to):
    t = ["AREA:A.B", "\x01MSGID: 2:1/2 %s" % uid, "\x01PID: x", "text " * rng.choice([1, 300]), "", "--- x",
         " * Origin: z (2:1/2)", "SEEN-BY: 1/2 4500/1", "\x01PATH: 1/2 4500/1"]
    if rng.random() < 0.3:
        t = t[:3] + ["> AREA:X"] + t[3:]
    return dict(uid=uid, net=False, hfrom=list(frm[1:3]), hto=list(to[1:3]), attr=rng.choice([0, 0, 0x400, 0x402]),
                kl=[], text=t, fromname="A", toname="All")


def net(rng, uid, frm, to, other):
    src = rng.choice([frm, other])
    dst = to if rng.random() < 0.7 else other
    m = netgen.gen_msg(rng, uid, [src, dst], [dst])
    # what the tosser leaves: INTL, FMPT, TOPT first, then the rest
    kl = [dict(n="INTL", d=list(dst[:3]) + [0], s=list(src[:3]) + [0], p=0,
               line="INTL %s %s" % (astr(tuple(dst[:3]) + (0,)), astr(tuple(src[:3]) + (0,))))]
    if src[3]:
        kl.append(dict(n="FMPT", d=NONODE, s=NONODE, p=src[3], line="FMPT %d" % src[3]))
    if dst[3]:
        kl.append(dict(n="TOPT", d=NONODE, s=NONODE, p=dst[3], line="TOPT %d" % dst[3]))
    kl += [k for k in m["kl"] if not k["n"]]
    body = [l for l in m["body"] if not l.startswith("SEEN-BY")]
    # an AREA line right after the control lines makes it an echomail
    while body and body[0].startswith("AREA:"):
        body.pop(0)
    m.update(kl=kl, body=body, hfrom=list(src[1:3]), hto=list(dst[1:3]), net=True)
    t = ["\x01" + k["line"] for k in kl] + body + ([m["tear"]] if m["tear"] else []) + \
        ([m["origin"]] if m["origin"] else []) + ["\x01" + v for v in m["vias"]]
    m["text"] = t
    return m


def write_packet(b, rel, p):
    return b.write(rel, ftn.packet(p["frm"], p["to"], [
        dict(frm=[0] + m["hfrom"], to=[0] + m["hto"], attr=m["attr"], to_name=m["toname"], from_name=m["fromname"],
             subj="S" + m["uid"], text="".join(l + "\r" for l in m["text"]).encode("latin-1")) for m in p["msgs"]],
        p["pw"], date=OLD))


def uid_of(m):
    x = re.search(rb"MSGID: \S+ (\S+)\r", m["text"])
    return x.group(1).decode() if x else "?"


def rest(m, net):
    """all text lines below the control lines at the top"""
    ls = m["text"].decode("latin-1").split("\r")
    if net:
        while ls and ls[0].startswith("\x01") and not ls[0].startswith("\x01Via"):
            ls.pop(0)
    return ls


def hdr(m):
    return [m["fnet"], m["fnode"], m["tnet"], m["tnode"], m["attr"], m["cost"], m["date"], m["to_name"], m["from_name"],
            m["subj"]]


def in_msg(m):
    """one input message, for the specification"""
    text = "".join(l + "\r" for l in m["text"])
    raw = ftn.parse_packet(ftn.packet((2, 0, 0, 0), (2, 0, 0, 0), [
        dict(frm=[0] + m["hfrom"], to=[0] + m["hto"], attr=m["attr"], to_name=m["toname"], from_name=m["fromname"],
             subj="S" + m["uid"], text=text.encode("latin-1"))]))["msgs"][0]
    return dict(uid=m["uid"], net=m["net"], attr=m["attr"], hfrom=m["hfrom"], hto=m["hto"], kl=m["kl"],
                hdr=hdr(raw), raw=rest(raw, m["net"]))


def out_packets(b, rel, stray):
    out = []
    for n, h in b.packets(rel):
        if "error" in h:
            stray.append("%s: %s" % (n, h["error"]))
            continue
        ms = []
        for m in h["msgs"]:
            is_net = not m["text"].startswith(b"AREA:")
            o = net_obs(h, m)
            ms.append({"uid": uid_of(m), "hdr": hdr(m), "raw": rest(m, is_net), "kl": o["kl"], "from": o["from"],
                       "to": o["to"]})
        out.append({"grade": n[0], "type": n[1], "flav": n[2], "from": list(h["frm"]), "to": list(h["to"]),
                    "pw": h["passwd"], "msgs": ms, "moved": h["date"] == OLD})
    stray += [n for n in b.ls(rel) if not n.endswith(".pkt")]
    return out


def execute(args):
    sc, bins, shim = args
    b = Box(bins, [astr(a) for a in sc["akas"]], "", shim=shim, now=NOW)
    with b:
        b.write("etc/passwd", "".join("packet %s %s\n" % (astr(p["node"]), p["pw"]) for p in sc["pw"]))
        b.write("etc/routing", "".join(l + "\n" for l in sc["lines"]))
        steps = []
        k = 0
        for run in sc["runs"]:
            names = []
            for p in run["packs"]:
                n = "%s%s%s%05x.pkt" % (p["grade"], p["type"], p["flav"], 0xfff00 - 7 * k)
                f = write_packet(b, "spool/toss/toss/" + n, p)
                os.utime(f, (NOW - 5000 + 2 * k, NOW - 5000 + 2 * k))
                names.append(n)
                k += 1
            args = []
            if run["g"]:
                args += ["-g", run["g"]]
            if run["maxopen"]:
                args += ["-M", str(run["maxopen"])]
            rc, out, err = b.run("ftnroute", *args)
            stray = []
            outs = out_packets(b, "spool/toss/route", stray)
            queue = [(n, p) for n, p in zip(names, run["packs"]) if not run["g"] or n[0] == run["g"]]
            steps.append(dict(queue=[{"grade": p["grade"], "type": p["type"], "flav": p["flav"], "from": p["frm"],
                                      "to": p["to"], "pw": p["pw"], "msgs": [in_msg(m) for m in p["msgs"]]}
                                     for n, p in queue],
                              out=outs, left=b.ls("spool/toss/toss"), rc=rc, stray=stray,
                              others=sorted(set(names) - set(n for n, _ in queue))))
            b.clear("spool/toss/toss", "spool/toss/route")
        return dict(cfg=dict(akas=[list(a) for a in sc["akas"]], opts=[],
                             pw=[dict(p, upper=p["pw"].upper()) for p in sc["pw"]], mk=sc["mk"], rules=sc["rules"]),
                    steps=steps)
