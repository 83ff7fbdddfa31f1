"""P06: netmail scenarios for the real ftntoss and their abstraction for
NetTrace.tla."""
import os, random, re
import ftn
from box import Box
from ftn import astr
from tossgen import NOW, NONODE, ftsdate

AKAS = [(2, 4500, 1, 0), (2, 5000, 9, 0), (1, 100, 1, 0), (3, 700, 1, 0), (2, 463, 9, 7), (1, 4500, 1, 0)]
NODES = [(2, 4500, 1, 0), (2, 4500, 1, 5), (2, 4500, 10, 0), (2, 4500, 10, 3), (2, 5020, 100, 0), (2, 5020, 100, 1),
         (2, 5020, 0, 0), (1, 100, 20, 0), (1, 100, 1, 0), (3, 700, 2, 0), (1, 4500, 10, 0), (2, 463, 9, 7),
         (2, 5000, 9, 0), (4, 4500, 10, 0), (2, 32767, 32767, 32767), (2, 65, 1, 0)]
NAMES = ["Joe User", "joe", "Sysop", "ping", "Areafix", "Joe [x]", "J", "All", "Long Name Of Somebody Else Here 012"]
PATS = ["*", "joe*", "Joe?User", "*user", "sysop", "*s*", "J", "[a-k]*", "*fix", "?", "\\Joe", "??*?", "*e?[tu]*"]
SWITCH = ["KillEmpty", "SupportPing", "LogNetMail"]
MISSING, WILD = -1, -2


def wild(pat, s):
    r, i = "", 0
    while i < len(pat):
        c = pat[i]
        if c == "\\":
            i += 1
            r += re.escape(pat[i])
        elif c == "?":
            r += "."
        elif c == "*":
            r += ".*"
        elif c == "[":
            e = pat.index("]", i)
            r += pat[i:e + 1]
            i = e
        else:
            r += re.escape(c)
        i += 1
    return re.fullmatch(r, s, re.I | re.S) is not None


def pat_text(p):
    """text of an address pattern with missing (-1) and wild (-2) components;
    None if it cannot be written"""
    z, n, f, pt = p
    if all(c == WILD for c in p):
        return "*"
    c = lambda x: "*" if x == WILD else str(x)
    if z != MISSING:
        if n == MISSING:
            return None
        s = "%s:%s" % (c(z), c(n))
        if f != MISSING:
            s += "/" + c(f)
        elif pt != MISSING:
            return None
    elif n != MISSING:
        if f == MISSING:
            return None
        s = "%s/%s" % (c(n), c(f))
    elif f != MISSING:
        s = c(f)
        if f == WILD and pt == MISSING:
            return None     # that would be "*"
    elif pt != MISSING:
        return "." + c(pt)
    else:
        return None
    return s + ("." + c(pt) if pt != MISSING else "")


def gen_pat(rng, nodes=NODES, first=False):
    while True:
        n = list(rng.choice(nodes))
        k = rng.random()
        if k < 0.08:
            return [WILD] * 4
        if k < 0.3:
            n[3] = MISSING
        elif k < 0.45:
            n[3] = WILD
        elif k < 0.55:
            n[2] = n[3] = WILD
        elif k < 0.6:
            n[1] = n[2] = WILD
            n[3] = rng.choice([MISSING, WILD])
        elif k < 0.65:
            n[2] = n[3] = MISSING
        elif k < 0.7:
            n[0] = WILD
        elif k < 0.72:
            n[1] = WILD
        if rng.random() < 0.25:
            n[0] = MISSING
            if not first and rng.random() < 0.6:
                n[1] = MISSING
                if rng.random() < 0.3:
                    n[2] = MISSING
        if pat_text(n) is not None:
            return n


def gen_dest(rng):
    """what an address is changed into"""
    while True:
        k = rng.random()
        if k < 0.15:
            return [0, 0, 0, 0]
        n = gen_pat(rng)
        if pat_text(n) is not None:
            return n


def gen(seed, ping=False, nullmap=False):
    rng = random.Random(seed)
    akas = [AKAS[0]] + rng.sample(AKAS[1:], rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.15:
        rng.shuffle(akas)
    opts = [o for o in SWITCH if rng.random() < 0.5]
    if rng.random() < 0.15:
        opts.append("-s")
    nodes = NODES + akas
    rewrite, remap, spyes, lines = [], [], [], []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        r = dict(cmd=rng.choice(["", "", "from", "to"]), name=rng.choice(PATS), to=gen_dest(rng),
                 **{"from": gen_pat(rng, nodes, True)})
        if r["to"] == [0, 0, 0, 0]:
            r["to"] = gen_pat(rng, nodes)
        if r["cmd"] == "":
            r["name"] = "*"
        rewrite.append(r)
        lines.append((rng.choice(["rewrite", "REWRITE", "Rewrite"]) + r["cmd"] + " %s %s" % (pat_text(r["from"]), pat_text(r["to"])) +
                      (" " + r["name"] if r["cmd"] else "")))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        r = dict(cmd=rng.choice(["to", "to", "from"]), name=rng.choice(PATS), to=gen_dest(rng),
                 **{"from": gen_pat(rng, nodes, True)})
        remap.append(r)
        lines.append("%s %s %s %s" % (rng.choice(["remap", "remapto"]) if r["cmd"] == "to" else "remapfrom",
                                      pat_text(r["from"]), pat_text(r["to"]), r["name"]))
    # the two tables are independent of each other's place in the file
    ra = [l for l in lines if l.lower().startswith("rew")]
    rb = [l for l in lines if l.lower().startswith("rem")]
    lines = []
    while ra or rb:
        s = ra if ra and (not rb or rng.random() < 0.5) else rb
        lines.append(s.pop(0))
        if rng.random() < 0.1:
            lines.append(rng.choice(["# comment", "echomail", "netmail", "send normal 2:5020/100", "; x"]))
    if rng.random() < 0.3:
        for n in rng.sample([x for x in NODES if x[3] == 0], rng.choice([1, 2])):
            spyes.append(dict(node=list(n), fwd=list(rng.choice([(2, 4500, 77, 0), (1, 100, 20, 3), (2, 5020, 100, 0)]))))
    pw = [dict(node=list(n), pw=rng.choice(["SeCret", "x", "LONGPASS"])) for n in rng.sample(NODES, 3)]
    packs = []
    uid = 0
    for k in range(rng.choice([1, 2, 3])):
        frm = rng.choice(NODES + akas)
        to = rng.choice(akas) if rng.random() < 0.8 else rng.choice(NODES)
        msgs = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            msgs.append(gen_msg(rng, "m%d" % uid, nodes, akas))
            uid += 1
        packs.append(dict(frm=list(frm), to=list(to), msgs=msgs))
    return dict(akas=akas, opts=opts, rewrite=rewrite, remap=remap, spyes=spyes, pw=pw, lines=lines, packs=packs,
                maxopen=rng.choice([0, 0, 0, 1, 2]), seed=seed)


def gen_msg(rng, uid, nodes, akas):
    src = rng.choice(nodes)
    dst = rng.choice(nodes) if rng.random() < 0.8 else rng.choice(akas)
    kl = [dict(n="", d=NONODE, s=NONODE, p=0, line="MSGID: %s %s" % (astr(src), uid))]

    def k(n, text, **kw):
        e = dict(n=n, d=NONODE, s=NONODE, p=0)
        e.update(kw)
        # the name may be written in any case, with or without a colon
        nm = n if rng.random() < 0.85 else n.lower()
        e["line"] = nm + rng.choice([" ", " ", ": ", "  "]) + text
        kl.insert(rng.randrange(len(kl) + 1), e)
    x = rng.random()
    if x < 0.8:
        d, s = list(dst[:3]), list(src[:3])
        if rng.random() < 0.1:       # INTL with points: they count
            d, s = list(dst), list(src)
            k("INTL", "%s %s" % (astr(dst), astr(src)), d=d, s=s)
        else:
            k("INTL", "%s %s" % (astr(tuple(d) + (0,)), astr(tuple(s) + (0,))), d=d + [0], s=s + [0])
        if rng.random() < 0.05:      # only the first one counts
            k("INTL", "2:999/999 2:998/998", d=[2, 999, 999, 0], s=[2, 998, 998, 0])
    elif x < 0.86:
        k("INTL", "garbage %s" % astr(tuple(src[:3]) + (0,)), s=list(src[:3]) + [0])
    elif x < 0.9:
        k("INTL", astr(tuple(dst[:3]) + (0,)), d=list(dst[:3]) + [0])
    if src[3] or rng.random() < 0.05:
        k("FMPT", str(src[3]), p=src[3])
    if dst[3] or rng.random() < 0.05:
        k("TOPT", str(dst[3]), p=dst[3])
    if rng.random() < 0.05 and not any(e["n"] == "TOPT" for e in kl):
        k("TOPT", "17", p=17)
    for l in ("PID: x", "INTLX: 1:2/3 4:5/6", "TOPTION 7", "FLAGS KFS", "REPLY: 2:1/2 12345678", "CHRS: CP866 2", "Note"):
        if rng.random() < 0.15:
            kl.insert(rng.randrange(len(kl) + 1), dict(n="", d=NONODE, s=NONODE, p=0, line=l))
    # the first of a name counts; the generator may have put a later-drawn one first: that is what the model looks at
    body = []
    b = rng.random()
    tear = origin = ""
    if b < 0.25:
        body = [""] * rng.choice([0, 1, 3])
    else:
        for _ in range(rng.choice([1, 2, 5])):
            body.append(rng.choice(["text", "more text here", "> quoted", "AREA:NOT.ONE", "  indented", "\tx", "--", "x" * 300,
                                    "SEEN-BY: 1/2", "%s" % ("y" * 2000), "w\xe9ird \x8d bytes"]))
        if body[0].startswith("AREA:"):
            body[0] = "not " + body[0]
    if rng.random() < 0.3:
        tear = rng.choice(["--- x", "---"])
    if rng.random() < 0.2:
        origin = " * Origin: somewhere (%s)" % astr(src)
    vias = ["Via %s @20261118.120000.UTC tosser/1" % astr(n[:3] + (0,)) for n in rng.sample(NODES, rng.choice([0, 0, 1, 3]))]
    attr = 0
    for bit in (1, 2, 4, 0x10, 0x80, 0x100, 0x200, 0x400, 0x8000):
        if rng.random() < (0.25 if bit in (2, 0x200) else 0.1):
            attr |= bit
    t = NOW - rng.randrange(100000) * 2
    toname = "ping" if rng.random() < 0.15 else rng.choice(NAMES)
    if toname == "ping":
        toname = rng.choice(["ping", "Ping", "PING", "ping"])
    return dict(uid=uid, hfrom=[src[1], src[2]], hto=[dst[1], dst[2]], kl=kl, fromname=rng.choice(NAMES), toname=toname,
                subj="S%s %s" % (uid, rng.choice(["", "x" * 40, "x" * 64])), date=ftsdate(t), attr=attr,
                cost=rng.choice([0, 0, 5]), body=body, tear=tear, origin=origin, vias=vias,
                ping=toname.lower() == "ping",
                empty=not tear and not origin and all(l == "" for l in body))


def text_of(m):
    ls = ["\x01" + k["line"] for k in m["kl"]] + m["body"]
    if m["tear"]:
        ls.append(m["tear"])
    if m["origin"]:
        ls.append(m["origin"])
    ls += ["\x01" + v for v in m["vias"]]
    return "".join(l + "\r" for l in ls).encode("latin-1")


def net_obs(h, m, prog="ftntoss", now=None):
    """abstract one netmail found in a packet"""
    p = ftn.parse_text(m["text"])
    kl = list(p["kludges"])
    if not p["body"]:       # an empty text: Via lines follow the kludges directly
        p["via"] = [k for k in kl if k.startswith("Via ")] + p["via"]
        kl = [k for k in kl if not k.startswith("Via ")]
    frm, to = [h["frm"][0], m["fnet"], m["fnode"], 0], [h["to"][0], m["tnet"], m["tnode"], 0]
    o = dict(nintl=0, extra=0)
    if kl and kl[0].startswith("INTL "):
        d, s = kl.pop(0)[5:].split()
        to, frm = list(ftn.addr(d)), list(ftn.addr(s))
        o["nintl"] = 1 if (frm[1:3] == [m["fnet"], m["fnode"]] and to[1:3] == [m["tnet"], m["tnode"]]
                           and frm[3] == 0 and to[3] == 0) else 2
    if kl and kl[0].startswith("FMPT "):
        frm[3] = int(kl.pop(0)[5:])
        o["extra"] += frm[3] == 0
    if kl and kl[0].startswith("TOPT "):
        to[3] = int(kl.pop(0)[5:])
        o["extra"] += to[3] == 0
    o["extra"] = int(o["extra"])
    own, old, ok = [], [], True
    for v in p["via"]:
        x = re.match(r"^Via (\S+) @(\S+) FIDOGATE/(\S+)$", v)
        if x:
            own.append(list(ftn.addr(x.group(1))))
            ok = ok and x.group(3) == prog and (now is None or x.group(2).startswith("20261119.120000"))
        else:
            old.append(v)
    o.update(pfrom=list(h["frm"]), pto=list(h["to"]), pw=h["passwd"], kl=kl, vias=own, oldvias=old, viatime=ok,
             body=p["body"] + p["seenby"] + p["path"] + ([p["tail"]] if p["tail"] else []),
             fromname=m["from_name"], toname=m["to_name"], subj=m["subj"], date=m["date"],
             attr=m["attr"], cost=m["cost"], area=p["area"] or "")
    o["from"], o["to"] = frm, to
    return o


def exp_body(m):
    """text lines expected: all of them, SEEN-BY lines gathered at the end"""
    sb = [l for l in m["body"] if l.startswith("SEEN-BY:")]
    return [l for l in m["body"] if l not in sb] + ([m["tear"]] if m["tear"] else []) + ([m["origin"]] if m["origin"] else []) + \
        [l[8:] for l in sb]


def make_box(sc, bins, shim):
    conf = "".join("%s\n" % o for o in sc["opts"] if not o.startswith("-"))
    b = Box(bins, [astr(a) for a in sc["akas"]], conf, shim=shim, now=NOW)
    b.write("etc/passwd", "".join("packet %s %s\n" % (astr(p["node"]), p["pw"]) for p in sc["pw"]))
    b.write("etc/routing", "".join(l + "\n" for l in sc["lines"]))
    b.write("etc/spyes", "".join("%s %s\n" % (astr(s["node"]), astr(s["fwd"])) for s in sc["spyes"]))
    b.write("var/areas.bbs", "H\n")
    return b


def cfg_of(sc):
    names = [[p, n] for p in sorted({r["name"] for r in sc["rewrite"] + sc["remap"]})
             for n in sorted({x for pk in sc["packs"] for m in pk["msgs"] for x in (m["fromname"], m["toname"])})
             if wild(p, n)]
    return dict(akas=[list(a) for a in sc["akas"]], opts=sc["opts"], rewrite=sc["rewrite"], remap=sc["remap"],
                spyes=sc["spyes"], pw=[dict(p, upper=p["pw"].upper()) for p in sc["pw"]], names=names)


def tla_msg(m):
    return dict({k: m[k] for k in ("hfrom", "hto", "kl", "fromname", "toname", "subj", "attr", "cost", "date", "vias",
                                   "ping", "empty")}, body=exp_body(m))


def execute(args):
    sc, bins, shim = args
    with make_box(sc, bins, shim) as b:
        for k, p in enumerate(sc["packs"]):
            f = b.write("bt/pin/%08d.pkt" % k, ftn.packet(p["frm"], p["to"], [
                dict(frm=[0] + m["hfrom"], to=[0] + m["hto"], attr=m["attr"], cost=m["cost"], date=m["date"],
                     to_name=m["toname"], from_name=m["fromname"], subj=m["subj"], text=text_of(m))
                for m in p["msgs"]]))
            os.utime(f, (NOW - 1000 + k, NOW - 1000 + k))
        args = [o for o in sc["opts"] if o.startswith("-")]
        if sc["maxopen"]:
            args += ["-M", str(sc["maxopen"])]
        rc, out, err = b.run("ftntoss", *args)
        outs, pongs, stray = {}, {}, []
        for n, h in b.packets("spool/toss/toss"):
            if "error" in h:
                stray.append("%s: %s" % (n, h["error"]))
            for m in h["msgs"]:
                o = net_obs(h, m, now=NOW)
                o["flav"] = n[2]
                if n[:2] != "nn" or o["area"]:
                    stray.append("%s %r" % (n, o["area"]))
                x = re.search(r"MSGID: \S+ (\S+)", "\n".join(o["kl"]))
                outs.setdefault(x.group(1) if x else "?", []).append(o)
        for n, h in b.packets("spool/outpkt"):
            for m in h["msgs"]:
                o = net_obs(h, m)
                x = re.search(r"with MSGID \S+ (\S+)", "\n".join(o["body"]))
                pongs.setdefault(x.group(1) if x else "?", []).append(
                    {"from": o["from"], "to": o["to"], "toname": o["toname"]})
                if o["subj"] != "Pong" or o["fromname"] != "Ping Robot" or o["pto"] != o["to"]:
                    stray.append("pong %r" % o)
        for d in ("spool/toss/bad", "spool/toss/route", "spool/toss/pack"):
            stray += b.ls(d)
        stray += [n for n in b.ls("spool/toss/toss") if not n.endswith(".pkt")]
        steps = []
        for p in sc["packs"]:
            for m in p["msgs"]:
                steps.append(dict(k="msg", uid=m["uid"], pkt={"from": p["frm"], "to": p["to"]}, msg=tla_msg(m),
                                  outs=outs.pop(m["uid"], []), pongs=pongs.pop(m["uid"], [])))
        stray += list(outs) + list(pongs)
        steps.append(dict(k="end", uid="end", left=b.ls("bt/pin"), stray=stray, rc=rc))
        return dict(cfg=cfg_of(sc), steps=steps)
