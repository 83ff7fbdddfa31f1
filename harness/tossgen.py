"""Scenarios for the echomail tosser, their execution by the real ftntoss, and
the abstraction of what happened into a trace for TossTrace.tla."""
import calendar, fnmatch, os, random, re, time
import ftn
from box import Box
from ftn import astr

NOW = 1795089600            # 2026-11-19 12:00:00 UTC
NONODE = [-1, -1, -1, -1]
LINKS = [(2, 4500, 10, 0), (2, 4500, 11, 3), (2, 4500, 1, 5), (2, 4500, 1, 6), (2, 5020, 100, 0),
         (2, 5030, 1, 0), (1, 100, 20, 0), (1, 5030, 1, 0), (3, 700, 2, 0), (2, 5020, 100, 1),
         (2, 4500, 200, 0), (2, 463, 68, 0)]
AKAS = [(2, 4500, 1, 0), (2, 4500, 2, 0), (2, 5000, 9, 0), (1, 100, 1, 0), (3, 700, 1, 0), (2, 463, 9, 7), (1, 4500, 1, 0)]
OTHERS = [(2, 5020, 1042, 0), (2, 5020, 9, 0), (2, 450, 999, 0), (2, 6000, 1, 0), (2, 5030, 2, 0)]
SWITCH = ["DupeCheck", "KillDupe", "KillOld", "KillNoMSGID", "KillUnknown", "KillRouted", "KillInsecure",
          "KillReadonly", "KillCircular", "CheckPath", "AddOtherAKA", "TossEchoMail4D", "NoEmptyPath",
          "UplinkCanBeReadonly", "CheckPointOriginAddr"]
MAXHIST = 14


def ftsdate(t):
    g = time.gmtime(t)
    mon = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[g.tm_mon - 1]
    return "%02d %s %02d  %02d:%02d:%02d" % (g.tm_mday, mon, g.tm_year % 100, g.tm_hour, g.tm_min, g.tm_sec)


def gen_conf(rng, force=(), ban=()):
    akas = [AKAS[0]] + rng.sample(AKAS[1:], rng.choice([0, 0, 1, 1, 2, 3]))
    if rng.random() < 0.1:
        akas[0] = (2, 463, 9, 7)
        akas = list(dict.fromkeys(akas))
    opts = [s for s in SWITCH if rng.random() < (0.75 if s in ("DupeCheck", "CheckPath") else
                                                 0.2)]
    for f in ("-n", "-t", "-p"):
        if rng.random() < 0.08:
            opts.append(f)
    opts = [o for o in opts if o not in ban]
    opts += [o for o in force if o not in opts]
    return dict(akas=akas, opts=opts, pw=[], add=[], del_=[], delp=[], zg=[], ro=[])


def gen_areas(rng, cfg, n, name=lambda i: "AREA.%d" % i):
    out = []
    for i in range(n):
        k = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8])
        nodes = rng.sample(LINKS, k)
        if rng.random() < 0.6:      # one-zone areas are the common case
            nodes = [x for x in nodes if x[0] == 2]
        if rng.random() < 0.1:
            nodes.insert(rng.randrange(len(nodes) + 1), rng.choice(cfg["akas"]))
        if nodes and rng.random() < 0.05:
            nodes.append(nodes[0])
        passive = [x for x in nodes if rng.random() < 0.12]
        if rng.random() < 0.05:
            passive.append(rng.choice(LINKS))
        a = dict(name=name(i), zone=-1, addr=NONODE, uplinks=1, passthru=rng.random() < 0.4,
                 state=list(rng.choice(["", "", "S", "S", "W", "U", "F", "P", "SP"])),
                 nodes=nodes, passive=passive)
        if rng.random() < 0.3:
            a["zone"] = rng.choice([1, 2, 3])
        if rng.random() < 0.2:
            a["addr"] = rng.choice(cfg["akas"] + [(2, 4500, 77, 0)])
        if rng.random() < 0.15:
            a["uplinks"] = rng.choice([2, 3])
        out.append(a)
    return out


def effzone(a):
    if a["zone"] != -1:
        return a["zone"]
    return a["nodes"][0][0] if a["nodes"] else 0


def area_line(a, rng=None):
    s = ("#" if a["passthru"] else "") + "dir%s %s" % (a["name"].lower().replace("/", "_"), a["name"])
    if a["zone"] != -1:
        s += " -z %d" % a["zone"]
    if list(a["addr"]) != NONODE:
        s += " -a %s" % astr(a["addr"])
    if a["uplinks"] != 1:
        s += " -u %d" % a["uplinks"]
    if a["state"]:
        s += " -s %s" % "".join(a["state"])
    if a["passive"]:
        s += " -p %s" % ",".join(astr(x) for x in a["passive"])
    return s + "".join(" " + astr(x) for x in a["nodes"])


def rich_body(rng, body):
    """lines that look like something else, or stress the line reader"""
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.choice(["tear", "origin", "rfc", "blank", "long", "lf", "soft", "ctl", "bytes", "mid"])
        lo = [i for i, l in enumerate(body) if l.startswith("uid ")][0] + 1
        at = rng.randrange(lo, len(body) + 1)
        if k == "tear":
            body[at:at] = [rng.choice(["---", "--- quoted", "--- GoldED"]), "text after"]
        elif k == "origin":
            body[at:at] = [" * Origin: quoted (2:1/1)", "text after"]
        elif k == "mid":
            body[at:at] = ["--- a", " * Origin: b (1:2/3)", "then text"]
        elif k == "rfc":
            # (blank lines in front of such a line change places with it)
            if body[0] != "":
                body[0:0] = [rng.choice(["From: Joe <joe@example.org>", "To: x@y", "Reply-To: a@b.c"])]
        elif k == "blank":
            if lo == 1:
                body[0:0] = [""] * rng.choice([1, 2, 3, 5])
        elif k == "long":
            body[at:at] = [rng.choice("abc") * rng.choice([1023, 1024, 2047, 4096, 15999, 16000, 16001, 40000])]
        elif k == "lf":
            body[at:at] = ["with\nline\nfeeds"]
        elif k == "soft":
            body[at:at] = ["soft\x8dreturn"]
        elif k == "ctl":
            body[lo:lo] = ["\x01Note: inside", "more"]
        else:
            body[at:at] = ["b" + "".join(chr(rng.choice([x for x in range(2, 256) if x not in (10, 13)]))
                                        for _ in range(rng.choice([10, 100])))]
    return body


def gen_msg(rng, cfg, areas, uid, ids, snd=None, area=None):
    a = area or rng.choice(areas)
    known = True
    nm = a["name"]
    if area is None and rng.random() < 0.04:
        nm, known = "NO.SUCH%d" % rng.randrange(3), False
    if snd is None:
        if known and a["nodes"] and rng.random() < 0.85:
            snd = rng.choice(a["nodes"])
        else:
            snd = rng.choice(LINKS)
        if rng.random() < 0.03:
            snd = rng.choice(cfg["akas"])
    # SEEN-BY / PATH
    pool = [x for x in LINKS + OTHERS + cfg["akas"] if x[3] == 0]
    sb = [x[1:] for x in rng.sample(pool, rng.choice([0, 1, 1, 2, 3, 4, 6, len(pool)]))]
    if rng.random() < 0.3 and snd[3] == 0:
        sb.append(snd[1:])
    if snd[3] and rng.random() < 0.5:
        sb = [(snd[1], snd[2], rng.choice([0, snd[3]]))]
    sb = sorted(set(sb)) if rng.random() < 0.8 else sb
    path = [x[1:] for x in rng.sample([y for y in pool if y not in cfg["akas"]], rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.12:
        path.insert(rng.randrange(len(path) + 1), rng.choice(cfg["akas"])[1:])
    if rng.random() < 0.7:
        path.append(snd[1:] if snd[3] == 0 else snd[1:3] + (0,))
    if rng.random() < 0.04:   # long lists: several lines
        sb = sorted(set(sb) | {(5020, 1000 + k, 0) for k in range(rng.choice([20, 60]))})
        path = [(450 + k % 7, 1000 + k, 0) for k in range(20)] + path
    orig = snd if rng.random() < 0.7 else rng.choice(LINKS + OTHERS)
    hasorigin = rng.random() < 0.9
    hasid = rng.random() < 0.85
    orig2 = orig
    t = NOW - rng.choice([60, 3600, 86400, 5 * 86400, 13 * 86400, 20 * 86400, 400 * 86400])
    m = dict(fromname=rng.choice(["Joe User", "Jane Doe", "X"]), toname=rng.choice(["All", "Joe User"]),
             subj=rng.choice(["Hello", "Re: Hello", "A longer subject line: with stuff", ""]),
             date=t, dstr=ftsdate(t), attr=rng.choice([0, 0, 0, 1, 0x100, 0x180]),
             cost=rng.choice([0, 0, 5]), area=nm, araw=nm.lower() if rng.random() < 0.1 else nm,
             hasorigin=hasorigin, hasid=hasid)
    kl = []
    msgid = None
    if hasid:
        if ids and rng.random() < 0.25:
            msgid = rng.choice(ids)
        else:
            msgid = "%s %08x" % (astr(orig2), rng.getrandbits(32))
            ids.append(msgid)
        kl.append("MSGID: " + msgid)
    if rng.random() < 0.5:
        kl.append("PID: test 1.0")
    if rng.random() < 0.3:
        kl.insert(rng.randrange(len(kl) + 1), "REPLY: 2:1/1 12345678")
    if rng.random() < 0.2:
        kl.append("CHRS: IBMPC 2")
    if not kl and m["araw"] is None:
        kl.append("PID: x")
    m["kl"] = kl
    body = ["uid %s" % uid]
    for _ in range(rng.choice([0, 1, 2, 5])):
        body.append(rng.choice(["", "text line", "> quoted", "\xe2\xe5\xf1\xf2 8bit", "a" * 300,
                                "--- not a tear?", "... tagline", " * Originally", "---- more"][: 9]
                               if rng.random() < 0.5 else ["text", "", "more text "]))
    if cfg.get("rich"):
        body = rich_body(rng, body)
    if body[-1].startswith(("---", " * Origin:")):
        body.append("x")
    m["body"] = body
    m["tear"] = [rng.choice(["--- FIDOGATE 5", "--- ", "---", "--- GoldED 1.1"])] if rng.random() < 0.9 else []
    ostr = astr(orig)
    m["origin"] = [" * Origin: Nowhere (%s)" % ostr] if hasorigin else []
    m["sbl"] = sblines(sb) if sb else []
    m["pathl"] = sblines(path) if path else []
    m["seenby"] = [list(x) for x in sb]
    m["path"] = [list(x) for x in path]
    fix_msg(m, orig, msgid)
    return m, snd


def fix_msg(m, orig, msgid):
    if m["hasorigin"]:
        m["orig"] = list(orig)
    elif msgid:
        m["orig"] = list(ftn.addr(msgid.split()[0]))
    else:
        m["orig"] = NONODE
    if msgid:
        m["id"] = "M|" + msgid
    else:
        m["id"] = "N|%s|%d|%s%s%s" % (astr(orig) if m["hasorigin"] else "", m["date"], m["fromname"],
                                      m["toname"], m["subj"])


def sblines(l):
    """abbreviated list, wrapped at < 79 columns"""
    lines, cur, net, last = [], "", None, None
    for x in l:
        tok = "%d" % x[1] + (".%d" % x[2] if x[2] else "")
        if x[0] != net or not cur:
            tok = "%d/%s" % (x[0], tok)
        if len(cur) + len(tok) > 66:
            lines.append(cur.strip())
            cur, tok = "", "%d/%d" % (x[0], x[1]) + (".%d" % x[2] if x[2] else "")
        cur += " " + tok
        net = x[0]
    if cur:
        lines.append(cur.strip())
    return lines


def text_of(m):
    L = ["AREA:" + m["araw"]] + ["\x01" + k for k in m["kl"]] + m["body"] + m["tear"] + m["origin"] + \
        ["SEEN-BY: " + x for x in m["sbl"]] + ["\x01PATH: " + x for x in m["pathl"]]
    return "".join(x + "\r" for x in L).encode("latin-1")


def gen(seed, nareas=12, nmsgs=50, runs=1, force=(), ban=(), extra=None, rich=False, pwcase=False):
    rng = random.Random(seed)
    cfg = gen_conf(rng, force, ban)
    cfg["rich"] = rich
    areas = gen_areas(rng, cfg, nareas)
    names = [a["name"] for a in areas]

    def pat():
        p = rng.choice(["*", "AREA.1*", "AREA.[0-4]", rng.choice(names)])
        return p, [n for n in names if fnmatch.fnmatchcase(n, p)]
    if pwcase:
        cfg["pw"] = [dict(node=list(x), pw=rng.choice(["a", "Pw", "secret", "LongPass", "Pw%d" % k]))
                     for k, x in enumerate(LINKS) if rng.random() < 0.8]
    elif rng.random() < 0.5:
        cfg["pw"] = [dict(node=list(x), pw="Pw%d" % k) for k, x in
                     enumerate(rng.sample(LINKS, rng.choice([1, 3])))]
    rules = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        p, ns = pat()
        nodes = rng.sample(OTHERS + LINKS, rng.choice([1, 2]))
        cfg["add"].append(dict(areas=ns, nodes=[list(x) for x in nodes]))
        rules.append("AddToSeenBy %s %s" % (p, " ".join(astr(x) for x in nodes)))
    for key, nm in (("del_", "DeleteSeenBy"), ("delp", "DeletePath")):
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            nodes = rng.sample([x for x in OTHERS + LINKS if x[3] == 0], rng.choice([1, 2]))
            cfg[key].append(dict(nodes=[list(x) for x in nodes]))
            rules.append("%s %s" % (nm, " ".join(astr(x) for x in nodes)))
    if rng.random() < 0.15:
        g, sb = rng.choice(LINKS), rng.sample([x for x in OTHERS if x[0] == 2], 2)
        cfg["zg"].append(dict(node=list(g), seenby=[list(x) for x in sb]))
        rules.append("ZoneGate %s %s" % (astr(g), " ".join(astr(x) for x in sb)))
    acl = []
    aclon = cfg.get("aclbuild", False)
    if aclon:
        acl = ["echo", "readonly"]
        for _ in range(rng.choice([1, 2, 3])):
            p, ns = pat()
            who, txt = [], []
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.choice(LINKS)
                form = rng.choice(["full", "all", "net", "inv"])
                if form == "full":
                    who.append(dict(pat=list(x), inv=False)); txt.append(astr(x))
                elif form == "inv":
                    who.append(dict(pat=list(x), inv=True)); txt.append("!" + astr(x))
                elif form == "net":
                    who.append(dict(pat=[x[0], x[1], -2, -2], inv=False)); txt.append("%d:%d/*.*" % x[:2])
                else:
                    who.append(dict(pat=[-2] * 4, inv=False)); txt.append("*")
            cfg["ro"].append(dict(areas=ns, who=who))
            acl.append("%s %s" % (",".join(txt), p))
    rl, ids, k = [], [], 0
    for _ in range(runs):
        pk = {}
        for _ in range(nmsgs):
            k += 1
            m, snd = gen_msg(rng, cfg, areas, "m%d" % k, ids)
            to = rng.choice(cfg["akas"]) if rng.random() < 0.93 else rng.choice(OTHERS)
            e = [p for p in cfg["pw"] if tuple(p["node"]) == tuple(snd)]
            pw = e[0]["pw"] if e else ""
            if rng.random() < (0.6 if pwcase else 0.08):
                pw = rng.choice(["", "wrong", pw.upper(), pw + "x", pw[:-1], pw + "00"])[:8]
            pk.setdefault((tuple(snd), tuple(to), pw), []).append(("m%d" % k, m))
        packs = [dict(frm=list(f), to=list(t), passwd=p, msgs=ms) for (f, t, p), ms in pk.items()]
        rng.shuffle(packs)
        rl.append(dict(k="run", packs=packs, maxopen=rng.choice([0, 0, 1, 2, 3, 7])))
    sc = dict(cfg=cfg, areas=areas, rules=rules, acl=acl, runs=rl, seed=seed)
    if extra:
        extra(rng, sc)
    return sc


# ---------------------------------------------------------------------------
def conf_text(sc):
    c = sc["cfg"]
    s = "".join("%s\n" % o for o in c["opts"] if not o.startswith("-"))
    s += "MaxHistory %d\n" % MAXHIST
    return s + "".join(r + "\n" for r in sc["rules"])


def make_box(sc, bins, shim):
    c = sc["cfg"]
    b = Box(bins, [astr(a) for a in c["akas"]], conf_text(sc), shim=shim, now=NOW)
    b.write("etc/passwd", "".join("packet %s %s\n" % (astr(p["node"]), p["pw"]) for p in c["pw"]) +
            sc.get("passwd", ""))
    b.write("etc/ftnacl", "".join(l + "\n" for l in sc["acl"]))
    b.write("var/areas.bbs", "HeaderLine\n" + "".join(area_line(a) + "\n" for a in sc["areas"]))
    return b


def parse_areas(data):
    out = []
    for l in (data or b"").decode("latin-1").split("\n")[1:]:
        w = l.split()
        if len(w) < 2:
            continue
        a = dict(name=w[1], state=[], time=0, passthru=w[0].startswith("#"), nodes=[], passive=[],
                 dir=w[0].lstrip("#"), line=l)
        k = 2
        while k < len(w) and w[k].startswith("-"):
            o = w[k]
            if o in ("-#", "-r"):
                k += 1
                continue
            v = w[k + 1] if k + 1 < len(w) else ""
            if o == "-d" and v.startswith('"'):
                while not (v.endswith('"') and len(v) > 1) and k + 2 < len(w):
                    k += 1
                    v += " " + w[k + 1]
            if o == "-s":
                a["state"] = list(v)
            elif o == "-t":
                a["time"] = int(v)
            a.setdefault("opt", {})[o] = v
            k += 2
        a["nodes"] = [list(x) for x in ftn.diff_list(w[k:], 2)]
        if "-p" in a.get("opt", {}):
            a["passive"] = [list(x) for x in ftn.diff_list(a["opt"]["-p"].split(","), 2)]
        out.append(a)
    return out


def obs_msg(hdr, m):
    """abstract one message found in an output packet"""
    p = ftn.parse_text(m["text"])
    sb, pa, garbled = [], [], []
    for ls, res in ((p["seenby"], sb), (p["path"], pa)):
        for l in ls:
            try:
                res.extend(list(x[1:]) for x in ftn.diff_list(l.split(), 2))
            except ftn.Bad:
                garbled.append(l)
    return dict(**{"from": list(hdr["frm"]), "to": list(hdr["to"])}, pw=hdr["passwd"],
                hfrom=[m["fnet"], m["fnode"]], hto=[m["tnet"], m["tnode"]],
                fromname=m["from_name"], toname=m["to_name"], subj=m["subj"], date=m["date"],
                attr=m["attr"], cost=m["cost"], area=p["area"] or "", kl=p["kludges"],
                body=p["body"] + ([p["tail"]] if p["tail"] else []), sbl=[x.strip() for x in p["seenby"]],
                pathl=[x.strip() for x in p["path"]],
                seenby=sb, path=pa, maxctl=p["maxctl"], via=p["via"], garbled=garbled)


def uid_of(o):
    for l in o["body"]:
        m = re.match(r"^uid (\S+)$", l)
        if m:
            return m.group(1)
    return "?"


def execute(args):
    sc, bins, shim = args
    with make_box(sc, bins, shim) as b:
        steps = []
        c = sc["cfg"]
        flags = [o for o in c["opts"] if o.startswith("-")]
        for run in sc["runs"]:
            now = run.get("now", NOW)
            b.now = now
            if run["k"] == "expire":
                rc, out, err = b.run("ftnexpire", *([] if run["days"] == MAXHIST else ["-m", str(run["days"])]))
                steps.append(dict(k="forget", uid="expire", now=now, days=run["days"], rc=rc))
                continue
            for k, p in enumerate(run["packs"]):
                data = ftn.packet(p["frm"], p["to"], [
                    dict(frm=p["frm"], to=p["to"], attr=m["attr"], cost=m["cost"], date=m["dstr"],
                         to_name=m["toname"], from_name=m["fromname"], subj=m["subj"], text=text_of(m))
                    for _, m in p["msgs"]], passwd=p["passwd"])
                n = "bt/pin/%08d.pkt" % (k if run.get("byname", True) else 9999 - k)
                f = b.write(n, data)
                os.utime(f, (NOW - 100000 + k, NOW - 100000 + k))
            extra = list(flags)
            if run["maxopen"]:
                extra += ["-M", str(run["maxopen"])]
            rc, out, err = b.run("ftntoss", *extra)
            copies, bad, stray = {}, {}, []
            for d, dst in (("spool/toss/toss", copies), ("spool/toss/bad", bad)):
                for n, h in b.packets(d):
                    if "error" in h:
                        stray.append("%s: %s" % (n, h["error"]))
                    for m in h["msgs"]:
                        o = obs_msg(h, m)
                        dst.setdefault(uid_of(o), []).append(o)
                for n in b.ls(d):
                    if not n.endswith(".pkt"):
                        stray.append(n)
            for p in run["packs"]:
                for uid, m in p["msgs"]:
                    mm = dict(m)
                    steps.append(dict(k="msg", uid=uid, now=now, msg=mm,
                                      pkt={"from": p["frm"], "to": p["to"], "passwd": p["passwd"].upper()},
                                      copies=copies.pop(uid, []), bad=bad.pop(uid, [])))
            stray += list(copies) + list(bad)
            steps.append(dict(k="end", uid="end", now=now, left=b.ls("bt/pin"), stray=stray, rc=rc,
                              areas=[dict(name=a["name"], state=a["state"], time=a["time"], nodes=a["nodes"])
                                     for a in parse_areas(b.read("var/areas.bbs"))]))
            b.clear("spool/toss/toss", "spool/toss/bad", "bt/pin", "spool/outpkt")
            os.mkdir(b.path("spool/outpkt/mail")); os.mkdir(b.path("spool/outpkt/news"))
        return abstract(sc, steps)


def abstract(sc, steps):
    c = sc["cfg"]
    cfg = dict(akas=[list(a) for a in c["akas"]], opts=c["opts"],
               pw=[dict(p, upper=p["pw"].upper()) for p in c["pw"]], add=c["add"],
               delp=c["delp"], zg=c["zg"], ro=c["ro"], maxhist=MAXHIST)
    cfg["del"] = c["del_"]
    areas = []
    for a in sc["areas"]:
        x = dict(a, zone=effzone(a), addr=list(a["addr"]), nodes=[list(n) for n in a["nodes"]],
                 passive=[list(n) for n in a["passive"]])
        areas.append(x)
    return dict(cfg=cfg, areas=areas, steps=steps)
