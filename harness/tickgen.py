"""File echoes: generator, executor and observer for TickTrace."""
import binascii, hashlib, os, random, re
import areagen, ftn
from areagen import AKAS, FAR, LINKS, NAMES, NEW, NONODE, UPS, atoi
from ftn import astr
from box import Box, DEFZONES
from tossgen import NOW

FLAVW = {"Normal": "normal", "Hold": "hold", "Crash": "crash", "Direct": "direct"}
FILES = ["one.zip", "two.rar", "three.txt", "r50-list.z01", "x_y.arj"]
ODD = ["a;b.zip", "$x.zip", "a'b.zip", "../esc.zip", "sub/f.zip", "..", "a b.zip", "a&b.zip", "%s.zip", "-rf"]
CRLINES = ["-#", "", "-z 2", "-# -l 5", "-r", '-d "from the file net" -#', "-k A"]


def kw(rng, w):
    return rng.choice([w] * 4 + [w.upper(), w.lower()])


def gen_tic(rng, sc, past, now):
    """a TIC (lines), and the file that is to come with it"""
    tab = sc["table"]
    f = rng.choice(FILES)
    if rng.random() < 0.06:
        f = rng.choice(ODD)
    if past and rng.random() < 0.35:
        t = dict(rng.choice(past))                  # again
        t["file"] = rng.choice(["yes"] * 6 + ["no"])
        t["mt"] = now - rng.choice([0, 100, 3601, 7200, 90000])
        r = rng.random()
        if r < 0.2:
            t["lines"] = [l for l in t["lines"] if not l.lower().startswith("crc")] + ["CRC %08X" % rng.getrandbits(32)]
        elif r < 0.3:
            t["lines"] = t["lines"] + ["Origin " + astr(rng.choice(UPS + LINKS))]
        elif r < 0.4:
            t["lines"] = t["lines"] + ["Replaces " + t["name"]]
        elif r < 0.55:
            t["lines"] = t["lines"] + ["Replaces " + rng.choice(["old.zip", "two.rar"])]
        elif r < 0.65 and tab:
            t["lines"] = t["lines"] + ["Area " + rng.choice(tab)["name"]]
        return t
    r = rng.random()
    a = None
    if tab and r < 0.8:
        a = rng.choice(tab)
        area = a["name"]
    elif r < 0.97:
        area = rng.choice(NEW + ["PVT.X", "odd/area", "a b", "%d"])
    else:
        area = None
    src = [p["node"] for p in sc["passwd"]] + LINKS[:1]
    frm = rng.choice(src)
    if a and a["nodes"] and rng.random() < 0.85:
        frm = rng.choice(a["nodes"][:max(1, a["up"])] * 3 + a["nodes"])
    if a is None and frm not in [p["node"] for p in sc["passwd"]] and rng.random() < 0.5 and not sc["tick"]["insecure"]:
        frm = rng.choice(src)
    mine = [p for p in sc["passwd"] if p["node"] == frm and p["ctx"] == sc["pctx"]]
    pw = rng.choice([mine[0]["pw"]] * 8 + [mine[0]["pw"].upper(), "bad", None]) if mine else rng.choice(["X", None, ""])
    org = rng.choice([frm, rng.choice(UPS), [2, 5020, 999, 0]])
    size = rng.choice([1, 10, 100, 5000])
    date = rng.choice([None, NOW - 86400 * 3, NOW - 5, 12345])
    crc = rng.choice(["%08X" % rng.getrandbits(32)] * 5 + ["%x" % rng.getrandbits(32), "0", None])
    announced = rng.choice([size] * 12 + [0, None, size + 1])
    ls = []
    add = lambda k, v: ls.append("%s%s%s" % (kw(rng, k), rng.choice([" ", " ", " ", "\t"]), v))
    add("Created", "by Htick") if rng.random() < 0.5 else None
    if area is not None:
        add("Area", area if rng.random() < 0.7 else area.lower())
    if rng.random() < 0.97:
        add("File", f if rng.random() < 0.6 else f.upper())
    add("Origin", astr(org))
    if rng.random() < 0.97:
        add("From", astr(frm))
    if rng.random() < 0.3:
        add("To", astr(sc["akas"][0]))
    for k in range(rng.choice([0, 1, 1, 2])):
        add("Desc", rng.choice(["A file", "the (best) %d one", "", "x  y", "Desc Desc"]))
    for k in range(rng.choice([0, 0, 1, 3])):
        add("LDesc", rng.choice(["more text %d" % k, " indented", "", "100%"]))
    if crc is not None:
        add("CRC", crc)
    if announced is not None:
        add("Size", announced)
    if date is not None:
        add("Date", rng.choice(["%d", "%d Mon"]) % date)
    for k in range(rng.choice([0, 1, 2])):
        add("Path", rng.choice(["2:5020/999 1200000000 Thu Jan 10 21:20:00 2008 UTC", "2:5020/100 %d" % NOW]))
    for k in range(rng.choice([0, 1, 2, 4])):
        n = rng.choice(LINKS + UPS + AKAS + [frm])
        add("Seenby", astr(n) if rng.random() < 0.9 else astr(n) + " " + astr(rng.choice(LINKS)))
    if pw is not None:
        add("Pw", pw)
    if rng.random() < 0.25:
        old = [x["name"] for x in past] + FILES
        add("Replaces", rng.choice([rng.choice(old), f, rng.choice(old).upper(), "../one.zip", "nofile"]))
    if rng.random() < 0.2:
        ls.append(rng.choice(["", "Unknown thing", "Release 12", "App htick/1", "Magic NODELIST", "   ", "Desk x"]))
    head, tail = ls[:1], ls[1:]
    if rng.random() < 0.3:
        rng.shuffle(tail)
    return dict(lines=head + tail, name=f.lower(), disk=f if rng.random() < 0.7 else f.upper(), size=size,
                file=rng.choice(["yes"] * 8 + ["no", "late"]), mt=now - rng.choice([0, 100, 3601, 7200, 90000]),
                fmt=NOW - rng.choice([10, 86400, 10 ** 6]), crlf=rng.random() < 0.5)


def gen(seed):
    rng = random.Random("tick-%s" % seed)
    ticpw = rng.random() < 0.3
    sc = dict(seed=seed, af=False, akas=AKAS[:rng.choice([1, 1, 2, 3])], lists={}, passwd=[], uplinks=[], pctx="tic" if ticpw else "ff")
    full = rng.random() < 0.6
    for n in rng.sample(LINKS + FAR + UPS, rng.choice([2, 4, 6, 8])):
        key = "$&~%A" if full else "".join(rng.sample("$&~%ABXZ", rng.choice([1, 3, 4, 6])))
        for ctx in (["ff", "tic"] if ticpw and rng.random() < 0.7 else [sc["pctx"] if rng.random() < 0.92 else "af"]):
            sc["passwd"].append(dict(ctx=ctx, node=n, pw=rng.choice(["PASS", "Sesam", "x1", "long%spass"]), lvl=rng.choice([1, 2, 5, 100]), key=key,
                                     g=-1, a=-1, name="Joe", args=rng.choice([4, 4, 4, 4, 0, 2])))
    rng.shuffle(sc["passwd"])
    for n in rng.sample(UPS + FAR[:1], rng.choice([0, 1, 2, 3])):
        sc["uplinks"].append(dict(af=rng.random() < 0.1, node=n, robot=rng.choice(["FileFix", "Allfix"]),
                                  pw=rng.choice(["UPW", "secret"]), items=areagen.gen_pats(rng, sc),
                                  opts=rng.choice(["", "", "-#", "-# -l 3", "-z 2 -k A", '-d "from above" -#', "-r"])))
    sc["robot"] = "Filefix Daemon"
    sc["conf"] = c = dict(fixname=rng.choice(["", "", "MyFix"]), onlyplus=False, ignoreprl=False, badchars=rng.choice(["", "", "+$/"]),
                          autosub=[], forbid=[], forbidfile=[], fechopath=rng.choice(["", "{r}/area/fe", "{r}/area", "{r}/area/fe"]),
                          fstatus=False, availall=False, hashelp=False, reqtmo=0, traftmo=0, autocmd=False)
    if rng.random() < 0.4:
        c["autosub"] = rng.sample(LINKS + UPS, rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        c["forbid"] = rng.sample(["PVT.*", "NEW.T*", "zed", "R50.*"], 1)
    sc["table"] = tab = areagen.gen_table(rng, False, [u["node"] for u in sc["uplinks"]] or UPS[:1])
    for a in tab:
        if not a["pass"] or rng.random() < 0.5:
            a["dir"] = "{r}/area/" + rng.choice([a["name"].lower()] * 4 + ["deep/er"])
        if rng.random() < 0.3:
            a["pass"] = False
            a["dir"] = "{r}/area/" + a["name"].lower()
    sc["first"] = "x"
    t = dict(ticpw=ticpw, insecure=rng.random() < 0.3, dontcheck=rng.random() < 0.3, createline=rng.choice(CRLINES),
             unknown=rng.choice(["", "", "", tab[0]["name"] if tab else "", "NO.SUCH"]), nohist=rng.random() < 0.15,
             killdupe=rng.random() < 0.3, waith=rng.choice([-1, 0, 1, 2]), waitact=rng.choice(["", "delete", "bad", "what"]),
             replignore=rng.random() < 0.2, repldir=rng.choice(["", "", "replaced"]), dontset=rng.random() < 0.2,
             boxes="boxes" if rng.random() < 0.95 else "", hboxes=rng.random() < 0.3,
             flav=rng.choice(["", "", "Hold", "Crash", "Direct", "Normal"]), script=rng.random() < 0.4, addr=rng.random() < 0.05)
    sends = []
    for k in range(rng.choice([0, 0, 1, 2])):
        n = rng.choice(LINKS + UPS)
        pats = [rng.choice([astr(n), "%d:%d/*" % tuple(n[:2]), "%d:*" % n[0], "*"]) for _ in range(rng.choice([1, 2]))]
        sends.append(dict(flav=rng.choice(list(FLAVW)), pats=pats))
    t["sends"] = sends
    t["actions"] = [dict(area=rng.choice([a["name"] for a in tab] or ["X"]), wild=rng.choice(["*", "*.zip", "o*", "TWO.*", "?hree.txt"]),
                         tag="act%d" % k) for k in range(rng.choice([0, 0, 1, 2]))]
    sc["tick"] = t
    runs, now, past = [], NOW, []
    for k in range(rng.choice([1, 2, 3, 4, 5])):
        now += rng.choice([0, 60, 3000, 4000, 86400])
        if rng.random() < 0.15 and tab:
            a = rng.choice(tab)
            runs.append(dict(k="hatch", now=now, area=a["name"] if rng.random() < 0.95 else "NO.AREA", file=rng.choice(FILES[:3]),
                             desc=rng.choice(["Hatched file", "", "new %d"]), repl=rng.choice([None, None, "two.rar"]),
                             put=rng.random() < 0.9, size=rng.choice([1, 77]), fmt=NOW - 999))
            continue
        ts = []
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            x = gen_tic(rng, sc, past, now)
            x["mt"] -= j                                # processed in order of time
            x["late"] = False
            ts.append(x)
            past.append(x)
        runs.append(dict(k="ftntick", now=now, tics=ts, supply=rng.random() < 0.7))
    sc["runs"] = runs
    return sc


def content(size, k):
    return (b"%d-" % k + b"file content " * (size // 13 + 1))[:size]


def base(n, akas):
    """flow file of a node, without extension"""
    z = "out.%03x" % n[0] if n[0] in (1, 3) else "out" if n[0] == 2 else "out.%03x" % n[0]
    p = "bt/%s/%04x%04x" % (z, n[1], n[2])
    return p + (".pnt/0000%04x" % n[3] if n[3] else "")


def num(s):
    return min(atoi(s), 2 ** 31 - 1)


def tic_line(l):
    w = l.lstrip(" \t")
    m = re.match(r"([^ \t]*)(?:[ \t](.*))?$", w, re.S)
    k, a = m.group(1), (m.group(2) or "").lstrip(" \t")
    nd = []
    if k.lower() in ("origin", "from", "seenby"):
        try:
            nd = [list(x) for x in ftn.diff_list(a.split(), 2)]
        except ftn.Bad:
            nd = []
    h = re.match(r"\s*(?:0x)?([0-9a-fA-F]+)", a)
    return dict(k=k, a=a, nd=nd, n=num(a), x=("%x" % int(h.group(1), 16)) if h else "0")


def make_box(sc, bins, shim):
    c, t = sc["conf"], sc["tick"]
    o = ["FileFixName " + c["fixname"]] if c["fixname"] else []
    opt = lambda n, w: o.append(w) if t[n] else None
    opt("ticpw", "EnableTickPassword yes")
    opt("dontcheck", "AutoCreateFileechoDontCheckPassword yes")
    opt("nohist", "NoTicHistory yes")
    opt("killdupe", "KillTickDupe yes")
    opt("replignore", "TickReplacedIgnore yes")
    opt("dontset", "TickDontSetTime yes")
    opt("hboxes", "PassthroughtBoxesFlavours yes")
    opt("boxes", "PassthroughtBoxesDir {r}/boxes")
    opt("repldir", "TickReplacedDir {r}/replaced")
    opt("createline", "AutoCreateFileechoLine " + t["createline"])
    opt("unknown", "UnknownTickArea " + t["unknown"])
    opt("waitact", "TickWaitAction " + t["waitact"])
    opt("flav", "TickFlav " + t["flav"])
    if t["waith"] >= 0:
        o.append("TickWaitHour %d" % t["waith"])
    for a in t["actions"]:
        o.append("TickFileAction %s %s {r}/bin/act %s %%s" % (a["area"], a["wild"], a["tag"]))
    if c["badchars"]:
        o.append("ForbiddenChar " + c["badchars"])
    for x in c["forbid"]:
        o.append("FileFixCreateForbiddenAreas " + x)
    if c["autosub"]:
        o.append("AutoCreateSubscribeFileechoNodes " + " ".join(map(astr, c["autosub"])))
    if c["fechopath"]:
        o.append("AutoCreateFechoPath " + c["fechopath"])
    rt = ["tick"] if t["sends"] else []
    for s in t["sends"]:
        rt.append("send %s %s" % (FLAVW[s["flav"]], " ".join(s["pats"])))
    files = {"etc/passwd": "".join(areagen.pw_line(p) for p in sc["passwd"]),
             "etc/routing": "\n".join(rt) + "\n",
             "etc/uplinks": "".join("%s %s %s %s %s %s\n" % ("af" if u["af"] else "ff", ",".join(i["raw"] for i in u["items"]),
                                                          astr(u["node"]), u["robot"], u["pw"], u["opts"]) for u in sc["uplinks"]),
             "bin/act": '#!/bin/sh\nt=$1; shift\ne=no; [ -f "$*" ] && e=yes\necho "$t $e $*" >> {r}/var/ran\n'}
    for n, ls in sc["lists"].items():
        files["etc/" + n] = "".join("%s %s\n" % (l["raw"], l["desc"]) for l in ls)
    b = Box(bins, [astr(a) for a in sc["akas"]], "\n".join(o) + "\n", files, shim=shim, now=NOW, zones=DEFZONES + "Zone 21 .fidonet.org fidonet out.015\n")
    os.chmod(b.path("bin/act"), 0o755)
    if t["repldir"]:
        os.mkdir(b.path("replaced"))
    b.write("var/fareas.bbs", "\n".join([sc["first"]] + [areagen.put_record(random.Random(sc["seed"] + "r"), a) for a in sc["table"]]) + "\n")
    b.write("var/areas.bbs", "other\n")
    for x in ("dir", "pag"):
        b.write("var/tic_hist." + x, b"")
    b.write("var/tic_hist", b"")
    return b


def rows(data):
    return [l.rstrip("\r") for l in data.decode("latin-1").split("\n")][:-1]


def snapshot(b, toks):
    """what files there are"""
    out = []
    for d, _, fs in os.walk(b.root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, b.root)
            if rel.startswith(("var/", "log/", "lock/", "spool/outpkt/")):
                continue
            with open(p, "rb") as h:
                data = h.read()
            if rel.startswith("boxes/") and re.search(r"/tk\d+\.tic$", rel) or rel.startswith("bt/tick/"):
                c = rows(data)
                for k in range(len(c)):
                    if c[k].startswith("Path ") and (k + 1 == len(c) or not c[k + 1].startswith("Path ")):
                        c[k] = " ".join(c[k].split()[:3])   # ours; the text of the date is of no interest
                if not data.endswith(b"\n"):
                    c.append("?")
            elif "/.desc/" in rel:
                c = rows(data + b"\n")
                if c and not c[-1]:
                    c.pop()
            elif re.match(r"bt/out", rel) and rel.endswith("lo"):
                c = [l.replace(b.root, "{r}") for l in rows(data)]
            else:
                c = [toks.get(data) or "?" + hashlib.sha1(data).hexdigest()]
            out.append(dict(p=rel, c=c, t=int(os.stat(p).st_mtime)))
    return sorted(out, key=lambda x: x["p"])


def history(b):
    out = []
    for l in rows(b.read("var/tic_hist") or b""):
        w = l.split("\t")
        out.append(dict(key=w[0], time=atoi(w[1])) if len(w) == 2 else dict(key=l, time=-2))
    return out


def table(b, stray):
    try:
        tab, first = areagen.parse_table(b.read("var/fareas.bbs"))
        if first != "x":
            stray.append("first line %r" % first)
        for a in tab:
            a["dir"] = a["dir"].replace(b.root + "/", "")
        return tab
    except (ftn.Bad, AttributeError) as e:
        stray.append("table: %s" % e)
        return []


def patterns(t):
    return list(map(list, ftn.diff_list(t, None)))


def cfg_of(sc, b, toks):
    t = sc["tick"]
    s2 = dict(sc, runs=[dict(lines=[t["createline"]])])
    c = areagen.cfg_of(s2, "")
    c["fechopath"] = sc["conf"]["fechopath"].replace("{r}/", "")
    c["ctx"] = sc["pctx"]
    nodes = LINKS + UPS + FAR + AKAS
    rule = []
    for s in t["sends"]:
        rule.append(dict(flav=s["flav"], nodes=[pat(x) for x in s["pats"]]))
    c.update(unknown=t["unknown"], createline=areagen.words(t["createline"]), dontcheck=t["dontcheck"], insecure=t["insecure"],
             ticpw=t["ticpw"], nohist=t["nohist"], killdupe=t["killdupe"], waith=t["waith"], waitact=t["waitact"],
             replignore=t["replignore"], repldir=t["repldir"], dontset=t["dontset"], boxes=t["boxes"], hboxes=t["hboxes"],
             flav=t["flav"] or "Normal", sends=rule, actions=t["actions"], script=t["script"],
             size={v: len(k) for k, v in toks.items()}, crc={v: "%x" % (binascii.crc32(k) & 0xffffffff) for k, v in toks.items()},
             base={"%d:%d/%d.%d" % tuple(n): base(n, sc["akas"]) for n in nodes})
    return c


def pat(s):
    if s == "*":
        return [-2, -2, -2, -2]
    m = re.match(r"(\d+):(\*|\d+)(?:/(\*|\d+))?(?:\.(\d+))?$", s)
    g = [int(m.group(1))] + [-2 if x in ("*", None) else int(x) for x in m.groups()[1:3]]
    return g + [-2 if -2 in g else int(m.group(4) or 0)]


def execute(args):
    sc, bins, shim = args
    t = sc["tick"]
    with make_box(sc, bins, shim) as b:
        steps, toks = [], {}
        cnt = [0]

        def tok(data):
            return toks.setdefault(data, "F%d" % len(toks))
        for run in sc["runs"]:
            b.now = run["now"]
            stray, order = [], []
            # the mailer has taken what was there
            if run["now"] % 3 == 0:
                b.clear("boxes")
            if run["k"] == "ftntick":
                for x in run["tics"]:
                    cnt[0] += 1
                    nm = "%08x.%s" % (cnt[0] * 7919 % 10 ** 7, random.Random("%s%d" % (sc["seed"], cnt[0])).choice(["tic", "tic", "TIC"]))
                    e = "\r\n" if x["crlf"] else "\n"
                    b.write("bt/pin/" + nm, "".join(l + e for l in x["lines"]).encode("latin-1"))
                    os.utime(b.path("bt/pin/" + nm), (x["mt"], x["mt"]))
                    tok(b.read("bt/pin/" + nm))
                    order.append(dict(name=nm, mt=x["mt"], lines=[tic_line(l) for l in x["lines"]]))
                    if x["file"] == "yes" and "/" not in x["disk"] and x["disk"] != "..":
                        if not any(f.lower() == x["disk"].lower() for f in b.ls("bt/pin")):
                            data = content(x["size"], cnt[0])
                            tok(data)
                            b.write("bt/pin/" + x["disk"], data)
                            os.utime(b.path("bt/pin/" + x["disk"]), (x["fmt"], x["fmt"]))
                waiting = [o for o in sum([s["order"] for s in steps], []) if b.read("bt/pin/" + o["name"]) is not None]
                order = sorted({o["name"]: o for o in waiting + order}.values(), key=lambda o: o["mt"])
                if len({o["mt"] for o in order}) < len(order):
                    break                                   # order not determined
            else:
                a = [x for x in sc["table"] if x["name"] == run["area"]]
                if a and run["put"]:
                    p = a[0]["dir"].replace("{r}/", "") + "/" + run["file"]
                    if b.read(p) is None and not p.startswith("-"):
                        data = content(run["size"], 900 + len(toks))
                        tok(data)
                        b.write(p, data)
                        os.utime(b.path(p), (run["fmt"], run["fmt"]))
            before = snapshot(b, toks)
            tab0, hist0, seq0 = table(b, stray), history(b), b.read("var/seq/tick")
            if run["k"] == "ftntick":
                o = ["-t"] if t["insecure"] else []
                o += ["-x", b.path("bin/act") + " script"] if t["script"] else []
                rc, so, se = b.run("ftntick", "-I", b.path("bt/pin"), *o)
            else:
                o = ["-r", run["repl"]] if run["repl"] else []
                rc, so, se = b.run("ftnhatch", *(o + ["--", run["area"], run["file"], run["desc"]]))
            after = snapshot(b, toks)
            reps, reqs, st2 = areagen.observe(b, sc, run)
            stray += st2 + ["reply" for r in reps] + b.ls("lock")
            stray += [x for x in b.ls("var") if x not in ("areas.bbs", "fareas.bbs", "seq", "ran", "tic_hist", "tic_hist.dir", "tic_hist.pag") and
                      not re.match(r"fareas\.o0[1-5]$", x)]
            if b.read("var/areas.bbs") != b"other\n":
                stray.append("areas.bbs")
            ran = []
            for l in rows(b.read("var/ran") or b""):
                w = (l.split(" ", 2) + ["", ""])[:3]
                ran.append(dict(tag=w[0], there=w[1] == "yes", path=w[2].replace(b.root + "/", "")))
            if os.path.exists(b.path("var/ran")):
                os.unlink(b.path("var/ran"))
            steps.append(dict(k=run["k"], now=run["now"], order=order, fs0=before, fs1=after, tab0=tab0, tab1=table(b, stray),
                              hist0=hist0, hist1=history(b), seq0=atoi((seq0 or b"0").decode()), seq1=atoi((b.read("var/seq/tick") or b"0").decode()),
                              ran=ran, reqs=reqs, rc=rc if isinstance(rc, int) else -999, stray=stray,
                              h=dict(area=run["area"], file=run["file"], desc=run["desc"], repl=run["repl"] or "", hasrepl=bool(run["repl"]))
                              if run["k"] == "hatch" else dict(area="", file="", desc="", repl="", hasrepl=False)))
        return dict(cfg=cfg_of(sc, b, toks), steps=steps)
