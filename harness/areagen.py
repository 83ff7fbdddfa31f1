"""Area tables, Areafix/Filefix requests and the maintenance commands:
generator, executor, observer for AreaFixTrace."""
import os, random, re
import ftn
from box import Box
from ftn import astr
from netgen import net_obs
from tossgen import NOW

NONODE = [-1, -1, -1, -1]
AKAS = [[2, 4500, 1, 0], [2, 5020, 1, 0], [21, 1, 1, 0]]
LINKS = [[2, 4500, 2, 0], [2, 4500, 3, 0], [2, 4500, 10, 0], [2, 4500, 2, 5]]
UPS = [[2, 5020, 10, 0], [2, 5020, 100, 0], [2, 5020, 1000, 0], [2, 5020, 100, 7]]
FAR = [[3, 100, 5, 0], [21, 1, 2, 0]]
NAMES = ["R50.SYSOP", "PVT.ONE", "N5020.TALK", "TEST", "TEST.A", "FIDO_7", "A", "R50.BONE", "X-FILES", "PVT.TWO"]
NEW = ["NEW.ONE", "NEW.TWO", "R50.NEW", "OFFER", "PVT.NEW", "TEST.B", "ZED"]
WILD = ["*", "R50.*", "*.A", "PVT.*", "TES?", "NEW.*", "TEST*", "N*", "Q*", "?", "R50.?ONE", "[A-F]*", "X-[FG]ILES"]
KEYS = ["A", "AB", "Z", "XY", "A$", "q"]


# -- the words of a line (strtok with "quoted words")
def words(s, delim=" \t\r\n"):
    out, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in delim:
            i += 1
        if i >= n:
            return out
        if s[i] == '"':
            i += 1
            w = ""
            while i < n and s[i] != '"':
                if s[i] == "\\" and i + 1 < n and s[i + 1] == '"':
                    i += 1
                w += s[i]
                i += 1
            i += 1
        else:
            w = s[i]
            i += 1
            while i < n and s[i] not in delim:
                w += s[i]
                i += 1
        out.append(w)


def plainwords(s):
    return s.replace("\t", " ").split(" ") if False else [w for w in re.split(r"[ \t]+", s) if w]


def q(s):
    return '"' + s.replace('"', '\\"') + '"'


def atoi(s):
    m = re.match(r"\s*([+-]?\d+)", s)
    return int(m.group(1)) if m else 0


# -- table
def parse_table(data):
    """[record], first line; independent of the code's reader"""
    ls = data.decode("latin-1").split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    out = []
    for l in ls[1:]:
        w = words(l)
        if len(w) < 2 or w[0].startswith(("#", ";")) and len(w[0]) == 1 and False:
            continue
        r = dict(dir=w[0], name=w[1], ro=False, aka=NONODE, lvl=-1, key="", haskey=False, time=0, en=0, et=0,
                 desc="", hasdesc=False, st="", hasst=False, up=1, zone=-1, passive=[], nodes=[])
        r["pass"] = w[0].startswith("#")
        if r["pass"]:
            r["dir"] = w[0][1:]
        k = 2
        while k < len(w) and w[k].startswith("-"):
            o = w[k]
            if o == "-#":
                r["pass"] = True
            elif o == "-r":
                r["ro"] = True
            else:
                k += 1
                v = w[k] if k < len(w) else ""
                if o == "-a":
                    r["aka"] = list(ftn.addr(v))
                elif o == "-z":
                    r["zone"] = atoi(v)
                elif o == "-l":
                    r["lvl"] = atoi(v)
                elif o == "-k":
                    r["key"], r["haskey"] = v, True
                elif o == "-d":
                    r["desc"], r["hasdesc"] = v, True
                elif o == "-s":
                    r["st"], r["hasst"] = v, True
                elif o == "-p":
                    r["passive"] += [list(x) for x in ftn.diff_list(v.split(","), 2)]
                elif o == "-t":
                    r["time"] = atoi(v)
                elif o == "-e":
                    r["en"] = atoi(v)
                elif o == "-n":
                    r["et"] = atoi(v)
                elif o == "-u":
                    r["up"] = atoi(v)
                else:
                    raise ftn.Bad("option %r in %r" % (o, l))
            k += 1
        ps = [x.startswith("P") for x in w[k:]]
        ns = ftn.diff_list([x.lstrip("P") for x in w[k:]], 2)
        r["nodes"] = [dict(n=list(n), p=p) for n, p in zip(ns, ps)]
        out.append(r)
    return out, ls[0] if ls else ""


def abbrev(rng, nodes, pas=()):
    out, old = [], None
    for n in nodes:
        s = astr(n)
        if old and rng.random() < 0.5:
            if n[0] == old[0]:
                s = s.split(":", 1)[1]
                if n[1] == old[1]:
                    s = s.split("/", 1)[1]
                    if n[2] == old[2] and n[3] and rng.random() < 0.7:
                        s = "." + str(n[3])
        out.append(("P" if n in pas else "") + s)
        old = n
    return out


def put_record(rng, a):
    o = []
    f = "-# " if a["pass"] and rng.random() < 0.3 else ""
    d = ("#" if a["pass"] and not f else "") + a["dir"]
    opt = []
    if a["zone"] != -1:
        opt.append("-z %d" % a["zone"])
    if a["aka"] != NONODE:
        opt.append("-a " + astr(a["aka"]))
    if a["lvl"] != -1:
        opt.append("-l %d" % a["lvl"])
    if a["haskey"]:
        opt.append("-k " + a["key"])
    if a["passive"]:
        opt.append("-p " + ",".join(abbrev(rng, a["passive"])))
    if a["ro"]:
        opt.append("-r")
    if a["time"]:
        opt.append("-t %d" % a["time"])
    if a["en"]:
        opt.append("-e %d" % a["en"])
    if a["et"]:
        opt.append("-n %d" % a["et"])
    if a["hasdesc"]:
        opt.append("-d " + q(a["desc"]))
    if a["hasst"]:
        opt.append("-s " + (a["st"] or '""'))
    if a["up"] != 1:
        opt.append("-u %d" % a["up"])
    if f:
        opt.append("-#")
    rng.shuffle(opt)
    return (" " if rng.random() < 0.6 else "\t").join([d, a["name"]] + opt + abbrev(rng, a["nodes"], a["ppas"]))


def gen_table(rng, af, ups):
    tab = []
    for nm in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4, 5, 6, 8])):
        u = rng.choice(ups + UPS[:2] + rng.choice([AKAS[:1], AKAS]))
        down = rng.sample(LINKS + FAR + UPS, rng.choice([0, 0, 1, 1, 2, 2, 3, 5]))
        down = [x for x in down if x != u]
        nodes = [u] + down
        if rng.random() < 0.08:
            nodes = []
        elif rng.random() < 0.07:
            nodes.append(rng.choice(nodes))     # twice
        ps = [n for n in down if rng.random() < 0.2]
        extra = [n for n in LINKS if n not in nodes and rng.random() < 0.2]
        a = dict(dir=rng.choice(["-", "-", "{r}/area/" + nm.lower()]), name=nm, zone=-1, aka=NONODE, lvl=-1, key="",
                 haskey=False, ro=rng.random() < 0.1, time=0, en=0, et=0, desc="", hasdesc=False, st="", hasst=False,
                 up=1, nodes=nodes, passive=[], ppas=[])
        a["pass"] = rng.random() < 0.6
        for n in ps:
            (a["passive"] if rng.random() < 0.6 else a["ppas"]).append(n)
        a["passive"] += extra
        if rng.random() < 0.35:
            a["zone"] = rng.choice([2, 2, 2, 3, 21, 0, 7])
        if rng.random() < 0.2:
            a["aka"] = rng.choice(AKAS)
        if rng.random() < 0.3:
            a["lvl"] = rng.choice([0, 1, 2, 5, 10, 100])
        if rng.random() < 0.3:
            a["key"], a["haskey"] = rng.choice(KEYS), True
        if rng.random() < 0.6:
            a["time"] = NOW - 86400 * rng.choice([0, 1, 2, 5, 10, 11, 30, 400]) - rng.choice([0, 1, 4000])
        if rng.random() < 0.2:
            a["en"] = rng.choice([1, 5, 10, 20])
        if rng.random() < 0.2:
            a["et"] = rng.choice([1, 5, 10, 20])
        if rng.random() < 0.4:
            a["desc"], a["hasdesc"] = rng.choice(["a b c", "one", 'the "best" one', "", "x -z 3", "semi; colon"]), True
        if rng.random() < 0.85:
            a["st"], a["hasst"] = rng.choice(["S", "S", "S", "S", "U", "U", "W", "F", "P", "SE", "", "FW", "UP"]), True
        if rng.random() < 0.15:
            a["up"] = rng.choice([2, 3, 0])
        tab.append(a)
    return tab


# -- commands
def mkline(raw):
    raw = raw.rstrip(" \t")
    b = raw.lstrip(" \t")
    pct = b.startswith("%")
    x = b[1:] if pct else b
    sign = x[:1] if x[:1] and x[:1] in "+-&~" else ""
    w = "" if sign else re.match(r"[^ \t]{0,31}", x).group(0)
    arg = (x[1:] if sign else x[len(w):]).lstrip(" \t")
    return dict(raw=raw, blank=not b, pct=pct, sign=sign, word=w.lower(), plain=w, arg=arg, full=x,
                ws=words(arg, " \t"), pws=plainwords(arg))


def case(rng, s):
    r = rng.random()
    return s.lower() if r < 0.3 else s.title() if r < 0.4 else s


def area_word(rng, tab, new=0.15, wild=0.2):
    r = rng.random()
    if r < wild:
        return case(rng, rng.choice(WILD))
    if r < wild + new or not tab:
        return case(rng, rng.choice(NEW + NAMES))
    return case(rng, rng.choice(tab)["name"])


def new_opts(rng):
    o = []
    for k in range(rng.choice([0, 0, 1, 1, 2, 3])):
        o.append(rng.choice(["-#", "-p", "-r", "-l %d" % rng.choice([0, 3, 50]), "-k " + rng.choice(KEYS),
                             '-d "a new one"', "-d short", "-z %d" % rng.choice([2, 3, 21]),
                             "-a " + astr(rng.choice(AKAS)), "-s " + rng.choice(["S", "W", "PE"]),
                             "-e %d" % rng.choice([3, 30]), "-n 14"]))
    if rng.random() < 0.04:
        o.append(rng.choice(["-l", "-d", "-q", "-z"]))
    return o


def gen_cmd(rng, sc, mail):
    tab = sc["table"]
    r = rng.random()
    pc = "%" if rng.random() < 0.6 else ""
    if r < 0.30:
        a = area_word(rng, tab, 0.35)
        return rng.choice(["+" + a, "+" + a, "+ " + a, "%+" + a, pc + rng.choice(["subscribe", "SUB", "Sub"]) + " " + a,
                           a if mail else "+" + a])
    if r < 0.52:
        a = area_word(rng, tab)
        return rng.choice(["-" + a, "-" + a, "- " + a, "%-" + a, pc + rng.choice(["unsubscribe", "unsub", "UNSUB"]) + " " + a])
    if r < 0.62:
        return pc + rng.choice(["passive", "pause", "PAUSE"]) + rng.choice(["", " " + area_word(rng, tab)])
    if r < 0.72:
        return pc + rng.choice(["active", "resume"]) + rng.choice(["", " " + area_word(rng, tab)])
    if r < 0.80:
        a = rng.choice(["&", "&", "%new ", "create ", "%CREATE "]) + case(rng, rng.choice(NEW + NEW + NAMES[:2] + ["BAD/NAME", "..", "BAD+ONE"]))
        if rng.random() < 0.05:
            return rng.choice(["&", "%new"])
        return " ".join([a] + new_opts(rng))
    if r < 0.84:
        return rng.choice(["~", "~ ", "%delete ", "delete "]) + area_word(rng, tab)
    if r < 0.97 or not mail:
        return pc + rng.choice(["list", "list", "query", "query", "avail", "avail", "unlinked", "unlinked", "listall", "listall", "help", "HELP",
                                "frobnicate now" if pc else "help"])
    r = rng.random()
    p = rng.choice(sc["passwd"]) if sc["passwd"] else None
    if r < 0.6 and p:
        return rng.choice(["%from ", "%passwd ", "password "]) + astr(p["node"]) + " " + \
            rng.choice([p["pw"], p["pw"].lower(), "wrong"])
    return rng.choice(["%passwd", "%from nobody x", "%password " + astr(rng.choice(LINKS)), " * quoted", "", "   ", "--",
                       "--- tear", "-- ", "---", "\t+TEST", "%bogus", "+"])


def gen_pats(rng, sc, depth=True):
    its = []
    for k in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if depth and r < 0.3:
            nm = "list%d" % (len(sc["lists"]) + 1)
            ls = []
            for j in range(rng.choice([1, 2, 4])):
                neg = rng.random() < 0.15
                p = rng.choice(NEW + NEW + NAMES + ["NEW.*", "PVT.*"])
                p = p.lower() if rng.random() < 0.3 else p
                d = "" if neg or rng.random() < 0.5 else rng.choice(["nice area", "one", "a - b"])
                ls.append(dict(neg=neg, pat=p, raw=("!" if neg else "") + p, desc=d))
            sc["lists"][nm] = ls
            its.append(dict(file=True, neg=False, pat="", raw="%C/" + nm, list=ls))
        else:
            neg = r > 0.88
            p = rng.choice(["*"] * 3 + NEW * 2 + ["NEW.*", "PVT.*", "R50.*", "TEST.?"])
            p = p.lower() if rng.random() < 0.2 else p
            its.append(dict(file=False, neg=neg, pat=p, raw=("!" if neg else "") + p, list=[]))
    return its


def gen(seed):
    rng = random.Random(seed)
    af = rng.random() < 0.75
    nakas = rng.choice([1, 1, 2, 3])
    sc = dict(seed=seed, af=af, akas=AKAS[:nakas], lists={}, passwd=[], uplinks=[])
    ctx = "af" if af else "ff"
    full = rng.random() < 0.5
    for n in rng.sample(LINKS + FAR + UPS[:1], rng.choice([1, 2, 4, 6])):
        key = "".join(rng.sample("$&~%ABXZ", rng.choice([1, 3, 4, 6])))
        if full:
            key = "$&~%A"
        g, a = rng.choice([(-1, -1)] * 5 + [(1, 1), (3, 1), (2, -1), (5, 2), (0, 0), (4, 3)])
        sc["passwd"].append(dict(ctx=ctx if rng.random() < 0.92 else "pkt", node=n, pw=rng.choice(["PASS", "Sesam", "x1"]),
                                 lvl=rng.choice([1, 2, 5, 100]), key=key, g=g, a=a, name=rng.choice(["Joe", "Joe Doe"]),
                                 args=rng.choice([4, 4, 4, 4, 4, 4, 0, 1, 2, 3])))
    for n in rng.sample(UPS + FAR[:1], rng.choice([0, 1, 2, 3])):
        sc["uplinks"].append(dict(af=af if rng.random() < 0.9 else not af, node=n, robot=rng.choice(["AreaFix", "FileFix", "Allfix"]),
                                  pw=rng.choice(["UPW", "secret"]), items=gen_pats(rng, sc),
                                  opts=rng.choice(["", "", "-#", "-# -l 3", "-z 2 -k A", '-d "from above" -#', "-r"])))
    sc["robot"] = "Areafix Daemon" if af else "Filefix Daemon"
    c = dict(fixname=rng.choice(["", "", "MyFix"]), onlyplus=rng.random() < 0.2, ignoreprl=rng.random() < 0.2,
             badchars=rng.choice(["", "", "+$"]), autosub=[], forbid=[], forbidfile=[],
             fechopath="" if af else rng.choice(["", "{r}/area/fe", "{r}/area"]),
             fstatus=rng.random() < 0.3, availall=rng.random() < 0.3, hashelp=rng.random() < 0.4,
             reqtmo=rng.choice([0, 0, 5, 10]), traftmo=rng.choice([0, 0, 5, 10, 30]),
             autocmd=rng.random() < 0.1)
    if rng.random() < 0.3:
        c["autosub"] = rng.sample(LINKS + UPS, rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        c["forbid"] = rng.sample(["PVT.*", "NEW.T*", "zed", "R50.*"], 1)
    if rng.random() < 0.15:
        c["forbidfile"] = ["OFFER", "TEST.*"][:rng.choice([1, 2])]
    sc["conf"] = c
    ups = [u["node"] for u in sc["uplinks"]] or UPS[:1]
    sc["table"] = gen_table(rng, af, ups)
    sc["first"] = rng.choice(["", "x", "d !Me, somewhere", "area root"])
    sc["text"] = "\n".join([sc["first"]] + [put_record(rng, a) for a in sc["table"]]) + "\n"
    runs, now = [], NOW
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        now += rng.choice([0, 60, 86400, 5 * 86400, 11 * 86400])
        r = rng.random()
        who = rng.choice([p["node"] for p in sc["passwd"]] * 3 + LINKS)
        p = [x for x in sc["passwd"] if x["node"] == who and x["ctx"] == ctx]
        opts = []
        if rng.random() < 0.06:
            opts.append("-n")
        if r < 0.30:
            runs.append(dict(prog="ftnaf", now=now, opts=opts, node=who, lines=[gen_cmd(rng, sc, False)]))
        elif r < 0.80:
            pkt = r < 0.55
            msgs = []
            for j in range(rng.choice([1, 1, 1, 2, 3]) if pkt else 1):
                w = who if rng.random() < 0.8 else rng.choice(LINKS)
                pp = [x for x in sc["passwd"] if x["node"] == w and x["ctx"] == ctx]
                subj = [rng.choice([pp[0]["pw"]] * 9 + [pp[0]["pw"].upper(), "bad"]) if pp else "PASS"]
                if rng.random() < 0.1:
                    subj = []
                subj += [o for o in ("-q", "-l", "-Q", "-r") if subj and rng.random() < 0.08]
                lines = [gen_cmd(rng, sc, True) for i in range(rng.choice([1, 2, 3, 5, 8]))]
                if rng.random() < 0.06:
                    lines += ["%list", "%listall", "%unlinked"] * rng.choice([8, 15])
                msgs.append(dict(node=w, name=rng.choice(["Joe User", "Ann"]), subj=subj, lines=lines))
            if rng.random() < 0.07:
                opts.append("-r")
            runs.append(dict(prog="ftnafpkt" if pkt else "ftnafm", now=now, opts=opts, msgs=msgs,
                             xftn=rng.random() < 0.6))
        else:
            runs.append(dict(prog="ftnafutil", now=now, opts=opts,
                             cmd=rng.choice(["delete", "expire", "expire", "expire", "resubscribe", "unresubscribe", "listgwlinks"])))
    sc["runs"] = runs
    return sc


def pw_line(p):
    w = [p["ctx"], astr(p["node"]), p["pw"]]
    g, a = p["g"], p["a"]
    name = '"%s"' % p["name"] if " " in p["name"] else p["name"]
    lim = "" if (g, a) == (-1, -1) else "%d" % g if a == -1 else "%d/%d" % (g, a)
    rest = [str(p["lvl"]), p["key"], name, lim][:p["args"]]
    return " ".join(w + [x for x in rest if x]) + "\n"


def pw_of(p):
    """what the entry grants"""
    k = p["args"]
    lim = k > 3 and (p["g"], p["a"]) != (-1, -1)
    return dict(ctx=p["ctx"], node=p["node"], pw=p["pw"], lvl=p["lvl"] if k > 0 else 1, key=p["key"] if k > 1 else "",
                g=p["g"] if lim else -1, a=p["a"] if lim else -1)


def make_box(sc, bins, shim):
    c = sc["conf"]
    f = "Area" if sc["af"] else "File"
    o = ["AreafixMailer {r}/bin/mailer", "AreaFixHelp {r}/etc/help" if c["hashelp"] else ""]
    if c["fixname"]:
        o.append("%sFixName %s" % (f, c["fixname"]))
    for k, w in (("onlyplus", "AreaFixSubscribeOnlyIfPlus"), ("ignoreprl", "IgnorePRLKey"), ("fstatus", "FStatusAreaFixList"),
                 ("availall", "AreafixAvailPrintsAllAreas")):
        if c[k]:
            o.append(w + " yes")
    if c["badchars"]:
        o.append("ForbiddenChar " + c["badchars"])
    for x in c["forbid"]:
        o.append("%sFixCreateForbiddenAreas %s" % (f, x))
    if c["forbidfile"]:
        o.append("%sFixCreateForbiddenAreasFile {r}/etc/forbid" % f)
    if c["autosub"]:
        o.append(("AutoCreateSubscribeNodes " if sc["af"] else "AutoCreateSubscribeFileechoNodes ") + " ".join(map(astr, c["autosub"])))
    if c["fechopath"]:
        o.append("AutoCreateFechoPath " + c["fechopath"])
    if c["reqtmo"]:
        o.append("%sFixRequestTimeout %d" % (f, c["reqtmo"]))
    if c["traftmo"]:
        o.append("%sFixNoTrafficTimeout %d" % (f, c["traftmo"]))
    files = {"etc/help": "How to use it:\n\n  +AREA    subscribe  100% sure\n  -AREA\n",
             "etc/forbid": "\n".join(c["forbidfile"]) + "\n",
             "etc/passwd": "".join(pw_line(p) for p in sc["passwd"]),
             "etc/uplinks": "".join("%s %s %s %s %s %s\n" % ("af" if u["af"] else "ff", ",".join(i["raw"] for i in u["items"]),
                                                          astr(u["node"]), u["robot"], u["pw"], u["opts"])
                                    for u in sc["uplinks"]),
             "bin/mailer": "#!/bin/sh\ncat > {r}/var/mail\n"}
    for n, ls in sc["lists"].items():
        files["etc/" + n] = "".join("%s %s\n" % (l["raw"], l["desc"]) for l in ls)
    b = Box(bins, [astr(a) for a in sc["akas"]], "\n".join(o) + "\n", files, shim=shim, now=NOW)
    os.chmod(b.path("bin/mailer"), 0o755)
    b.write("var/areas.bbs" if sc["af"] else "var/fareas.bbs", sc["text"])
    b.write("var/fareas.bbs" if sc["af"] else "var/areas.bbs", "other\n")
    return b


def norm(lines):
    out = []
    for l in "\n".join(lines).replace("\r", "\n").split("\n"):
        l = re.sub(r"\s+", " ", re.sub(r"\s+:\s", ": ", l + " ")).strip()
        if l:
            out.append(l)
    return out


def cfg_of(sc, root):
    c = sc["conf"]
    num, adr = {"_": 0}, {"_": NONODE}
    ws = set()
    for r in sc["runs"]:
        for l in (r.get("lines") or []) + [x for m in r.get("msgs", []) for x in m["lines"]]:
            ws |= set(words(l)) | set(plainwords(l))
    for u in sc["uplinks"]:
        ws |= set(words(u["opts"]))
    for w in ws:
        num[w] = atoi(w)
        try:
            adr[w] = list(ftn.addr(w))
        except ftn.Bad:
            pass
    return dict(af=sc["af"], ctx="af" if sc["af"] else "ff", passwd=[pw_of(p) for p in sc["passwd"]],
                uplinks=[dict(af=u["af"], node=u["node"], robot=u["robot"], pw=u["pw"], opts=words(u["opts"]), items=u["items"])
                         for u in sc["uplinks"]],
                robot=sc["robot"], fixname=c["fixname"], onlyplus=c["onlyplus"], ignoreprl=c["ignoreprl"],
                badchars=c["badchars"], forbid=c["forbid"] + c["forbidfile"], autosub=c["autosub"],
                fechopath=c["fechopath"].replace("{r}", root), fstatus=c["fstatus"], availall=c["availall"],
                hashelp=c["hashelp"], help=norm(["How to use it:", "  +AREA    subscribe  100% sure", "-AREA"]),
                now=0, num=num, addr=adr, reqtmo=c["reqtmo"], traftmo=c["traftmo"], akas=sc["akas"])


def observe(b, sc, run):
    """replies and requests made"""
    reps, reqs, stray = [], [], []
    for n, h in b.packets("spool/outpkt"):
        if "error" in h:
            stray.append("%s: %s" % (n, h["error"]))
        for m in h["msgs"]:
            o = net_obs(h, m)
            body = norm([l for l in o["body"] if not l.startswith("--- ")])
            if o["from"] not in sc["akas"]:
                stray.append("from %s" % o["from"])
            if o["area"]:
                stray.append("area")
            if o["subj"] == "Your %s Request" % sc["robot"] and o["fromname"] == sc["robot"]:
                if len(body) > 4096:
                    stray.append("long")
                reps.append(dict(to=o["to"], name=o["toname"], lines=body))
            else:
                if o["subj"] == "Notify":
                    body = norm([re.sub(r"\s*\n\s*Reason:", " Reason:", "\n".join(body))])
                reqs.append(dict(h=dict(to=o["to"], name=o["toname"], subj=o["subj"], **{"from": o["fromname"]}), lines=body))
    for n in b.ls("spool/outpkt"):
        if n not in ("mail", "news") and not n.endswith(".pkt"):
            stray.append(n)
    b.clear("spool/outpkt")
    for d in ("mail", "news"):
        os.makedirs(b.path("spool/outpkt/" + d), exist_ok=True)
    return reps, reqs, stray


def execute(args):
    sc, bins, shim = args
    with make_box(sc, bins, shim) as b:
        tabf = "var/areas.bbs" if sc["af"] else "var/fareas.bbs"
        other = "var/fareas.bbs" if sc["af"] else "var/areas.bbs"
        steps = []
        for run in sc["runs"]:
            b.now = run["now"]
            before = b.read(tabf)
            baks = [b.read(tabf[:-3] + "o%02d" % k) for k in range(1, 6)]
            fl = [] if sc["af"] else ["-F"]
            out = []
            mail = None
            if run["prog"] == "ftnaf":
                rc, so, se = b.run("ftnaf", *(fl + run["opts"] + ["--", astr(run["node"]), run["lines"][0]]))
                out = so.decode("latin-1").split("\n")
            elif run["prog"] == "ftnafm":
                m = run["msgs"][0]
                p = m["node"]
                dom = "%sf%d.n%d.z%d.fidonet.org" % ("p%d." % p[3] if p[3] else "", p[2], p[1], p[0])
                hd = "From: %s@%s (%s)\n" % (m["name"].replace(" ", "_"), dom, m["name"])
                if run["xftn"]:
                    hd += "X-FTN-From: %s @ %s\n" % (m["name"], astr(p))
                hd += "To: areafix@here\nSubject: %s\n\n" % " ".join(m["subj"])
                rc, so, se = b.run("ftnaf", "-m", *(fl + run["opts"]),
                                   stdin=(hd + "".join(l + "\n" for l in m["lines"])).encode("latin-1"))
                mail = b.read("var/mail")
                if mail is not None:
                    os.unlink(b.path("var/mail"))
            elif run["prog"] == "ftnafpkt":
                for k, m in enumerate(run["msgs"]):
                    to = sc["akas"][0]
                    kl = "\1INTL %s %s\r" % (astr(to), astr(m["node"][:3] + [0]))
                    if m["node"][3]:
                        kl += "\1FMPT %d\r" % m["node"][3]
                    m["text"] = kl + "".join(l + "\r" for l in m["lines"])
                b.write("bt/pin/00000001.pkt", ftn.packet(run["msgs"][0]["node"], sc["akas"][0], [
                    ftn_msg(m, sc["akas"][0]) for m in run["msgs"]]))
                rc, so, se = b.run("ftnafpkt", "-I", b.path("bt/pin"), *(fl + run["opts"]))
            else:
                rc, so, se = b.run("ftnafutil", *(fl + run["opts"] + [run["cmd"]]))
                out = so.decode("latin-1").split("\n")
            after = b.read(tabf)
            reps, reqs, stray = observe(b, sc, run)
            if mail is not None:
                h, _, t = mail.decode("latin-1").partition("\n\n")
                to = re.search(r"^To: (.*)$", h, re.M)
                out = t.split("\n")
                if "Subject: Your %s request" % sc["robot"] not in h:
                    stray.append("mail header %r" % h)
                mail = to.group(1) if to else "?"
            if b.ls("bt/pin"):
                stray += b.ls("bt/pin")
            stray += [x for x in b.ls("var") if x not in ("areas.bbs", "fareas.bbs", "seq", "mail") and
                      not re.match(r"f?areas\.o0[1-5]$", x)]
            if b.read(other) != b"other\n":
                stray.append(other)
            stray += [x for x in b.ls("lock")]
            now_baks = [b.read(tabf[:-3] + "o%02d" % k) for k in range(1, 6)]
            t0, f0 = parse_table(before)
            try:
                t1, f1 = parse_table(after or b"")
            except ftn.Bad as e:
                t1, f1 = [], "?"
                stray.append(str(e))
            bakok = now_baks == ([before] + baks[:4]) if after != before else \
                now_baks in (baks, [before] + baks[:4])
            if "-n" in run["opts"]:
                bakok = now_baks == baks
            msgs = [dict(node=m["node"], name=m["name"], subj=m["subj"], lines=[mkline(l) for l in m["lines"]]) for m in run.get("msgs", [])]
            steps.append(dict(k=run["prog"], now=run["now"], norewrite="-n" in run["opts"], noreply="-r" in run["opts"],
                              node=run.get("node", NONODE), line=mkline(run["lines"][0]) if "lines" in run else mkline(""),
                              msgs=msgs, cmd=run.get("cmd", ""), before=t0, after=t1, first=f0 == f1, same=before == after,
                              bak=bakok, out=norm(out), reps=reps, reqs=reqs, rc=rc if isinstance(rc, int) else -999,
                              mailed=mail or "", stray=stray))
        return dict(cfg=cfg_of(sc, b.root), steps=steps)


def ftn_msg(m, to):
    d = dict(frm=m["node"], to=to, attr=1, to_name="AreaFix", from_name=m["name"], subj=" ".join(m["subj"]), text=m["text"].encode("latin-1"))
    return d
