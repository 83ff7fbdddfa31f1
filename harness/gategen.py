"""Articles and mails through the real rfc2ftn, for GateTrace"""
import random, re
import ftn
from addrgen import asc, pfnz
from box import Box

AKAS = [[2, 4500, 1, 0], [3, 100, 1, 0], [1, 50, 7, 3], [2, 4500, 8, 0]]
NONE = [-1] * 4
GROUPS = ["news.x", "news.y", "news.x.sub", "fido.a-b", "fido.c.d", "fido.no", "by.one", "by.two", "alt.q", "fido.x"]
WORDS = "the quick brown fox jumps over a lazy dog near old stone bridge by river".split()


def conf(r):
    n = r.randint(1, 4)
    akas = [list(a) for a in r.sample(AKAS, n)]
    ups = [[a[0], a[1] if r.random() < .5 else 5020, r.choice([9, 10]), 0] for a in akas]
    areas = []
    for _ in range(r.randint(2, 9)):
        g = r.choice(GROUPS)
        hier = r.random() < .25
        if hier:
            g = r.choice(["fido.", "by.", "news.x", "fido.c", "alt."])
        areas.append(dict(area=(r.choice(["F.", "BY.", "X_", "Q."]) if hier else r.choice(["X.AREA", "y.area", "SOME.OTHER", "A1", "Z_Z", g.upper()])),
                          group=g, hier=hier, no=r.random() < .12, nox=r.random() < .2, localx=r.random() < .2,
                          zone=r.choice([0, 0, 1, 2, 3, 5]), addr=r.choice(AKAS + [[2, 77, 7, 0]]) if r.random() < .25 else NONE,
                          max=r.choice([-1, -1, 0, 60, 100, 200, 333]), limit=r.choice([-1, -1, -1, 0, 50, 300])))
    bbs, seen = [], set()
    for a in areas:
        nm = a["area"] if not a["hier"] else a["area"] + r.choice(["A", "A_B", "C.D", "ONE", "TWO", "X"])
        if r.random() < .55 and nm.lower() not in seen:
            seen.add(nm.lower())
            ad = r.choice(AKAS) if r.random() < .4 else NONE
            ns = [[r.choice([1, 2, 3]), r.choice([50, 5020, 4500]), r.choice([1, 9, 11]), 0] for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if r.random() < .3:
                ns.insert(0, list(r.choice(akas)))
            bbs.append(dict(area=nm if r.random() < .7 else nm.lower(), zone=r.choice([1, 2, 3]), addr=ad, nodes=ns))
    acl = [dict(kind=k, who="*", what=["*"]) for k in ("News", "Mail") if r.random() < .9]
    for _ in range(r.choice([0, 0, 1, 2])):
        acl.append(dict(kind=r.choice(["News", "News", "Mail"]), who=r.choice(["*@h.com", "joe@*", "joe.user@h.com", "sue@*", "*"]),
                        what=r.choice([["news.*"], ["*", "!news.*"], ["!news.x", "fido.*"], ["fido.*", "by.*"], ["*", "!by.one", "2:*"], ["2:*"], ["*", "!3:*"], ["news.x", "1:50/7"]])))
    hosts = []
    for _ in range(r.choice([0, 0, 1, 3])):
        a = [r.choice([1, 2, 3]), r.choice([50, 5020]), r.choice([1, 2]), r.choice([0, 0, 4])]
        hosts.append(dict(node=a, name=r.choice(["-", "bbs", "box", "www"]), point=r.random() < .3, down=r.random() < .35))
    aliases = []
    for _ in range(r.choice([0, 1, 3])):
        aliases.append(dict(user=r.choice(["joe", "JOE", "x-y", "postmaster", "mc.donald"]), full=r.choice(["Joe Alias", "X Y", "Sys Op"]),
                            node=[r.choice([1, 2]), r.choice([50, 5020]), r.choice([1, 2, 3]), r.choice([0, 0, 4])]))
    dom = ".n4500.z2.fidonet.by"
    zones = [dict(zone=z, dom=d) for z, d in [(0, ".fidonet.org"), (1, ".fidonet.org"), (2, ".fidonet.org"), (3, ".z3.net")] if z or r.random() < .9]
    return dict(aliases=aliases, akas=akas, uplinks=ups, areas=areas, bbs=bbs, check=r.random() < .25, acl=acl,
                max=r.choice([0, 80, 150, 400, 14000]), limit=r.choice([0, 0, 0, 120, 600]),
                xlate=r.choice([[], [dict(a="_", g="-")], [dict(a="_", g="-"), dict(a="-", g="_")]]),
                gateway=r.choice([NONE, NONE, [2, 5020, 99, 0]]), restricted=r.random() < .12,
                fqdn="f1" + dom, origin=r.choice(["Gate", "A longer origin text"]), old=r.random() < .25,
                inet=dict(hostname="f1", domain=dom, hostsdomain=dom, zones=zones, defzone=akas[0][0], hosts=hosts))


def text(r, c, a):
    ls = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12, 20])):
        k = r.random()
        if k < .1:
            s = ""
        elif k < .22:
            s = r.choice(["--- tear", "---", "--- ", " * Origin: fake (1:2/3)", "SEEN-BY: 1/2", "SEEN-BY", " * Origin", "-- ", " --- x", "SEEN-B"])
        elif k < .9:
            s = " ".join(r.choice(WORDS) for _ in range(r.randint(1, 14)))
        else:
            s = "x" * r.randint(1, 420)
        ls.append(dict(text=s, lf=True))
    if r.random() < .08 and ls and ls[-1]["text"]:
        ls[-1]["lf"] = False
    elif r.random() < .4 and ls:          # end exactly at, before or behind a bound
        m = r.choice([x for x in [c["max"], c["limit"]] + [z["max"] for z in c["areas"]] + [z["limit"] for z in c["areas"]] if x > 0] or [100])
        have = sum(len(l["text"]) + 2 for l in ls[:-1])
        want = m * r.choice([1, 1, 1, 2]) - have % m + r.choice([-1, 0, 0, 1]) - 2
        if 0 <= want < 900:
            ls[-1]["text"] = "y" * want
    return ls


def article(r, c):
    host = r.choice(["h.com", "h.com", "x.org", c["fqdn"], c["fqdn"].upper(), "a" + c["inet"]["domain"], ""])
    user = r.choice(["joe", "joe.user", "sue", "Bob.B", "first_last"])
    real = r.choice(["", "Joe User", "Sue"]) if host else ""
    a = dict(user=user, host=host, real=real, groups=[], xpost=False, control=False, rcpt=[], news=True,
             subject=r.choice(["subj", "Re: a question", "x" * 30, "(no subject)"]), lines=text(r, c, None))
    frm = user + ("@" + host if host else "")
    if real:
        frm = "%s <%s>" % (real, frm) if r.random() < .6 else "%s (%s)" % (frm, real)
    hdr = ["From: " + frm]
    if a["subject"] != "(no subject)":
        hdr.append("Subject: " + a["subject"])
    hdr.append("Date: Thu, 01 Jan 2015 00:00:00 +0000")
    if r.random() < .7:
        hdr.append("Message-ID: <%d@h.com>" % r.randint(1, 10 ** 9))
    args = []
    if r.random() < .62:
        gs = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            x = r.choice(c["areas"])
            g = x["group"] + (r.choice(["a", "a-b", "c.d", "one", "two", "x", "", "U_v"]) if x["hier"] else "") if r.random() < .75 else r.choice(GROUPS)
            if r.random() < .1:
                g = g[0] + g[1:].upper()
            if g not in gs:
                gs.append(g)
        a["groups"] = gs
        sep = r.choice([",", ",", ", ", ",\n "])
        a["xpost"] = len(gs) > 1
        hdr.insert(r.randint(0, len(hdr)), "Newsgroups: " + sep.join(gs))
        if r.random() < .07:
            a["control"] = True
            hdr.append("Control: cancel <x@y>")
        if r.random() < .3:
            args = ["-n"]
    else:
        a["news"] = False
        rs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            n = [r.choice([1, 2, 2, 3, 5]), r.choice([50, 5020]), r.choice([1, 2, 3]), r.choice([0, 0, 4])]
            if c["aliases"] and r.random() < .3:
                n = list(r.choice(c["aliases"])["node"])
            elif c["inet"]["hosts"] and r.random() < .5:
                n = list(r.choice(c["inet"]["hosts"])["node"])
            if k < .45:
                h = pfnz(n) + r.choice([z["dom"] for z in c["inet"]["zones"]] or [".fidonet.org"])
            elif k < .6:
                h = asc(n)
            elif k < .75:
                h = r.choice(["bbs", "box" + c["inet"]["domain"], "p3.bbs", "www", "f3.n7"])
            else:
                h = r.choice(["foo.com", "x.fidonet.org", "f1.n1.q2.fidonet.org"])
            u = r.choice(["joe", "first.last", "First.Last", "postmaster", "first_m.last", "a%b.c", "a.b%c.d%e", "x-y", "mc.Donald", "PostMaster"])
            rs.append(dict(user=u, host=h, real="", text=u + "@" + h))
        a["rcpt"] = rs
        if r.random() < .5 and not any(":" in x["host"] for x in rs):
            k = r.randint(1, len(rs))
            hdr.append("To: " + ", ".join(x["text"] for x in rs[:k]))
            if rs[k:]:
                hdr.append(r.choice(["Cc", "Bcc"]) + ": " + ", ".join(x["text"] for x in rs[k:]))
            args = ["-t"] if r.random() < .5 else []
        else:
            hdr.append("To: somebody@else.where")
            args = [x["text"] for x in rs]
    return a, hdr, args


def gen(seed, focus=""):
    r = random.Random("gate" + seed)
    c = conf(r)
    if focus == "parts":                # mostly long texts, small bounds, open areas
        c["max"] = r.choice([60, 80, 150, 400])
        c["limit"] = 0
        c["acl"] = [dict(kind=k, who="*", what=["*"]) for k in ("News", "Mail")]
        for a in c["areas"]:
            a["limit"] = -1
            a["no"] = a["nox"] = a["localx"] = False
    runs = []
    for _ in range(7):
        x = article(r, c)
        if x[0]["news"] and r.random() < .25:       # a batch
            xs = [x] + [y for y in (article(r, c) for _ in range(4)) if y[0]["news"]]
            runs.append(dict(batch=True, args=["-b"], arts=xs))
        else:
            runs.append(dict(batch=False, args=x[2], arts=[x]))
    return dict(cfg=c, runs=runs)


def lines(c):
    s = "".join("Uplink %s\n" % asc(u) for u in c["uplinks"])
    s += "NoFromLine\nNoFSC0035\nMaxMsgSize %d\nLimitMsgSize %d\nOrigin \"%s\"\n" % (c["max"], c["limit"], c["origin"])
    s += "".join("AreasXlate %s %s\n" % ("".join(x["a"] for x in c["xlate"]), "".join(x["g"] for x in c["xlate"])) if c["xlate"] else "")
    for k, v in (("CheckAreasBBS", c["check"]), ("HostsRestricted", c["restricted"]), ("NoFSC0047", c["old"])):
        if v:
            s += k + "\n"
    if c["gateway"][0] > 0:
        s += "Gateway %s\n" % asc(c["gateway"])
    return s


def install(b, c):
    opt = lambda x: (" -H" if x["hier"] else "") + (" -!" if x["no"] else "") + (" -x" if x["nox"] else "") + (" -l" if x["localx"] else "") + \
        (" -z %d" % x["zone"] if x["zone"] else "") + (" -a " + asc(x["addr"]) if x["addr"][0] > 0 else "") + \
        (" -m %d" % x["max"] if x["max"] >= 0 else "") + (" -L %d" % x["limit"] if x["limit"] >= 0 else "")
    b.write("etc/areas", "".join("%s %s%s\n" % (x["area"], x["group"], opt(x)) for x in c["areas"]))
    b.write("var/areas.bbs", "x\n" + "".join("{r}/area/x %s -z %d%s %s\n" % (x["area"], x["zone"], " -a " + asc(x["addr"]) if x["addr"][0] > 0 else "",
                                                                   " ".join(asc(n) for n in x["nodes"])) for x in c["bbs"]))
    b.write("etc/acl", "rfc2ftn\n" + "".join("%s\n%s %s\n" % ("NetMail" if x["kind"] == "Mail" else "EchoMail", x["who"], ",".join(x["what"])) for x in c["acl"]))
    b.write("etc/aliases", "".join("%s %s \"%s\"\n" % (x["user"], asc(x["node"]), x["full"]) for x in c["aliases"]))
    b.write("etc/hosts", "".join("%s %s%s%s\n" % (asc(h["node"]), h["name"], " -p" if h["point"] else "", " -d" if h["down"] else "") for h in c["inet"]["hosts"]))


def message(p, m, group):
    d = dict(area="", split="", splitid="", msgid="", group=0)
    ls = m["text"].decode("latin-1").split("\r")
    k = {}
    body = []
    for i, l in enumerate(ls):
        if l.startswith("\x01"):
            a, _, v = l[1:].partition(" ")
            k.setdefault(a.rstrip(":"), v)
        elif i == 0 and l.startswith("AREA:"):
            d["area"] = l[5:]
        else:
            body.append(l)
    tear = [i for i, l in enumerate(body) if l.startswith("--- FIDOGATE")]
    if not tear or body[-1] != "":
        d["text"], d["foot"] = body, ["no tear line"]
    else:
        d["text"], d["foot"] = body[:tear[-1]], body[tear[-1] + 1:-1]
    f, t = [0, m["fnet"], m["fnode"], int(k.get("FMPT", 0))], [0, m["tnet"], m["tnode"], int(k.get("TOPT", 0))]
    f[0] = t[0] = p["frm"][0]
    if "INTL" in k:
        a, b = k["INTL"].split(" ")
        t[:3], f[:3] = list(ftn.addr(a))[:3], list(ftn.addr(b))[:3]
    if d["area"]:
        t[3] = p["to"][3]
    o = re.search(r" \((\S+)\)$", d["foot"][0]) if d["foot"] else None
    if o and d["area"]:                 # echo mail: the zone and point stand only here
        x = list(ftn.addr(o.group(1)))
        if x[1:3] == f[1:3]:
            f = x
    s = re.match(r"(.*@@\S+ +\d+) +(\d+/\d+) \++$", k.get("SPLIT", ""))
    if s:
        d["splitid"], d["split"] = s.group(1), s.group(2)
    d.update({"from": f, "to": t, "fromname": m["from_name"], "toname": m["to_name"], "private": bool(m["attr"] & 1), "feed": list(p["to"]),
              "subject": m["subj"], "msgid": k.get("MSGID", "")})
    return d


def execute(arg):
    sc, bins = arg
    c = sc["cfg"]
    runs = []
    zones = "".join("Zone %s %s ftn out\n" % (z["zone"] or "default", z["dom"]) for z in c["inet"]["zones"])
    with Box(bins, [asc(a) for a in c["akas"]], lines(c), zones=zones) as b:
        install(b, c)
        for run in sc["runs"]:
            b.clear("spool/outpkt/news", "spool/outpkt/mail")
            a = run["arts"][0][0]
            raw = ""
            for x, hdr, _ in run["arts"]:
                one = "\n".join(hdr) + "\n\n" + "".join(l["text"] + ("\n" if l["lf"] else "") for l in x["lines"])
                raw += ("#! rnews %d\n" % len(one) if run["batch"] else "") + one
            rc, out, err = b.run("rfc2ftn", *run["args"], stdin=raw.encode("latin-1"))
            got = []
            other = "mail" if a["news"] else "news"
            for n, p in b.packets("spool/outpkt/" + ("news" if a["news"] else "mail")):
                if "error" in p:
                    raise RuntimeError("packet: " + p["error"])
                for m in p["msgs"]:
                    got.append(message(p, m, 0))
            g = 0
            for x in got:               # the parts of one message
                if not (x["split"] and not x["split"].startswith("01/")) and not any("part %02d" % q in "".join(x["text"][:3]) for q in range(2, 99)):
                    g += 1
                x["group"] = g
            if b.ls("spool/outpkt/" + other):
                got.append(dict(got[-1] if got else {}, stray=b.ls("spool/outpkt/" + other)))
            runs.append(dict(arts=[x[0] for x in run["arts"]], got=got, status=rc if isinstance(rc, int) else -99))
    cc = dict(c, inet=dict(c["inet"], hosts=[dict(h, name=h["name"] if h["name"] == "-" else h["name"] + c["inet"]["hostsdomain"]) for h in c["inet"]["hosts"]]))
    cc["areas"] = [dict(x, zone=x["zone"] or c["akas"][0][0]) for x in c["areas"]]
    return dict(cfg=cc, runs=runs)
