"""Packets through the real ftn2rfc, for PostTrace"""
import calendar, email.header, email.utils, random, re, time
import ftn
from addrgen import asc
from box import Box

AKAS = [[2, 4500, 1, 0], [3, 100, 1, 0], [1, 50, 7, 0], [2, 4500, 8, 0]]
NONE = [-1] * 4
AREAS = ["X.AREA", "y.area", "SOME.OTHER", "A1", "Z_Z", "F.ONE", "F.A_B", "BY.C.D", "Q.Q", "NO.WHERE"]
NAMES = ["Joe User", "Sue", "Bob B. Brown", "X Y", "Sys Op", "All", "a", "O'Neil", "Dr: Who", "Tim (Tom)", "q <z>", "me \"too\"", "joe_user", "Joe Alias"]
TONAMES = NAMES + ["UUCP", "Gateway", "uucp", "joe@foo.com", "joe%foo.com", "a@b", "joe@foo.com x", "joe@foo_x", "foo!bar", "<joe@foo.com>", "Joe Alias", "X Y"]
RADDR = ["joe@foo.com", "joe@foo.com (Joe F)", "Joe F <joe@foo.com>", "\"Joe F\" <joe@foo.com>", "foo.com!joe", "joe%foo.com", "joe",
         "joe@f1.n4500.z2.fidonet.by", "sue@n4500.z2.fidonet.by", "x@bbs.N4500.z2.fidonet.by", "a@b (c) d", "joe@xn4500.z2.fidonet.by"]
WORDS = "the quick brown fox jumps over a lazy dog near old stone bridge by river".split()
REASONS = ["insecure", "restricted", "down", "addrinto", "noto"]


def node(r):
    return [r.choice([1, 2, 2, 3, 5]), r.choice([50, 5020]), r.choice([1, 2, 3]), r.choice([0, 0, 4])]


def conf(r):
    akas = [list(a) for a in r.sample(AKAS, r.randint(1, 4))]
    areas = []
    for _ in range(r.randint(2, 8)):
        hier = r.random() < .25
        a = r.choice(["F.", "BY.", "Q.", "X"]) if hier else r.choice(AREAS)
        areas.append(dict(area=a, group=r.choice(["news.x", "fido.y", "by.one", "alt.q", "z"]) + ("." if hier else ""), hier=hier, no=r.random() < .12,
                          nogate=r.random() < .25, addr=list(r.choice(akas if r.random() < .9 else AKAS))))
    pats = ["*", "2:*", "1:50/1.0", "2:5020/*", "3:*", "*/2.0", "*.4", "5:50/3.4", "1:50/1", "2:4500/1.0", "*@z.net"]
    acl = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        k = r.choice(["News", "Mail"])
        acl.append(dict(kind=k, who=r.choice(pats[1:]), what=r.sample(["X*", "A1", "y.area", "F.*", "Q.Q", "Z_Z"] if k == "News" else pats[1:], r.choice([1, 1, 2, 3])) if r.random() < .8 else ["*"]))
    hosts = []
    for _ in range(r.choice([0, 0, 1, 3])):
        hosts.append(dict(node=node(r), name=r.choice(["-", "bbs", "box", "www"]), point=r.random() < .3, down=r.random() < .35))
    al = []
    for _ in range(r.choice([0, 1, 3])):
        al.append(dict(user=r.choice(["joe", "JOE", "x-y", "mc.donald"]), dom=r.choice(["", "", "some.where"]), full=r.choice(["Joe Alias", "X Y", "Sys Op", "Joe User"]),
                       node=list(r.choice(akas)) if r.random() < .4 else node(r)))
    dom = ".n4500.z2.fidonet.by"
    zones = [dict(zone=z, dom=d) for z, d in [(0, ".fidonet.org"), (1, ".fidonet.org"), (2, ".fidonet.org"), (3, ".z3.net")]]
    if r.random() < .3:
        zones = zones[1:]
    f = lambda p: r.random() < p
    return dict(akas=akas, areas=areas, acl=acl, aliases=al, junk=r.choice(["", "", "junk.fido"]), insecure=f(.15), ignore=f(.2), restricted=f(.3),
                noaddr=f(.25), killsplit=f(.3), killno=f(.2), killzone=f(.3), ftnto=f(.4), dots=f(.4), mode=r.choice([0, 1]), single=f(.3),
                tracker=r.choice(["", "", "tracker"]), errors=r.choice(["", "", "errs@foo.com"]), fqdn="f1" + dom,
                xlate=r.choice([[], [dict(a="_", g="-")], [dict(a="_", g="-"), dict(a="-", g="_")]]),
                inet=dict(hostname="f1", domain=dom, hostsdomain=dom, zones=zones, defzone=akas[0][0], hosts=hosts))


def msgid(r, a):
    return "%s%s %08x" % (asc(a), r.choice(["", "", "@fidonet", "@z.net"]), r.randint(0, 2 ** 32 - 1))


def text(r):
    ls = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6, 20])):
        k = r.random()
        ls.append("" if k < .2 else r.choice(["-- ", " --- x", "----", " * Orig", "> quoted", "A: b", " To: q", "Hi, From: z"]) if k < .35 else
                  "x" * r.randint(1, 400) if k < .4 else " ".join(r.choice(WORDS) for _ in range(r.randint(1, 12))))
    return ls


def message(r, c):
    pto = r.choice(c["akas"])
    net = r.random() < .55
    frm = node(r)
    if c["inet"]["hosts"] and r.random() < .4:
        frm = list(r.choice(c["inet"]["hosts"])["node"])
    if c["aliases"] and r.random() < .25:
        frm = list(r.choice(c["aliases"])["node"])
    to = list(r.choice(c["akas"]))
    if c["aliases"] and r.random() < .3:
        to = list(r.choice(c["aliases"])["node"])
    wall = r.randint(1400000000, 1600000000) // 2 * 2
    m = dict(area="" if net else r.choice(AREAS if r.random() < .4 else [a["area"] + (r.choice(["A", "A_B", "C.D", "", "one"]) if a["hier"] else "") for a in c["areas"]] or AREAS),
             to=to, toname=r.choice(TONAMES if net else NAMES), fromname=r.choice(NAMES), subject=r.choice(["subj", "Re: x y", "", "z" * 60, "a: b"]),
             origin="", msgid="", reply="", split="", pid="", oaddr=NONE, maddr=NONE, odom="", mdom="", rfc=[], blank=r.choice([0, 0, 0, 1, 2, 2]), text=text(r), wall=wall, tz=0, tzutc="")
    m["from"] = frm
    if r.random() < .1:
        m["fromname"] = r.choice(["MsgTrack 1.0", "FTrack", "ITrack+", "Mr FTrack"])
    if m["area"] and r.random() < .15:
        m["area"] = m["area"].swapcase()
    if r.random() < .8:
        x = r.random()
        m["msgid"] = msgid(r, frm) if x < .8 else "<%d@foo.com> %08x" % (r.randint(1, 99999), r.randint(1, 2 ** 32 - 1)) if x < .87 else "%s 12345678" % r.choice(["foo", "a@b"]) if x < .93 and c["inet"]["zones"][0]["zone"] == 0 else "<NOMSGID_1@x> 11223344" if x < .96 else msgid(r, [9, 50, 1, 0])
        w = re.match(r"(\d+):(\d+)/(\d+)(?:\.(\d+))?(@\S+)? ", m["msgid"])
        if w:
            m["maddr"] = [int(w.group(k) or 0) for k in (1, 2, 3, 4)]
            m["mdom"] = w.group(5) or ""
    if not net and r.random() < .75:
        m["oaddr"], m["odom"] = node(r), r.choice(["", "", "@fidonet", "@z.net"])
        m["origin"] = " * Origin: %s (%s)" % (r.choice(["A place", "here (or not)", ""]), asc(m["oaddr"]) + m["odom"])
    elif r.random() < .3:
        m["origin"] = " * Origin: no address"
    if r.random() < .4:
        m["reply"] = msgid(r, node(r)) if r.random() < .8 else "<%d@foo.com> 11111111" % r.randint(1, 9999)
    if r.random() < .12:
        m["split"] = "19 Nov 26 12:00:00 @2:50/1   123 01/02 +++++++++++"
    if r.random() < .15:
        m["pid"] = r.choice(["GIGO 1.2", "gecho", "GIGO"])
    if r.random() < .3:
        m["tzutc"] = r.choice(["0100", "-0500", "0000", "0330", "+0300"])
        s = m["tzutc"].lstrip("+-")
        m["tz"] = (int(s[:2]) * 60 + int(s[2:])) * (-1 if m["tzutc"][0] == "-" else 1)
    hs = []
    if net and r.random() < .4:
        hs.append(dict(h="To", v=r.choice(RADDR)))
    if r.random() < .2:
        hs.append(dict(h="From", v=r.choice(RADDR[:-1])))
    if r.random() < .12:
        hs.append(dict(h="Reply-To", v=r.choice(RADDR)))
    if net and r.random() < .1:
        hs.append(dict(h="Cc", v=r.choice(RADDR)))
    if r.random() < .1:
        hs.append(dict(h="Subject", v=r.choice(["other", "re: that"])))
    for h in hs:
        if r.random() < .2:
            h["h"] = h["h"].lower()
    m["rfc"] = hs
    if hs and r.random() < .7:
        m["text"].insert(0, "")
    return m


def gen(seed):
    r = random.Random("post" + seed)
    c = conf(r)
    runs = []
    for _ in range(5):
        ms = [message(r, c) for _ in range(r.choice([1, 2, 3, 6]))]
        pto, pf = list(r.choice(c["akas"])), node(r)
        pf[3] = 0
        for m in ms:
            m["pto"], m["pfrom"] = pto, pf
        runs.append(dict(pto=pto, pfrom=pf, msgs=ms))
    return dict(cfg=c, runs=runs)


def lines(c):
    s = "NoDBCHistory\nRFCAddrMode %s\nAutoCreateNG\n" % "(<"[c["mode"]]
    s = s.replace("AutoCreateNG\n", "")
    for k, v in (("HostsRestricted", c["restricted"]), ("NoAddressInToField", c["noaddr"]), ("KillSplit", c["killsplit"]), ("KillNoMSGID", c["killno"]),
                 ("KillUnknownMSGIDZone", c["killzone"]), ("UseFTNToAddress", c["ftnto"]), ("DotNames", c["dots"]), ("SingleArticles", c["single"])):
        if v:
            s += k + "\n"
    for k, v in (("TrackerMail", c["tracker"]), ("ErrorsTo", c["errors"]), ("FTNJunkGroup", c["junk"])):
        if v:
            s += "%s %s\n" % (k, v)
    return s + ("AreasXlate %s %s\n" % ("".join(x["a"] for x in c["xlate"]), "".join(x["g"] for x in c["xlate"])) if c["xlate"] else "")


def install(b, c):
    b.write("etc/areas", "".join("%s %s%s%s%s -a %s\n" % (x["area"], x["group"], " -H" if x["hier"] else "", " -!" if x["no"] else "", " -g" if x["nogate"] else "", asc(x["addr"])) for x in c["areas"]))
    b.write("etc/acl", "ftn2rfc\n" + "".join("%s\n%s %s\n" % ("NetMail" if x["kind"] == "Mail" else "EchoMail", x["who"], ",".join(x["what"])) for x in c["acl"]))
    b.write("etc/aliases", "".join("%s%s %s \"%s\"\n" % (x["user"], "@" + x["dom"] if x["dom"] else "", asc(x["node"]), x["full"]) for x in c["aliases"]))
    b.write("etc/hosts", "".join("%s %s%s%s\n" % (asc(h["node"]), h["name"], " -p" if h["point"] else "", " -d" if h["down"] else "") for h in c["inet"]["hosts"]))
    b.write("etc/active", "")
    for x in REASONS:
        b.write("etc/bounce." + x, "\nWHY %s\n" % x)


def stamp(m):
    t = time.gmtime(m["wall"])
    return time.strftime("%d %b %y  %H:%M:%S", t)


def onwire(m):
    ks = []
    if m["area"]:
        ks.append("AREA:" + m["area"])
    else:
        f, t = m["from"], m["to"]
        ks.append("\1INTL %s %s" % (asc(t[:3] + [0]), asc(f[:3] + [0])))
        if f[3]:
            ks.append("\1FMPT %d" % f[3])
        if t[3]:
            ks.append("\1TOPT %d" % t[3])
    for k, v in (("MSGID:", m["msgid"]), ("REPLY:", m["reply"]), ("PID:", m["pid"]), ("TZUTC:", m["tzutc"]), ("SPLIT:", m["split"])):
        if v:
            ks.append("\1%s %s" % (k, v))
    ls = ks + [""] * m["blank"] + ["%s: %s" % (h["h"], h["v"]) for h in m["rfc"]] + m["text"]
    if m["area"]:
        ls += ["--- tear", m["origin"] or " * Origin: none", "SEEN-BY: 1/2 3", "\1PATH: 1/2"]
    else:
        ls += ["--- tear"] if len(m["text"]) % 2 else []
        ls += [m["origin"]] if m["origin"] else []
        ls += ["\1Via 1:2/3 x"]
    fr, to = (m["pfrom"], m["pto"]) if m["area"] else (m["from"], m["to"])
    return dict(frm=tuple(fr), to=tuple(to), date=stamp(m), to_name=m["toname"], from_name=m["fromname"], subj=m["subject"], attr=0 if m["area"] else 1,
                text=("\r".join(ls) + "\r").encode("latin-1"))


def unmime(s):
    return "".join(x.decode(c or "latin-1") if isinstance(x, bytes) else x for x, c in email.header.decode_header(s)) if "=?" in s else s


def parse(raw, news):
    head, _, body = raw.decode("latin-1").partition("\n\n")
    hs = {}
    for l in re.sub(r"\n[ \t]+", " ", head).split("\n"):
        k, _, v = l.partition(": ")
        hs.setdefault(k.lower(), unmime(v))
    if "Mailer-Daemon@" in hs.get("from", ""):
        w = re.findall(r"^WHY (\S+)$", raw.decode("latin-1"), re.M)
        return dict(kind="bounce", to=hs.get("to", ""), why=w[0] if w else "")
    d = email.utils.parsedate_tz(hs.get("date", ""))
    return dict(kind="news" if news else "mail", group=hs.get("newsgroups", ""), to=hs.get("x-comment-to" if news else "to", ""), subject=hs.get("subject", ""),
                reply=hs.get("reply-to", ""), cc=hs.get("cc", ""), date=email.utils.mktime_tz(d) if d else 0, id=hs.get("message-id", ""), ref=hs.get("references", ""),
                errors=hs.get("errors-to", ""), text=body.split("\n")[:-1] if body.endswith("\n") or not body else ["no end"] + body.split("\n"), **{"from": hs.get("from", "")})


def broken(why):
    return dict(kind="news", why=why, group="BROKEN " + why)


def execute(arg):
    sc, bins = arg
    c = sc["cfg"]
    runs = []
    zones = "".join("Zone %s %s ftn out\n" % (z["zone"] or "default", z["dom"]) for z in c["inet"]["zones"])
    with Box(bins, [asc(a) for a in c["akas"]], lines(c), zones=zones) as b:
        install(b, c)
        args = (["-t"] if c["insecure"] else []) + (["-i"] if c["ignore"] else [])
        for n, run in enumerate(sc["runs"]):
            b.clear("spool/outrfc/mail", "spool/outrfc/news", "bt/pin")
            p = b.write("bt/pin/%08d.pkt" % n, ftn.packet(tuple(run["pfrom"]), tuple(run["pto"]), [onwire(m) for m in run["msgs"]]))
            rc, out, err = b.run("ftn2rfc", *(args + [p]))
            got = []
            for f in b.ls("spool/outrfc/news"):
                d = b.read("spool/outrfc/news/" + f)
                if c["single"]:
                    got.append(parse(d, True))
                else:
                    while d:
                        w = re.match(rb"#! rnews (\d+)\n", d)
                        if not w or len(d) < w.end() + int(w.group(1)):
                            got.append(broken("batch"))
                            break
                        got.append(parse(d[w.end():w.end() + int(w.group(1))], True))
                        d = d[w.end() + int(w.group(1)):]
            for f in b.ls("spool/outrfc/mail"):
                got.append(parse(b.read("spool/outrfc/mail/" + f), False))
            runs.append(dict(run, got=got, status=rc if isinstance(rc, int) else -99, left=len(b.ls("bt/pin"))))
    cc = dict(c, inet=dict(c["inet"], hosts=[dict(h, name=h["name"] if h["name"] == "-" else h["name"] + c["inet"]["hostsdomain"]) for h in c["inet"]["hosts"]]))
    return dict(cfg=cc, runs=runs)
