"""Calls of the address conversions and message ids, for InetTrace and MsgidTrace"""
import random, subprocess
import common
from box import Box

DOMS = [".n4500.z2.fidonet.by", ".site.org", ".z2.fidonet.org", ".gate.de"]
ZDOMS = [".fidonet.org", ".fidonet.by", ".o.net", ".FTN.site.org", ".gate.de"]
NUM = [0, 1, 2, 3, 5, 10, 12, 123, 5020, 32767, 32768, 65535]


def node(r, zs):
    return [r.choice(zs), r.choice(NUM), r.choice(NUM), r.choice([0, 0, 1, 2, 12, 65535])]


def asc(a):
    return "%d:%d/%d" % tuple(a[:3]) + (".%d" % a[3] if a[3] else "")


def pfnz(a):
    return ("p%d." % a[3] if a[3] else "") + "f%d.n%d.z%d" % (a[2], a[1], a[0])


def conf(r):
    dom = r.choice(DOMS)
    hdom = dom if r.random() < .6 else r.choice(DOMS)
    zones = []
    if r.random() < .75:
        zones.append([0, r.choice(ZDOMS)])
    for z in r.sample([1, 2, 3, 9], r.randint(0, 4)):
        zones.insert(r.randint(0, len(zones)), [z, r.choice(ZDOMS)])
    zs = [1, 2, 3, 9]
    hosts = []
    for _ in range(r.randint(0, 6)):
        a = node(r, zs)
        if hosts and r.random() < .3:
            a = list(hosts[-1]["node"])
            a[3] = r.choice([0, 1, 5])
        n = r.choice(["bbs", "p5", "P12", "p1.bbs", "a.b", "f7", "www", "z2", "p", "box%d" % r.randint(1, 9), "px", "f5.n1.z2"])
        full = "-" if r.random() < .15 else (n + r.choice([".com.", ".site.org.", ".x.by."]) if r.random() < .4 else n)
        hosts.append(dict(node=a, name=full, point=r.random() < .4))
    return dict(hostname=r.choice(["f1", "gate", "p3"]), domain=dom, hostsdomain=hdom, zones=zones, defzone=r.choice([1, 2, 9]), hosts=hosts)


def full(c, h):
    n = h["name"]
    return n if n == "-" else n[:-1] if n.endswith(".") else n + c["hostsdomain"]


def case(r, s):
    return s if r.random() < .6 else "".join(x.upper() if r.random() < .5 else x for x in s)


def name(r, c):
    doms = ["", "." + c["hostname"], "." + c["hostname"] + c["domain"], c["domain"], c["hostsdomain"]] + [z[1] for z in c["zones"]]
    if c["hosts"] and r.random() < .4:
        n = full(c, r.choice(c["hosts"]))
        for d in (c["domain"], c["hostsdomain"]):
            if n.endswith(d) and r.random() < .4:
                n = n[:-len(d)]
        n = r.choice(["", "", "p5.", "p12.", "p0.", "p.", "p4294967297.", "pp3.", "p3.p4."]) + n
        return case(r, n + r.choice(["", "", "", ".", ".com", c["domain"]]))
    ls = ["%s%s" % (x, r.choice(NUM)) for x in r.choice(["fnz", "pfnz", "pfnz", "fn", "pfn", "nfz", "zfpn", "fz", "pnz", "n", "f", "fnzz", "ffnz", "pf"])]
    k = r.random()
    if k < .1:
        ls[r.randrange(len(ls))] = r.choice(["f65536", "f4294967297", "n99999999999", "z", "f1a", "x1", "", "f*", "zall", "f-1", "n+2", "f 1"])
    elif k < .15:
        r.shuffle(ls)
    d = r.choice(doms) if r.random() < .8 else r.choice([".com", ".fidonet.orgx", "x.fidonet.org", ".fidonet.org.", ".com.fidonet.org", ".fidonet.org.com"])
    return case(r, ".".join(ls) + d)


def token(r, prev):
    k = r.random()
    a = list(prev) if prev else node(r, [1, 2, 3])
    for i in range(4):
        if r.random() < .35:
            a[i] = r.choice([0, 1, 2, 5, 65535])
    if k < .06:
        return r.choice(["x", "2:5020", "1:2.3", "2:", "/5", "5/", "*", "all", "2:*/1", "5.*", "65536", "2:5020/4294967297", ".", "1/2/3", "1.2.3",
                         "2:1:3", "a1", "2:5020/1.", "World", "1/all", "-5", "+5"]), a
    s = r.choice([asc(a), asc(a), "%d/%d" % (a[1], a[2]), "%d/%d.%d" % (a[1], a[2], a[3]), "%d" % a[2], "%d.%d" % (a[2], a[3]), ".%d" % a[3], "%d:%d/%d.%d" % tuple(a)])
    if r.random() < .08:
        s += "@" + r.choice(["fidonet", "x.org", ""])
    if r.random() < .05:
        s = "0" + s if s[0] != "." else ".0" + s[1:]
    return s, a


def calls(r, c):
    zs = [z[0] for z in c["zones"] if z[0]] + [1, 2, 3, 9, 7]
    out = []
    for _ in range(30):
        k = r.random()
        a = list(r.choice(c["hosts"])["node"]) if c["hosts"] and r.random() < .4 else node(r, zs)
        if r.random() < .4:
            a[3] = r.choice([0, 1, 5, 12])
        if r.random() < .1:
            out.append(dict(op="ZONE", zone=r.choice([1, 2, 3, 9, 7])))
        elif k < .15:
            out.append(dict(op="N2I", node=a, force=r.random() < .5))
        elif k < .35:
            out.append(dict(op="RT", node=a))
        elif k < .65:
            out.append(dict(op="I2N", name=name(r, c)))
        elif k < .75:
            out.append(dict(op="ASC", text=token(r, None)[0], keep=r.random() < .5))
        else:
            ts, p = [], None
            for _ in range(r.randint(1, 9)):
                s, p = token(r, p)
                ts.append(s)
            if r.random() < .8 and ts:
                ts[0] = asc(node(r, zs))
            out.append(dict(op="LIST", tokens=ts))
    return out


def gen(seed):
    r = random.Random("addr" + seed)
    c = conf(r)
    return dict(conf=c, calls=calls(r, c))


class Drv(object):
    def __init__(self, exe, bins, c, conf=""):
        self.box = Box(bins, ["%d:4500/1" % c["defzone"]], conf,
                       host="Hostname %s\nDomain %s\nHostsDomain %s\n" % (c["hostname"], c["domain"][1:], c["hostsdomain"]),
                       zones="".join("Zone %s %s ftn%s out\n" % (z or "default", d, z) for z, d in c["zones"]))
        b = self.box
        b.write("etc/hosts", "# table\n" + "".join("%s %s%s\n" % (asc(h["node"]), h["name"], " -p" if h["point"] else "") for h in c["hosts"]))
        self.p = subprocess.Popen([exe], stdin=-1, stdout=-1, stderr=subprocess.DEVNULL, env=b.env(FGDRV_CONF=b.path("etc/fidogate.conf")))

    def ask(self, *f):
        self.p.stdin.write(("\t".join(str(x) for x in f) + "\n").encode("latin-1"))
        self.p.stdin.flush()
        s = self.p.stdout.readline().decode("latin-1")
        if not s:
            raise RuntimeError("the driver died on %r" % (f,))
        return s.rstrip("\n").split("\t")

    def __enter__(self):
        self.box.__enter__()
        return self

    def __exit__(self, *a):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()
        return self.box.__exit__(*a)


def got(s):
    return [-1] * 4 if s == "-" else [int(x) for x in s.split(" ")[:4]]


def parse(s):
    return [got(x) for x in s.split(",") if x]


def execute(arg):
    sc, exe, bins = arg
    c = sc["conf"]
    cs = []
    with Drv(exe, bins, c) as d:
        for x in sc["calls"]:
            x = dict(x)
            o = x["op"]
            if o == "N2I":
                x["got"] = d.ask("N2I", *(x["node"] + [int(x["force"])]))[0]
            elif o == "RT":
                x["name"] = d.ask("N2I", *(x["node"] + [1]))[0]
                x["got"] = got(d.ask("I2N", x["name"])[0])
            elif o == "ZONE":
                x["got"] = int(d.ask("ZONE", x["zone"])[0])
            elif o == "I2N":
                x["got"] = got(d.ask("I2N", x["name"])[0])
            elif o == "ASC":
                x["got"] = got(d.ask("ASC", x["text"], int(x["keep"]))[0])
            else:
                g = d.ask("LIST", " ".join(x["tokens"]))
                x["got"] = dict(nodes=parse(g[0]), short=g[1].split(), sorted=g[3].split(), passive=[y for y in g[4].split(",") if y])
            cs.append(x)
    cc = dict(c, zones=[dict(zone=z, dom=dm) for z, dm in c["zones"]],
              hosts=[dict(node=h["node"], name=full(c, h), point=h["point"]) for h in c["hosts"]])
    return dict(conf=cc, calls=cs)


# ---- message identifiers ---------------------------------------------------
import zlib
LOCAL = ["abc", "x1y2", "12345678", "1a2b3c4d", "abcdef12", "a", "0abc", "123456789", "1234%fido", "dead%", "funpack.1", "NOMSGID_2=3A1", "NOMSGI_",
         "MSGID_2=3A1=2F2_1234abcd", "MSGID_", "MSGID_a=zz", "MSGID_=4", "MSGID_x=5Fy__z", 'q"uo"te', "a b", "with.dots+plus=eq", "a_b", "MSGIDx", "a%b%c", "ABCDEF"]


def rfcid(r, c):
    host = r.choice(["h.com", "news.example.org", name(r, c) or "x", pfnz(node(r, [1, 2, 3, 9])) + r.choice(ZDOMS), "f1.n2.z2.fidonet.org", ""])
    return "<%s@%s>" % (r.choice(LOCAL), host.replace(" ", "").replace(">", ""))


def ftnid(r):
    a = node(r, [1, 2, 3, 7, 9])
    o = r.choice([asc(a), asc(a) + "@fidonet.org", "%d:%d/%d.%d" % tuple(a), "%d:%d/%d.%d@x" % tuple(a), "%d/%d" % (a[1], a[2]), "UUCP", "x@y.z", "a_b=c", "www.host.org",
                     "<id@host.com>", "<a_b@c>", '"<q b@c.d>"', '"x ""y"" z"', '"open', "65536:1/2", "(=_;,)", "<@>", "<x>", "ab2:5/6c", "2:5020/4294967297", "[]\\", "@1.2"])
    return o + r.choice([" %08x" % r.getrandbits(32), " 1", "", "  2 ", " 1234 abc", " x=y_z"])


def line(r, c):
    k = r.random()
    s = rfcid(r, c)
    if k < .2:
        s = " ".join(rfcid(r, c) for _ in range(r.randint(1, 2))) + " " + s
    elif k < .3:
        s = r.choice([s[1:], s[:-1], s.replace("@", ""), s + " (text)", s + " <", s + " >", "", "x", "<>", "<a@b", "a@b>", s + s])
    return s


def idgen(seed):
    r = random.Random("msgid" + seed)
    c = conf(r)
    out = []
    for _ in range(30):
        k = r.random()
        if k < .5:
            sp = r.random() < .3
            out.append(dict(op="R2F", line=line(r, c), part=r.randint(1, 5) if sp else r.choice([0, 1]), area=r.choice(["", "X.AREA", "FIDO.TEST"]), reply=r.random() < .3,
                            split=sp, m=r.random() < .2, nofido=r.random() < .5))
        elif k < .7:
            out.append(dict(op="F2R", text=ftnid(r), mail=r.random() < .5, nofido=r.random() < .5))
        elif k < .9:
            out.append(dict(op="BACK", text=ftnid(r), mail=r.random() < .5, split=r.random() < .3, nofido=r.random() < .5, reply=r.random() < .5))
        else:
            s = rfcid(r, c)
            out.append(dict(op="ORIG", text=r.choice([s, s + " 1/3", s + "  2/3 x", s[:-1], s + "x", "x y" + s, s + s, "x>", "> ", s + ">"])))
    return dict(conf=c, calls=out)


def serial(text, add):
    return "%08x" % ((zlib.crc32(text.encode("latin-1")) + add) & 0xffffffff)


def idexecute(arg):
    sc, exe, bins = arg
    c = sc["conf"]
    cs, crc = [], {}
    with Drv(exe, bins, c) as d:
        def r2f(text, part, area, reply, split, m, nofido):
            f, i = (d.ask("R2F", text, part, area, int(reply), int(split), int(m), 1, int(nofido)) + [""])[:2]
            return dict(id=i, own=(i == "-" or f != "0"))
        for x in sc["calls"]:
            x = dict(x)
            o = x["op"]
            if o == "R2F":
                s = x["line"]
                s = s[s.rfind("<"):] if "<" in s else s
                s = s[:s.find(">") + 1]
                add = x["part"] - 1 if x["split"] else 0
                crc[(s + x["area"], add)] = serial(s + x["area"], add)
                x["got"] = r2f(x["line"], x["part"], x["area"], x["reply"], x["split"], x["m"], x["nofido"])
            elif o == "F2R":
                z, i = d.ask("F2R", x["text"], 1, int(x["mail"]), 1, int(x["nofido"]), 0, "")
                x["got"] = dict(id=i, zone=int(z))
            elif o == "BACK":
                z, i = d.ask("F2R", x["text"], 0, int(x["mail"]), 1, int(x["nofido"]), 0, "<other@ref>")
                x["rfc"] = i
                x["got"] = r2f(i, 2 if x["split"] else 1, "X.AREA", x["reply"], x["split"], False, x["nofido"])
            else:
                x["got"] = dict(id=d.ask("ORIG", x["text"])[0])
            cs.append(x)
    cc = dict(c, zones=[dict(zone=z, dom=dm) for z, dm in c["zones"]],
              hosts=[dict(node=h["node"], name=full(c, h), point=h["point"]) for h in c["hosts"]])
    return dict(conf=cc, calls=cs, crc=[dict(text=k[0], add=k[1], hex=v) for k, v in sorted(crc.items())])
