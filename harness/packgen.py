"""P08: queues, packing tables and outbounds for the real ftnpack, and their
abstraction for PackTrace.tla."""
import hashlib, os, random, re, shutil
import ftn, netgen, routegen
from box import Box
from ftn import astr
from netgen import gen_pat, pat_text, MISSING
from tossgen import NOW, NONODE

AKAS = netgen.AKAS
NODES = routegen.NODES
ZONES = [(0, "out"), (1, "out.001"), (2, "out"), (3, "out.003")]
EXTS = {"n": "o", "h": "h", "d": "d", "c": "c"}
OUTS, FLOS = ["hut", "out", "dut", "cut"], ["hlo", "flo", "dlo", "clo"]
DAYS = ["su", "mo", "tu", "we", "th", "fr", "sa"]
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"
BSY = {"live": "%d\n" % 1, "dead": "3999999\n", "empty": "", "garbage": "busy\n"}
STUB = """#!/bin/sh
read n < $1/stub.n
n=$((n+1))
echo $n > $1/stub.n
x=`sed -n ${n}p $1/stub.plan`
case "$x" in f) exit 3;; g) exit 255;; h) exit 1;; k) kill -9 $$;; esac
case $2 in
A) { printf %08d `wc -c < "$4"`; cat "$4"; } >> "$3";;
P) echo "$3 ${4##*/}" >> $1/stub.log;;
esac
exit 0
"""


def gen(seed):
    rng = random.Random(seed)
    akas = [AKAS[0]] + rng.sample(AKAS[1:], rng.choice([0, 1, 2]))
    if rng.random() < 0.3:
        rng.shuffle(akas)
    if rng.random() < 0.15:
        akas[0] = (2, 4500, 10, 5)
    aso = rng.random() < 0.12
    last = rng.choice([35, 35, 9, 15])
    maxk = rng.choice([0, 0, 1, 1, 2])
    disp = rng.choice([0, 0, 1, 2])
    few = rng.sample(NODES, rng.choice([2, 3, 5]))
    lines = []
    if last != 35:
        lines.append("LastArcmailChars %d" % {9: 0, 15: 1}[last])
    defs = dict(zip="arc", rar="arc", feed="prog", feedn="progn")
    for n, k in sorted(defs.items()):
        lines.append('%s %s "%s %s %%s%s"' % (
            k, n, "{r}/stub {r} A" if k == "arc" else "{r}/stub {r} P", "" if k == "arc" else n,
            " %s" if k == "arc" else ""))
    lines = [l.replace("A  %s", "A %s") for l in lines]
    rules, typ = [], "n"
    dirs = ["x1", "x2"]
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.5:
            typ = rng.choice("nee")
            lines.append({"n": "netmail", "e": "EchoMail"}[typ])
        cmd = rng.choice(["pack", "pack", "pack", "rpack", "fpack", "dirpack", "dirmove"])
        arc = rng.choice(["zip", "zip", "zip", "rar", "noarc", "noarc", "feed", "feedn"])
        kind = defs.get(arc, "noarc")
        ps = [gen_pat(rng, few, not k) for k in range(rng.choice([1, 1, 2, 4]))]
        if cmd in ("rpack", "fpack"):
            ps.insert(0, list(rng.choice(NODES))[:3] + [rng.choice([MISSING, 0, 2])])
        if rng.random() < 0.4:
            ps.append([-2] * 4)
        d = rng.choice(dirs) if cmd.startswith("dir") else ""
        size = rng.choice([0, 0, 0, 1, 2])
        l = cmd + (" {r}/" + d if d else "") + ("" if cmd == "dirmove" else " " + arc)
        if size:
            l += " size=%d" % size
        lines.append(l + " " + " ".join(map(pat_text, ps)))
        rules.append(dict(type=typ, cmd=cmd, kind="none" if cmd == "dirmove" else kind, prog=arc, dir=d,
                          max=size * 1024, nodes=ps))
        if rng.random() < 0.05:
            lines.append("pack nosucharc *")
    n = 0
    steps = []
    fdir = rng.choice(["", "", "fa", "/"])
    files = ["a.zip", "B.TXT"]
    same = rng.random() < 0.7
    day = 0
    for r in range(rng.choice([1, 2, 3, 4])):
        packs = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            t = rng.choice("nnneeeet" + ("0" if rng.random() < 0.2 else "e"))
            f = rng.choice("nnnnhcd" + ("x" if rng.random() < 0.2 else "n"))
            to = rng.choice(few if rng.random() < 0.9 else NODES + [(9, 1, 1, 0)])
            msgs = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                subj, attr = "S u%d" % n, rng.choice([0, 1])
                if rng.random() < 0.3:
                    attr |= 0x10
                    subj = rng.choice(files + ["none.zip"])
                    subj = "{r}/fa/" + subj if fdir == "/" else subj
                msgs.append(dict(uid="u%d" % n, subj=subj, attr=attr, frm=list(rng.choice(NODES)), to=list(to),
                                 text=("AREA:A.B\r" if t == "e" else "") + "\x01MSGID: 2:1/2 u%d\r" % n +
                                 "line\r" * rng.choice([1, 40, 250])))
                n += 1
            packs.append(dict(grade=rng.choice("nnna"), type=t, flav=f, frm=list(rng.choice(akas)), to=list(to),
                              pw=rng.choice(["", "old"]), msgs=msgs))
        if rng.random() < 0.1:
            day += 1
        nb = rng.choice([0, 0, 1, 2])
        steps.append(dict(packs=packs, day=day, g=rng.choice("na") if rng.random() < 0.07 else "",
                          bsy=[(list(rng.choice(few)), rng.choice(sorted(BSY))) for _ in range(nb)],
                          plan="".join(rng.choice("oooooofghk") for _ in range(rng.choice([0, 0, 0, 3, 8]))),
                          mail=rng.random(), seed=rng.randrange(1 << 30)))
    return dict(akas=[list(a) for a in akas], aso=aso, last=last, maxk=maxk, viam=rng.random() < 0.3, disp=disp,
                lines=lines, rules=rules, dirs=dirs, steps=steps, fdir=fdir, ign=rng.choice([0, 0, 0, 1]), same=same,
                pw=[dict(node=list(x), pw=rng.choice(["SeCret", "x"])) for x in rng.sample(NODES, 3)], few=[list(x) for x in few])


def dig(m):
    x = re.search(rb"MSGID: \S+ (\S+)\r", m["text"])
    c = repr((m["fnet"], m["fnode"], m["tnet"], m["tnode"], m["attr"], m["cost"], m["date"], m["to_name"],
              m["from_name"], m["subj"], m["text"]))
    return "%s:%s" % (x.group(1).decode() if x else "?", hashlib.md5(c.encode("latin-1")).hexdigest()[:10])


def contents(h):
    return {"from": list(h["frm"]), "to": list(h["to"]), "pw": h["passwd"], "msgs": [dig(m) for m in h["msgs"]]}


NOCONT = {"from": NONODE, "to": NONODE, "pw": "", "msgs": []}


def raw(data):
    return "raw:%d:%s" % (len(data), hashlib.md5(data).hexdigest()[:8])


def arc_pks(data):
    """the packets in an archive of the stub archiver"""
    out, p = [], 0
    while p < len(data):
        try:
            n = int(data[p:p + 8])
            d = data[p + 8:p + 8 + n]
            if len(d) != n:
                raise ValueError
        except ValueError:
            return out + [dict(NOCONT, msgs=[raw(data[p:])])]
        p += 8 + n
        try:
            out.append(contents(ftn.parse_packet(d)))
        except ftn.Bad:
            out.append(dict(NOCONT, msgs=[raw(d)]))
    return out


def file_key(rel, stem, aso):
    """key of a file of the outbound: rel is its directory below the box"""
    parts = rel.split("/")
    if parts[0] == "bt":
        parts = parts[1:]
    key = [parts[0]]
    if len(parts) > 1:
        m = re.match(r"^([0-9a-f]{4})([0-9a-f]{4})\.pnt$", parts[1])
        if not m or len(parts) > 2:
            return None
        key += [int(m.group(1), 16), int(m.group(2), 16)]
    m = re.match(r"^([0-9a-f]{4})([0-9a-f]{4})$", stem)
    if m and not aso:
        return key + [int(m.group(1), 16), int(m.group(2), 16)]
    m = re.match(r"^(\d+)\.(\d+)\.(\d+)\.(\d+)$", stem)
    if m and aso:
        return key + [int(x) for x in m.groups()]
    return None


def node_key(sc, n):
    d = dict(ZONES).get(n[0], "")
    if sc["aso"]:
        return ["out"] + list(n)
    return [d, n[1], n[2]] + ([0, n[3]] if n[3] else [])


def node_file(sc, n, ext):
    k = node_key(sc, n)
    if sc["aso"]:
        return "bt/out/%d.%d.%d.%d.%s" % (tuple(k[1:]) + (ext,))
    if n[3]:
        return "bt/%s/%04x%04x.pnt/%04x%04x.%s" % (tuple(k) + (ext,))
    return "bt/%s/%04x%04x.%s" % (tuple(k) + (ext,))


def arc_ref(sc, rel):
    d, f = os.path.split(rel)
    m = re.match(r"^(.*)\.(su|mo|tu|we|th|fr|sa)([0-9a-z])$", f)
    if m:
        k = file_key(d, m.group(1), sc["aso"])
        if k:
            return ["arc", k, DAYS.index(m.group(2)), DIGITS.index(m.group(3))]
    return ["file", rel]


def flo_lines(b, sc, data):
    out = []
    for l in data.decode("latin-1").split("\n")[:-1]:
        m = " "
        if l[:1] in ("^", "#", "@", "~"):
            m, l = l[0], l[1:]
        l = l[len(b.root) + 1:] if l.startswith(b.root + "/") else l
        out.append(dict(m=m, f=arc_ref(sc, l)))
    if data and not data.endswith(b"\n"):
        out.append(dict(m="!", f=["file", "partial line"]))
    return out


def observe(b, sc, now, stray):
    st = dict(outs=[], arcs=[], flos=[], bsys=[], moved=[], files=[], progs=[])
    q = []
    for n in b.ls("spool/toss/route"):
        f = "spool/toss/route/" + n
        d = b.read(f)
        s = os.stat(b.path(f))
        h = ftn.parse_packet(d)
        q.append((s.st_mtime_ns, n, {"name": n, "from": list(h["frm"]), "to": list(h["to"]), "pw": h["passwd"],
                  "type": n[1], "flav": n[2], "size": len(d),
                  "msgs": [dict(uid=dig(m), attr=m["attr"], subj=m["subj"].replace(b.root + "/", "")) for m in h["msgs"]]}))
    q.sort(key=lambda x: x[:2])
    st["queue"] = [x[2] for x in q]
    for base in ["bt"] + sc["dirs"]:
        for p, ds, fs in os.walk(b.path(base)):
            rel = os.path.relpath(p, b.root)
            if rel in ("bt", "bt/in", "bt/pin"):
                continue
            ds.sort()
            for f in sorted(fs) + [d for d in ds if d[-4:-2] != ".p" and re.search(r"\.\w\w\w$", d) and
                                   d[-3:] in FLOS]:
                full = os.path.join(p, f)
                isdir = os.path.isdir(full)
                data = b"" if isdir else open(full, "rb").read()
                stem, ext = f.rsplit(".", 1) if "." in f else (f, "")
                ref = arc_ref(sc, rel + "/" + f)
                key = file_key(rel, stem, sc["aso"])
                if ref[0] == "arc":
                    stt = os.stat(full)
                    st["arcs"].append(dict(key=ref[1], day=ref[2], digit=ref[3], size=len(data), own=base != "bt",
                                           fresh=len(data) > 0 or now - stt.st_mtime <= 86400, pks=arc_pks(data)))
                elif base != "bt" and ext == "pkt":
                    try:
                        st["moved"].append(dict(contents(ftn.parse_packet(data)), dir=base, name=f))
                    except ftn.Bad as e:
                        stray.append("%s: %s" % (f, e))
                elif key and ext in OUTS:
                    o = dict(NOCONT, key=key, ext=ext, bad=False, empty=not data)
                    if data:
                        try:
                            o.update(contents(ftn.parse_packet(data)))
                        except ftn.Bad:
                            o.update(bad=True, msgs=[raw(data)])
                    st["outs"].append(o)
                elif key and ext in FLOS:
                    st["flos"].append(dict(key=key, ext=ext, bad=isdir, lines=flo_lines(b, sc, data)))
                elif key and ext == "bsy":
                    kinds = [k for k in BSY if BSY[k].encode() == data]
                    st["bsys"].append(dict(key=key, kind=kinds[0] if kinds else "ours"))
                else:
                    stray.append(rel + "/" + f)
    st["files"] = ["fa/" + n for n in b.ls("fa")]
    st["progs"] = [dict(zip(("prog", "name"), l.split())) for l in (b.read("stub.log") or b"").decode().split("\n")[:-1]]
    return st


def mailer(b, sc, step, now):
    """what mailers and the operator do between two runs"""
    rng = random.Random(step["seed"])
    for p, ds, fs in os.walk(b.path("bt")):
        for f in sorted(fs):
            full = os.path.join(p, f)
            ext = f[-3:]
            if ext in OUTS:
                k = rng.random()
                if k < 0.2:
                    os.unlink(full)
                elif k < 0.25:
                    open(full, "wb").close()
                elif k < 0.3:
                    os.truncate(full, max(0, os.path.getsize(full) - 2))
            elif ext in FLOS and rng.random() < 0.6:
                ls = open(full, "rb").read().split(b"\n")[:-1]
                for i, l in enumerate(ls):
                    if l[:1] == b"~" or rng.random() < 0.4:
                        continue
                    name = l.lstrip(b"^#@").decode()
                    if l[:1] == b"#" and os.path.isfile(name):
                        os.truncate(name, 0)
                        t = now - rng.choice([100, 86400 + 5, 3 * 86400])
                        os.utime(name, (t, t))
                    elif l[:1] == b"^" and os.path.isfile(name):
                        os.unlink(name)
                    ls[i] = b"~" + l[1:] if l[:1] in b"^#@" else b"~" + l
                if rng.random() < 0.3:
                    os.unlink(full)
                else:
                    open(full, "wb").write(b"".join(l + b"\n" for l in ls))
            elif ext == "bsy":
                if rng.random() < 0.7:
                    os.unlink(full)
    if rng.random() < 0.08:
        n = rng.choice(sc["few"])
        f = b.path(node_file(sc, n, rng.choice(FLOS)))
        if n[0] in dict(ZONES) and not os.path.exists(f):
            os.makedirs(f)
    # archives of various sizes that are there already
    me = sc["akas"][0]
    if rng.random() < 0.35:
        for n in rng.sample(sc["few"], 1):
            if n[0] not in dict(ZONES):
                continue
            day = DAYS[(4 + step["day"]) % 7]
            if sc["aso"]:
                base = "bt/out/%d.%d.%d.%d" % tuple(n)
            else:
                z = dict(ZONES)[n[0]]
                base = "bt/%s/%04x%04x.pnt/0000%04x" % (z, n[1], n[2], (me[3] - n[3]) & 0xffff) if n[3] else \
                       "bt/%s/%04x%04x" % (z, (me[1] - n[1]) & 0xffff, (me[2] - n[2]) & 0xffff)
            last = sc["last"]
            picks = rng.choice([[0, 1], [0], [last], [last - 1, last], list(range(last + 1)), [3, 5, last],
                                [c for c in range(last + 1) if c != 4]])
            for c in picks:
                rel = "%s.%s%s" % (base, day, DIGITS[c])
                if os.path.exists(b.path(rel)):
                    continue
                sz = rng.choice([0, 100, 1023, 1024, 1100, 2048, 5000, 5000, 5000])
                f = b.write(rel, b"%08d" % (sz - 8) + b"F" * (sz - 8) if sz else b"")
                t = now - rng.choice([100, 86400 + 5])
                os.utime(f, (t, t))
    for n, kind in step["bsy"]:
        if n[0] in dict(ZONES):
            b.write(node_file(sc, n, "bsy"), BSY[kind])


def execute(args):
    sc, bins, shim = args
    conf = "BundleDisp %d\n" % sc["disp"] + ("AmigaStyleOutbound\n" if sc["aso"] else "")
    if sc["maxk"] and not sc["viam"]:
        conf += "MaxArc %d\n" % sc["maxk"]
    if sc["ign"]:
        conf += "IgnoreFileAttach %d\n" % sc["ign"]
    b = Box(bins, [astr(a) for a in sc["akas"]], conf, shim=shim, now=NOW)
    with b:
        b.write("etc/passwd", "".join("packet %s %s\n" % (astr(p["node"]), p["pw"]) for p in sc["pw"]))
        b.write("etc/packing", "".join(l + "\n" for l in sc["lines"]))
        os.chmod(b.write("stub", STUB), 0o755)
        b.write("stub.log", "")
        for d in sc["dirs"] + ["fa", "opkt"]:
            os.makedirs(b.path(d), exist_ok=True)
        for f in ("a.zip", "B.TXT"):
            b.write("fa/" + f, f)
        steps, k = [], 0
        for step in sc["steps"]:
            now = NOW + 86400 * step["day"]
            b.now = now
            mailer(b, sc, step, now)
            for p in step["packs"]:
                n = "%s%s%s%05x.pkt" % (p["grade"], p["type"], p["flav"], 0xffe00 + 7 * k)
                b.write("spool/toss/route/" + n, ftn.packet(p["frm"], p["to"], [
                    dict(frm=m["frm"], to=m["to"], attr=m["attr"], subj=m["subj"].replace("{r}", b.root),
                         text=m["text"].encode("latin-1")) for m in p["msgs"]], p["pw"]))
                k += 1
            for j, n in enumerate(random.Random(step["seed"]).sample(b.ls("spool/toss/route"), len(b.ls("spool/toss/route")))):
                os.utime(b.path("spool/toss/route/" + n), (NOW - 9000 + j, NOW - 9000 + j))
            b.write("stub.n", "0\n")
            b.write("stub.plan", "".join(c + "\n" for c in step["plan"]))
            args = []
            if step["g"]:
                args += ["-g", step["g"]]
            if sc["maxk"] and sc["viam"]:
                args += ["-m", str(sc["maxk"])]
            if sc["fdir"]:
                args += ["-F", "/" if sc["fdir"] == "/" else b.path("fa")]
            if not sc["same"]:
                args += ["-O", b.path("opkt")]
            stray = []
            before = observe(b, sc, now, stray)
            before["plan"] = [c == "o" for c in step["plan"]]
            rc, out, err = b.run("ftnpack", *args)
            after = observe(b, sc, now, stray)
            after["plan"] = []
            stray += b.ls("opkt")
            steps.append(dict(before=before, after=after, rc=rc, stray=stray, day=(4 + step["day"]) % 7,
                              names=[p["name"] for p in before["queue"] if not step["g"] or p["name"][0] == step["g"]]))
        return dict(cfg=dict(akas=sc["akas"], opts=[], pw=[dict(p, upper=p["pw"].upper()) for p in sc["pw"]],
                             zones=[dict(zone=z, dir=d) for z, d in ZONES], aso=sc["aso"], rules=sc["rules"],
                             max=sc["maxk"] * 1024, last=sc["last"], disp=sc["disp"], day=0,
                             fdir={"": "", "/": "/", "fa": "fa"}[sc["fdir"]], ign=sc["ign"], same=sc["same"]),
                    steps=steps)
