"""FTN packet codec and address helpers (independent of /repo's code)."""
import re, struct


class Bad(Exception):
    pass


# ---- addresses: tuples (zone, net, node, point) --------------------------
def addr(s, zone=2):
    m = re.match(r"^(?:(\d+):)?(\d+)/(\d+)(?:\.(\d+))?(?:@.*)?$", s)
    if not m:
        raise Bad("address %r" % s)
    z, n, f, p = m.groups()
    return (int(z) if z else zone, int(n), int(f), int(p or 0))


def astr(a, point0=False):
    s = "%d:%d/%d" % tuple(a[:3])
    return s + (".%d" % a[3] if a[3] or point0 else "")


def diff_list(tokens, zone):
    """parse abbreviated list of addresses -> tuples"""
    out, old = [], [zone, -1, -1, 0]
    for t in tokens:
        m = re.match(r"^(?:(?:(\d+):)?(\d+)/)?(\d+)?(?:\.(\d+))?$", t)
        if not m:
            raise Bad("address %r" % t)
        z, n, f, p = m.groups()
        cur = [int(z) if z else old[0], int(n) if n else old[1],
               int(f) if f else old[2], int(p) if p else 0]
        out.append(tuple(cur))
        old = cur
    return out


# ---- packets -------------------------------------------------------------
def pkt_header(frm, to, passwd="", date=(2026, 10, 19, 12, 0, 0), capword=1,
               aux=0, ozone=None, dzone=None, version=2):
    z0 = frm[0] if ozone is None else ozone
    z1 = to[0] if dzone is None else dzone
    swap = ((capword << 8) & 0xff00) | (capword >> 8)
    pw = passwd.encode("latin-1")[:8].ljust(8, b"\0")
    return struct.pack("<12H2B8s4H2B5H4s",
                       frm[2], to[2], date[0], date[1], date[2], date[3], date[4], date[5],
                       0, version, frm[1], to[1], 0xfe, 5, pw,
                       z0, z1, aux, swap, 0, 1, capword,
                       frm[0], to[0], frm[3], to[3], b"XPKT")


def msg_bytes(m):
    """m: dict frm,to (tuples, net/node used), attr, cost, date(str), to_name,
    from_name, subj, text(bytes)"""
    def b(x):
        return x if isinstance(x, bytes) else x.encode("latin-1")
    d = b(m.get("date", "19 Nov 26  12:00:00"))
    return (struct.pack("<7H", 2, m["frm"][2], m["to"][2], m["frm"][1], m["to"][1],
                        m.get("attr", 0), m.get("cost", 0)) +
            d.ljust(19, b" ")[:19] + b"\0" +
            b(m.get("to_name", "All")) + b"\0" + b(m.get("from_name", "Joe User")) + b"\0" +
            b(m.get("subj", "Test")) + b"\0" + b(m["text"]) + b"\0")


def packet(frm, to, msgs, passwd="", end=True, **kw):
    return pkt_header(frm, to, passwd, **kw) + b"".join(
        msg_bytes(m) for m in msgs) + (b"\0\0" if end else b"")


def parse_packet(data):
    """strict parser; raises Bad on anything not well formed"""
    if len(data) < 60:
        raise Bad("short packet (%d bytes)" % len(data))
    h = struct.unpack("<12H2B8s4H2B5H4s", data[:58])
    hdr = dict(frm=(h[22], h[10], h[0], h[24]), to=(h[23], h[11], h[1], h[25]),
               passwd=h[14].rstrip(b"\0").decode("latin-1"),
               date=h[2:8], version=h[9], capword=h[21], qzones=(h[15], h[16]))
    if h[9] != 2:
        raise Bad("packet version %d" % h[9])
    pos, msgs = 58, []
    while True:
        if pos + 2 > len(data):
            raise Bad("no terminator")
        t = struct.unpack_from("<H", data, pos)[0]
        pos += 2
        if t == 0:
            break
        if t != 2:
            raise Bad("bad message type %d at %d" % (t, pos - 2))
        if pos + 12 + 20 > len(data):
            raise Bad("truncated message header")
        f = struct.unpack_from("<6H", data, pos)
        pos += 12
        date = data[pos:pos + 20]
        if date[19:] != b"\0":
            raise Bad("date field not terminated")
        pos += 20
        ss = []
        for i in range(4):
            e = data.find(b"\0", pos)
            if e < 0:
                raise Bad("unterminated string")
            ss.append(data[pos:e])
            pos = e + 1
        msgs.append(dict(fnode=f[0], tnode=f[1], fnet=f[2], tnet=f[3], attr=f[4], cost=f[5],
                         date=date[:19].decode("latin-1"), to_name=ss[0].decode("latin-1"),
                         from_name=ss[1].decode("latin-1"), subj=ss[2].decode("latin-1"),
                         text=ss[3]))
    if pos != len(data):
        raise Bad("%d bytes after terminator" % (len(data) - pos))
    hdr["msgs"] = msgs
    return hdr


def parse_text(text):
    """split a message text into its control parts; keeps order inside each"""
    lines = text.split(b"\r")
    tail = lines.pop()
    d = dict(area=None, kludges=[], body=[], tear=None, origin=None, seenby=[],
             path=[], via=[], tail=tail.decode("latin-1"), maxctl=0)
    state = 0
    ls = [l.decode("latin-1") for l in lines]
    for l in ls:
        if state == 0:
            if l.startswith("\x01"):
                d["kludges"].append(l[1:])
                continue
            if l.startswith("AREA:") and d["area"] is None:
                d["area"] = l[5:]
                continue
            state = 1
        k = l.lstrip("\n")      # line feeds carry no meaning
        if k.startswith("SEEN-BY:"):
            d["seenby"].append(k[8:])
            d["maxctl"] = max(d["maxctl"], len(k))
        elif k.startswith("\x01PATH:"):
            d["path"].append(k[6:])
            d["maxctl"] = max(d["maxctl"], len(k))
        elif k.startswith("\x01Via"):
            d["via"].append(k[1:])
        else:
            d["body"].append(l)
    if d["tail"].strip("\n") == "":
        d["tail"] = ""
    return d
