"""Damaged packets for PacketTrace.tla"""
import os, random, struct
import ftn, tossgen
from box import Box
from ftn import astr

FRM, TO = (2, 4500, 10, 0), (2, 4500, 1, 0)


def base(seed):
    rng = random.Random("pkt-%s" % seed)
    msgs, meta = [], []
    for k in range(rng.choice([1, 2, 3])):
        uid = "m%d" % k
        hi = ["AREA:AREA.A", "\x01MSGID: %s %08x" % (astr(FRM), rng.getrandbits(32))]
        body = ["uid " + uid] + ["line %d %s" % (j, "x" * rng.choice([0, 3, 30])) for j in range(rng.choice([1, 3]))]
        end = ["--- t", " * Origin: o (%s)" % astr(FRM), "SEEN-BY: 4500/10", "\x01PATH: 4500/10"]
        ls = [l + "\r" for l in hi + body + end]
        m = dict(frm=FRM, to=TO, text="".join(ls).encode(), to_name=rng.choice(["All", "A" * 35]),
                 from_name="Joe", subj=rng.choice(["", "s" * 71, "Hello"]))
        msgs.append(m)
        meta.append(dict(uid=uid, head=len(ftn.msg_bytes(m)) - 2 - len(m["text"]) - 1, lines=[len(l) for l in ls],
                         nhi=2, nbody=len(hi) + len(body)))
    return msgs, meta


def gen_all(seed, rng, ncuts=None):
    msgs, meta = base(seed)
    size = len(ftn.packet(FRM, TO, msgs))
    cuts = range(0, size + 1)
    if ncuts and size > ncuts:
        cuts = sorted(set(rng.sample(range(size), ncuts)) | {58, 59, 60, 61, size - 1, size - 2, size})
    out = [dict(seed=seed, cut=c, junk="", at=0) for c in cuts]
    for j in ("version", "month", "day", "hour", "type", "tail"):
        out.append(dict(seed=seed, cut=size, junk=j, at=0))
    for a in range(len(msgs)):
        out.append(dict(seed=seed, cut=10 ** 6, junk="longname", at=a + 1))
    return out


def execute(args):
    sc, bins, shim = args
    msgs, meta = base(sc["seed"])
    if sc["junk"] == "longname":
        msgs[sc["at"] - 1]["to_name"] = "N" * 36
    data = bytearray(ftn.packet(FRM, TO, msgs))
    size = len(data)
    cut = min(sc["cut"], size)
    if sc["junk"] == "version":
        struct.pack_into("<H", data, 18, 3)
    elif sc["junk"] == "month":
        struct.pack_into("<H", data, 6, 12)
    elif sc["junk"] == "day":
        struct.pack_into("<H", data, 8, 32)
    elif sc["junk"] == "hour":
        struct.pack_into("<H", data, 10, 24)
    elif sc["junk"] == "type":
        struct.pack_into("<H", data, 58, 3)
    elif sc["junk"] == "tail":
        data += b"\x02\x00garbage"
        cut = len(data)
    data = bytes(data[:cut])
    t = dict(cfg=dict(akas=[TO], opts=["FTNStrictPktCheck"] if sc["junk"] == "longname" else []), areas=[
        dict(name="AREA.A", zone=2, addr=tossgen.NONODE, uplinks=1, passthru=True, state=[],
             nodes=[FRM, (2, 4500, 11, 0)], passive=[])], rules=[], acl=[])
    t["cfg"].update(pw=[])
    with tossgen.make_box(t, bins, shim) as b:
        b.write("bt/pin/00000001.pkt", data)
        # an undamaged packet behind it must be processed as if nothing happened
        b.write("bt/pin/00000002.pkt", ftn.packet(FRM, TO, [dict(frm=FRM, to=TO, text=(
            "AREA:AREA.A\r\x01MSGID: 2:1/1 00000001\ruid other\r--- \r * Origin: x (%s)\r"
            "SEEN-BY: 4500/10\r\x01PATH: 4500/10\r" % astr(FRM)).encode())]))
        os.utime(b.path("bt/pin/00000001.pkt"), (tossgen.NOW - 100,) * 2)
        os.utime(b.path("bt/pin/00000002.pkt"), (tossgen.NOW - 50,) * 2)
        rc, _, _ = b.run("ftntoss")
        seen, other = [], 0
        for d in ("spool/toss/toss", "spool/toss/bad"):
            for n, h in b.packets(d):
                if "error" in h:
                    raise ftn.Bad("output packet %s: %s" % (n, h["error"]))
                for m in h["msgs"]:
                    o = tossgen.obs_msg(h, m)
                    u = tossgen.uid_of(o)
                    if u == "other":
                        other += 1
                    else:
                        n = len([l for l in o["body"] if not l.startswith(("---", " * Origin"))])
                        seen.append(dict(uid=u if u != "?" else "", lines=n))
        bad = b.read("bt/pin/00000001.bad")
        # a message cut before its uid line cannot be told apart: name it by position
        known = {s["uid"] for s in seen}
        rest = [m["uid"] for m in meta if m["uid"] not in known]
        for s in seen:
            if s["uid"] == "" and rest:
                s["uid"] = rest[0]
        return dict(packet=dict(hdr=58, msgs=meta), cut=cut, junk=sc["junk"], at=sc["at"], seen=seen,
                    bad=int(bad is not None), badsame=bad is None or bad == data,
                    left=int(b.read("bt/pin/00000001.pkt") is not None), other=other)
