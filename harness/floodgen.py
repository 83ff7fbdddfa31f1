"""Networks of real ftntoss installations exchanging one area."""
import os, random
import ftn, tossgen
from box import Box
from ftn import astr

LIMIT = 400


def gen(seed, dupe=None, n=None):
    rng = random.Random("flood-%s" % seed)
    n = n or rng.choice([3, 4, 5, 6, 7, 8])
    addrs = []
    for k in range(n):
        r = rng.random()
        if r < 0.12 and addrs and any(a[3] == 0 for a in addrs):
            b = rng.choice([a for a in addrs if a[3] == 0])
            addrs.append((b[0], b[1], b[2], 1 + k))
        else:
            addrs.append((2, rng.choice([1, 1, 5020]), 10 + k, 0))
    edges = set()
    shape = rng.choice(["tree", "tree", "ring", "mesh", "full", "two"])
    for k in range(1, n):
        if addrs[k][3]:
            j = [i for i in range(k) if addrs[i] == addrs[k][:3] + (0,)][0]
            edges.add((j, k))      # a point is linked to its boss only
            continue
        c = [i for i in range(k) if not addrs[i][3]]
        if shape == "two" and k == n // 2:
            continue
        if c:
            if shape == "two" and k > n // 2:
                c = [i for i in c if i >= n // 2] or c
            edges.add((rng.choice(c), k))
    plain = [k for k in range(n) if not addrs[k][3]]
    if shape == "ring" and len(plain) > 2:
        for a, b in zip(plain, plain[1:] + plain[:1]):
            edges.add((min(a, b), max(a, b)))
    if shape in ("mesh", "full"):
        for a in plain:
            for b in plain:
                if a < b and rng.random() < (0.4 if shape == "mesh" else 1):
                    edges.add((a, b))
    dc = rng.random() < 0.6 if dupe is None else dupe
    systems = []
    for k in range(n):
        nb = [addrs[j] for j in range(n) if (min(j, k), max(j, k)) in edges]
        rng.shuffle(nb)
        opts = (["DupeCheck"] if dc else []) + (["CheckPath"] if rng.random() < 0.6 else [])
        cfg = dict(akas=[addrs[k]], opts=opts, pw=[], add=[], del_=[], delp=[], zg=[], ro=[])
        area = dict(name="NET.AREA", zone=2, addr=tossgen.NONODE, uplinks=1, passthru=False, state=[],
                    nodes=nb, passive=[])
        systems.append(dict(cfg=cfg, areas=[area], rules=[], acl=[]))
    posts = [dict(uid="p%d" % k, sys=rng.randrange(n) + 1) for k in range(rng.choice([1, 1, 2]))]
    return dict(systems=systems, posts=posts, seed=seed, resend=rng.random() < 0.3 and dc,
                order=rng.choice(["random", "fifo", "lifo"]))


def msg_bytes(uid, frm, to, msgid, orig, seenby, path, now):
    L = ["AREA:NET.AREA", "\x01MSGID: " + msgid, "uid " + uid, "---", " * Origin: net (%s)" % astr(orig)]
    L += ["SEEN-BY: " + x for x in tossgen.sblines([tuple(x) for x in seenby])]
    L += ["\x01PATH: " + x for x in tossgen.sblines([tuple(x) for x in path])]
    return ftn.packet(frm, to, [dict(frm=frm, to=to, date=tossgen.ftsdate(now), text="".join(
        l + "\r" for l in L).encode())])


def execute(args):
    sc, bins, shim = args
    rng = random.Random("run-%s" % sc["seed"])
    boxes = []
    try:
        for s in sc["systems"]:
            boxes.append(tossgen.make_box(s, bins, shim))
        main = [tuple(s["cfg"]["akas"][0]) for s in sc["systems"]]
        byaddr = {a: k for k, a in enumerate(main)}
        steps, flight = [], []
        for p in sc["posts"]:
            a = main[p["sys"] - 1]
            steps.append(dict(k="post", uid=p["uid"], sys=p["sys"]))
            c = {"from": list(a), "to": list(a), "seenby": [], "path": []}
            flight.append((p["uid"], c, msg_bytes(p["uid"], a, a, "%s %s" % (astr(a), p["uid"]), a, [], [],
                                                  tossgen.NOW - 60)))
        n = 0
        resent = not sc["resend"]
        while flight and n < LIMIT:
            n += 1
            k = {"random": rng.randrange(len(flight)), "fifo": 0, "lifo": len(flight) - 1}[sc["order"]]
            uid, c, data = flight.pop(k)
            if not resent and c["from"] != c["to"] and rng.random() < 0.2:
                resent = True       # this packet will arrive twice
                again = (uid, c, data)
            else:
                again = None
            s = byaddr[tuple(c["to"])]
            b = boxes[s]
            b.write("bt/pin/00000001.pkt", data)
            rc, _, _ = b.run("ftntoss")
            out = []
            for nm in b.ls("spool/toss/toss"):
                raw = b.read("spool/toss/toss/" + nm)
                h = ftn.parse_packet(raw)
                for m in h["msgs"]:
                    o = tossgen.obs_msg(h, m)
                    cc = {"from": o["from"], "to": o["to"], "seenby": o["seenby"], "path": o["path"]}
                    out.append(cc)
                    if o["to"] != list(main[s]) and tuple(o["to"]) in byaddr:
                        flight.append((tossgen.uid_of(o), cc, raw))
                if len(h["msgs"]) != 1:
                    raise ftn.Bad("several messages in one packet")
            bad = sum(len(h["msgs"]) for _, h in b.packets("spool/toss/bad"))
            steps.append(dict(k="toss", uid=uid, sys=s + 1, copy=c, out=out, bad=bad, rc=rc,
                              left=b.ls("bt/pin")))
            b.clear("spool/toss/toss", "spool/toss/bad", "bt/pin")
            if again:
                steps.append(dict(k="resend", uid=uid, copy=c))
                flight.append(again)
        steps.append(dict(k="quiet"))
        net = []
        for s in sc["systems"]:
            t = tossgen.abstract(s, [])
            net.append(dict(cfg=t["cfg"], area=t["areas"][0]))
        return dict(net=net, uids=sc["posts"], steps=steps)
    finally:
        for b in boxes:
            b.close()
