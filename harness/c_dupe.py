"""P05: duplicates across runs and expiries"""
import random
import tossgen
from tossgen import NOW, MAXHIST

DAY = 86400


def variants(rng, msgid):
    """identifiers close to, but different from, this one"""
    a, s = msgid.split(" ", 1)
    return rng.choice([a + " " + s.upper(), a + " " + s[:-1], a + " " + s + "0", a + "  " + s, a.upper() + "@fidonet " + s,
                       a + " " + s[::-1], a + " " + "x" * rng.choice([60, 120]) + s])


def gen(seed, big=0):
    rng = random.Random("dupe-%s" % seed)
    cfg = tossgen.gen_conf(rng, force=("DupeCheck",))
    for o in ("KillOld", "CheckPointOriginAddr"):
        if o in cfg["opts"] and rng.random() < 0.7:
            cfg["opts"].remove(o)
    areas = []
    while len(areas) < 3:
        a = tossgen.gen_areas(rng, cfg, 1, lambda i: "AREA.%d" % len(areas))[0]
        if len(a["nodes"]) >= 3:
            a["state"] = ["S"]
            areas.append(a)
    # two areas whose names share a prefix
    areas[1]["name"] = areas[0]["name"] + "X"
    runs, ids, now, k = [], [], NOW, 0
    old = []
    for r in range(1 if big else rng.choice([2, 3, 4, 6])):
        packs = {}
        for _ in range(big or 14):
            k += 1
            a = rng.choice(areas)
            if old and rng.random() < (0.3 if big else 0.45):
                # again: the same message, perhaps in another area or from another link
                m, snd = rng.choice(old)
                m = dict(m)
                if rng.random() < 0.3:
                    m["area"] = m["araw"] = a["name"]
                if rng.random() < 0.5:
                    x = [y for y in areas if y["name"] == m["area"]][0]
                    snd = rng.choice(x["nodes"])
                elif rng.random() < 0.2:
                    snd = rng.choice(tossgen.LINKS)     # perhaps not linked
                m["body"] = ["uid m%d" % k] + m["body"][1:]
                if not m["hasid"] and rng.random() < 0.3:
                    m["subj"] += "!"
                    tossgen.fix_msg(m, tuple(m["orig"]), None)
            else:
                if ids and rng.random() < 0.2:
                    v = variants(rng, rng.choice(ids))
                    # (the data base ignores the case of what follows an @)
                    # (a key of more than 255 characters is an error)
                    if len(v) > 200 or "@" in v and v.lower() in [x.lower() for x in ids]:
                        v = "%s %08x" % (v.split("@")[0].split()[0], rng.getrandbits(32))
                    ids.append(v)
                    pool = [v]
                else:
                    pool = []
                for _ in range(50):
                    n0 = list(pool)
                    m, snd = tossgen.gen_msg(rng, cfg, areas, "m%d" % k, n0, area=a)
                    if not pool or (m["hasid"] and "M|" + pool[0] == m["id"]):
                        break
                ids += [x for x in n0 if x not in ids]
                m["araw"] = m["area"]
                m["path"], m["pathl"] = m["path"][-1:], m["pathl"][-1:] if len(m["path"]) == 1 else []
                if not m["pathl"]:
                    m["path"] = []
                old.append((m, snd))
            to = cfg["akas"][0]
            packs.setdefault((tuple(snd), tuple(to)), []).append(("m%d" % k, m))
        ps = [dict(frm=list(f), to=list(t), passwd="", msgs=ms) for (f, t), ms in packs.items()]
        rng.shuffle(ps)
        runs.append(dict(k="run", packs=ps, maxopen=rng.choice([0, 1]), now=now))
        now += rng.choice([0, 1, 3600, DAY, 3 * DAY, 7 * DAY, 13 * DAY])
        if rng.random() < 0.5:
            runs.append(dict(k="expire", now=now, days=rng.choice([MAXHIST, MAXHIST, 1, 3, 7, 30])))
            now += rng.choice([0, 60])
    if big:
        runs.append(dict(k="expire", now=now, days=MAXHIST))
        runs.append(dict(runs[0], now=now))
    return dict(cfg=cfg, areas=areas, rules=[], acl=[], runs=runs, seed=seed)


def P05(ctx):
    ctx.model("MCToss", "MCTossDupe.cfg")
    kinds = lambda m: m["what"] in ("destinations", "copies", "bad-area", "expire-exit", "exit-code")
    sc = [(gen("%d-%d" % (ctx.seed, k)), ctx.bins, ctx.shim) for k in range(ctx.n(120, 1500))]
    ctx.validate("TossTrace", tossgen.execute, sc, kinds=kinds)
    sc = [(gen("big-%d-%d" % (ctx.seed, k), big=ctx.n(900, 3000)), ctx.bins, ctx.shim) for k in range(ctx.n(2, 4))]
    ctx.validate("TossTrace", tossgen.execute, sc, kinds=kinds)
