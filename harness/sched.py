"""Deterministic schedules, crashes and faults for real programs (psched)."""
import json, os, random, subprocess, tempfile
import common

EXCL = "etc:log:bin:libexec"


def psched():
    return common.build_c("psched.c", "psched")


def driver(bins, name="fgdrv"):
    """fgdrv linked against the current libfidogate, or None"""
    tree = bins.tree
    src = os.path.join(common.VERIF, "shim", name + ".c")
    out = os.path.join(tree, name + "-" + common.digest(src))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        cc = ["gcc", "-w", "-g", "-O1", "-DHAVE_CONFIG_H", "-I", os.path.join(tree, "src/include"), "-I", tree, "-o", tmp, src]
        lib = os.path.join(tree, "src/common/libfidogate.a")
        p = subprocess.run(cc + [lib, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, p.stdout.decode("latin-1")[-800:]
        os.rename(tmp, out)
    return out, ""


class Hang(Exception):
    pass


def run(exe, b, cmds, sched="", excl=EXCL, max=4000, env=None, timeout=60):
    """cmds: list of argv; returns the list of logged events"""
    log = os.path.join(b.root, "log", "psched.%d" % random.getrandbits(40))
    argv = [exe, b.root, excl, sched, str(max), log, "--"]
    for k, c in enumerate(cmds):
        argv += (["---"] if k else []) + list(c)
    e = b.env(**(env or {}))
    pre = e.pop("LD_PRELOAD", None)
    if pre:
        # psched itself needs no shim, but passes its environment on
        e["LD_PRELOAD"] = pre
    try:
        p = subprocess.run(argv, cwd=b.root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Hang("schedule %r did not end" % sched)
    if p.returncode:
        raise common.HarnessError("psched: rc %d %s" % (p.returncode, p.stderr.decode("latin-1")[-300:]))
    ev = [json.loads(l) for l in open(log)]
    os.unlink(log)
    return ev


def steps(ev):
    """the decision points of a run"""
    return [e for e in ev if e["op"] == "choice"]


def chosen(ev):
    return [e["p"] for e in steps(ev)]


def explore(once, bound=2, limit=400, rng=None, crash=False, visible=None):
    """once(schedule string) -> (events, result).  Enumerates the schedules
    with at most `bound` preemptions (and, if crash, one crash at any point in
    place of one of them), breadth first; yields (schedule, events, result).
    Beyond `limit` runs a random sample of the rest is taken."""
    seen = set()
    level = [((), 0, "")]
    count = 0
    for depth in range(bound + 1):
        nxt = []
        if rng is not None and len(level) > limit - count:
            level = rng.sample(level, max(0, limit - count))
        for base, start, last in level:
            if count >= limit:
                return
            pre = base[:start] + ((last,) if last else ())
            start = len(pre)
            s = ",".join(pre)
            ev, res = once(s)
            count += 1
            yield s, ev, res
            if depth == bound:
                continue
            st = steps(ev)
            base = tuple(pref(st, pre, len(st)))
            for k in range(start, len(st)):
                cur = st[k]["p"]
                # a switch is worth trying where the current program is about
                # to do something others can see
                ops = {o["p"]: o for o in st[k]["en"]}
                if visible is None or visible(ops[cur]) or (k and st[k - 1]["p"] != cur):
                    for p in ops:
                        if p != cur:
                            nxt.append((base, k, str(p)))
                if crash and not any(x[0] in "kh" for x in pre):
                    for p in ops:
                        nxt.append((base, k, "k%d" % p))
        level = nxt


def pref(st, pre, k):
    """the first k entries of the schedule actually followed"""
    out = []
    for i in range(k):
        out.append(pre[i] if i < len(pre) and pre[i][0] in "khfs" else str(st[i]["p"]))
    return out
