"""Scaffolding shared by all checks: context, parallel execution of the real
programs (as an unprivileged user), evidence, violations, known findings."""
import hashlib, json, multiprocessing, os, pickle, random, shutil, subprocess, sys, tempfile, time, traceback
import build as B
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534


def drop():
    """worker processes run the programs under test as an unprivileged user"""
    os.umask(0o022)
    if os.geteuid() == 0:
        try:
            os.setgroups([])
        except OSError:
            pass
        try:
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


def build_c(src, out, *flags):
    """compile a helper from /verif/shim into /verif/build, keyed by content"""
    srcp = os.path.join(VERIF, "shim", src)
    h = hashlib.sha256(open(srcp, "rb").read() + repr(flags).encode()).hexdigest()[:12]
    d = os.path.join(VERIF, "build", "shim")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, h + "-" + out)
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        subprocess.check_call(["gcc", "-O1", "-w", "-o", tmp, srcp] + list(flags))
        os.rename(tmp, p)
    return p


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()[:12]


_G = {}


def _call(a):
    f, x = a
    try:
        return ("ok", f(x))
    except Exception:
        return ("err", traceback.format_exc())


class HarnessError(Exception):
    pass


class Failed(object):
    def __init__(self, text):
        self.text = text


def _safe(a):
    try:
        return a[0](a[1])
    except Exception:
        return Failed(traceback.format_exc())


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.bins = B.build()
        self.shim = build_c("fgshim.c", "fgshim.so", "-shared", "-fPIC")
        self.states = self.transitions = self.ntraces = 0
        self.samples, self.viol, self.known_hits = [], [], []
        self.cover = {}
        self.notes = []
        self.level = "model_checking"
        self.known = []
        p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("{"):
                    k = json.loads(l)
                    if k.get("property") == prop:
                        self.known.append(k)

    # -- budget
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, total):
        return total - (time.time() - self.t0)

    # -- specification
    def model(self, module, cfg=None, **kw):
        r = tlc.model(module, cfg, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.cover.setdefault("models", {})[cfg or module] = dict(states=r.states, transitions=r.generated)
        return r

    def traces(self, module, data, cfg=None, count=True, **kw):
        if not data:
            return []
        r, mm = tlc.traces(module, data, cfg, **kw)
        fin = set(r.doneids) | set(m["t"] for m in mm)
        if len(fin) != len(data):
            raise HarnessError("trace module %s finished %d of %d traces\n%s" %
                               (module, len(fin), len(data), r.out[-3000:]))
        if count:
            self.ntraces += len(data)
            self.states += r.states
            self.transitions += r.generated
        return mm

    # -- execution
    def pmap(self, f, items, procs=8, timeout=850):
        """f over items in forked, unprivileged workers taking items from a
        shared counter; results come back through files"""
        items = list(items)
        if not items:
            return []
        procs = min(procs, len(items))
        nxt = multiprocessing.Value("l", 0)
        d = tempfile.mkdtemp(prefix="pmap.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        sys.stdout.flush(); sys.stderr.flush()
        pids, files = [], []
        try:
            for w in range(procs):
                fn = os.path.join(d, str(w))
                fh = open(fn, "wb")
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        drop()
                        while True:
                            with nxt.get_lock():
                                i = nxt.value
                                nxt.value += 1
                            if i >= len(items):
                                break
                            pickle.dump((i, _call((f, items[i]))), fh)
                        fh.close()
                        os._exit(0)
                    except BaseException:
                        traceback.print_exc()
                    os._exit(3)
                fh.close()
                pids.append(pid); files.append(fn)
            end = time.time() + timeout
            left = set(pids)
            while left:
                p, st = os.waitpid(-1, os.WNOHANG)
                if p in left:
                    left.discard(p)
                    if st:
                        raise HarnessError("worker died with status %d" % st)
                elif p == 0:
                    if time.time() > end:
                        raise HarnessError("workers timed out")
                    time.sleep(0.005)
            out = [None] * len(items)
            for fn in files:
                with open(fn, "rb") as fh:
                    while True:
                        try:
                            i, r = pickle.load(fh)
                        except EOFError:
                            break
                        out[i] = r
        finally:
            for p in pids:
                try:
                    os.killpg(p, 9)
                except OSError:
                    pass
            for p in pids:
                try:
                    os.waitpid(p, 0)
                except OSError:
                    pass
            shutil.rmtree(d, ignore_errors=True)
        res = []
        for x in out:
            if x is None:
                raise HarnessError("lost result")
            if x[0] == "err":
                raise HarnessError(x[1])
            res.append(x[1])
        return res

    def validate(self, module, f, scenarios, sig=None, cfg=None, kinds=None, chunk=None, **kw):
        """run f on all scenarios -> traces, validate them, confirm mismatches
        by a second execution, and report. kinds: predicate on a mismatch,
        telling whether it is about this property"""
        tr = self.pmap(_safe, [(f, x) for x in scenarios])
        for i, x in enumerate(tr):
            if isinstance(x, Failed):
                y = self.pmap(_safe, [(f, scenarios[i])])[0]
                if isinstance(y, Failed):
                    self.violation(dict(module=module, scenario=scenarios[i], error=y.text), None,
                                   "the run could not be interpreted: " + y.text[-500:])
                    tr[i] = None
                else:
                    tr[i] = y
                    self.notes.append("unrepeatable failure ignored: %s" % x.text[-300:])
        idx = [i for i, x in enumerate(tr) if x is not None]
        mm = []
        step = chunk or 400
        for k in range(0, len(idx), step):
            part = idx[k:k + step]
            for m in self.traces(module, [tr[i] for i in part], cfg, **kw):
                m["t"] = part[m["t"] - 1]
                mm.append(m)
        bad = {}
        for m in mm:
            bad.setdefault(m["t"], []).append(m)
        mine = [i for i in sorted(bad) if kinds is None or any(kinds(m) for m in bad[i])]
        for i in sorted(set(bad) - set(mine))[:3]:
            self.notes.append("rejection about another property: %s" % json.dumps(bad[i][0])[:300])
        ids = mine[:12]
        if ids:
            again = self.pmap(_safe, [(f, scenarios[i]) for i in ids])
            ok = [j for j, x in enumerate(again) if not isinstance(x, Failed)]
            conf = {}
            for m in (self.traces(module, [again[j] for j in ok], cfg, count=False, **kw) if ok else []):
                if kinds is None or kinds(m):
                    conf.setdefault(ok[m["t"] - 1], []).append(m)
            for j, i in enumerate(ids):
                if j in conf:
                    m = conf[j]
                    self.violation(dict(module=module, scenario=scenarios[i],
                                        trace=again[j], mismatch=m),
                                   sig(scenarios[i], m) if sig else None,
                                   json.dumps(m[0])[:600])
                else:
                    self.notes.append("unrepeatable rejection ignored: %s" % json.dumps(bad[i][0])[:300])
        tr = [x for x in tr if x is not None]
        if tr and len(self.samples) < 4:
            self.samples.append(dict(module=module, trace=shorten(tr[0])))
        return tr

    # -- results
    def violation(self, data, signature=None, msg=""):
        for k in self.known:
            if signature is not None and signature == k.get("signature"):
                self.known_hits.append(k)
                return
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, signature=signature, message=msg, seed=self.seed,
                           tier=self.tier, detail=data), f, indent=1, default=repr)
        self.viol.append(path)
        sys.stderr.write("violation %s: %s\n" % (self.prop, msg))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(shorten(x))

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.ntraces,
                   samples=self.samples or ["(none)"])
        cov.update(self.cover)
        if self.notes:
            cov["notes"] = self.notes[:20]
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed,
                  level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        seen = set()
        for k in self.known_hits:
            if k["signature"] not in seen:
                seen.add(k["signature"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for v in self.viol[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        print("%s %s: states=%d transitions=%d traces=%d violations=%d %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.ntraces, len(self.viol),
            time.time() - self.t0))
        return 1 if self.viol else 0


def shorten(x, n=3000):
    s = json.dumps(x, default=repr)
    return x if len(s) <= n else s[:n] + "..."
