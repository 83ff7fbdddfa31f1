"""Running TLC: model checking, trace validation, behaviour generation."""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result(object):
    pass


def run(module, cfg=None, env=None, workers=8, heap="4g", timeout=800, extra=(), check=True):
    """Runs TLC on spec/<module>.tla with spec/<cfg>. Returns Result with
    .states (distinct) .generated .out .violated (name of invariant or None)"""
    tmp = tempfile.mkdtemp(prefix="tlc.", dir="/tmp")
    try:
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp,
               "-cp", JARS, "tlc2.TLC",
               "-config", os.path.join(SPEC, cfg or module + ".cfg"),
               "-workers", str(workers), "-metadir", os.path.join(tmp, "states"),
               "-noGenerateSpecTE", "-nowarning"] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on %s (%s)" % (module, cfg))
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r = Result()
    r.out, r.rc = out, p.returncode
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m2 = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    m = m2 or re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    r.generated, r.states = (int(str(m[-1][0]).replace(",", "")), int(str(m[-1][1]).replace(",", ""))) if m else (0, 0)
    if r.generated == 0:
        m = re.findall(r"The number of states generated: (\d+)", out)
        r.generated = int(m[-1]) if m else 0
    v = re.search(r"(Invariant|Temporal propert(?:ies|y)|Action property|Assumption)[^\n]*(violated|false)[^\n]*", out)
    r.violated = v.group(0) if v else (
        "deadlock" if "Deadlock reached" in out else
        "temporal property" if "Temporal properties were violated" in out else None)
    if check and r.violated is None and p.returncode != 0:
        raise TlcError("TLC failed on %s (%s), rc %d:\n%s" % (module, cfg, p.returncode, out[-3000:]))
    return r


def model(module, cfg=None, **kw):
    """exhaustive check of the specification; a violation here is an error of
    the specification (it does not depend on /repo)"""
    r = run(module, cfg, **kw)
    if r.violated:
        raise TlcError("specification %s (%s): %s\n%s" % (module, cfg, r.violated, r.out[-4000:]))
    if not r.states:
        raise TlcError("specification %s (%s) explored nothing\n%s" % (module, cfg, r.out[-2000:]))
    return r


def prints(out, tag):
    """values of PrintT(<<"tag", ToJson(x)>>) lines"""
    res = []
    for line in out.splitlines():
        m = re.match(r'^<<"%s", "(.*)">>$' % tag, line)
        if m:
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res


def traces(module, data, cfg=None, **kw):
    """validate recorded traces; returns (Result, [mismatch dicts])"""
    fd, path = tempfile.mkstemp(prefix="trace.", suffix=".json", dir="/tmp")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(data, f)
        env = dict(kw.pop("env", None) or {}, TRACE=path)
        r = run(module, cfg, env=env, **kw)
    finally:
        os.unlink(path)
    if r.violated:
        raise TlcError("trace module %s: %s\n%s" % (module, r.violated, r.out[-4000:]))
    done = prints(r.out, "DONE")
    r.doneids = done
    mm = prints(r.out, "MISMATCH")
    return r, mm
