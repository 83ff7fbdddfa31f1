"""helpers for the demonstrations: run the built programs of the current
directory (/repo) in a scratch installation, as an unprivileged user"""
import os, sys, tempfile
sys.dont_write_bytecode = True
import ftn, box
from ftn import astr
ROOT = os.getcwd()


class Bins(object):
    def path(self, name):
        for d in ("toss", "gate", "tick", "areafix", "util"):
            p = os.path.join(ROOT, "src", d, name)
            if os.access(p, os.X_OK):
                return p
        raise FileNotFoundError(name)


def main(f):
    """f() -> list of failures; runs as nobody, reports, exits"""
    os.umask(0o022)
    if os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    bad = f()
    for b in bad:
        print("FAIL:", b)
    sys.exit(1 if bad else 0)


def echo(area, body="text", frm=(2, 5020, 100, 0), msgid=None, seenby="", path="", kludges=(), tear="--- t",
         origin=True, **kw):
    L = ["AREA:" + area] + (["\x01MSGID: " + msgid] if msgid else []) + ["\x01" + k for k in kludges]
    L += body if isinstance(body, list) else [body]
    L += [tear] if tear else []
    if origin:
        L.append(" * Origin: x (%s)" % astr(frm))
    for s in ([seenby] if isinstance(seenby, str) else seenby):
        if s:
            L.append("SEEN-BY: " + s)
    for s in ([path] if isinstance(path, str) else path):
        if s:
            L.append("\x01PATH: " + s)
    m = dict(frm=frm, to=(2, 4500, 1, 0), text="".join(x + "\r" for x in L).encode("latin-1"))
    m.update(kw)
    return m


def toss(b, frm, to, msgs, passwd="", **kw):
    """one packet through the real tosser; [(to, parsed message)], [bad]"""
    b.write("spool/toss/toss/x", "")
    os.unlink(b.path("spool/toss/toss/x"))
    b.write("bt/in/%08x.pkt" % (b.pktn + 1), ftn.packet(frm, to, msgs, passwd))
    b.pktn += 1
    rc, o, e = b.run("ftntoss", "-I", b.path("bt/in"), **kw)
    out = [(p["to"], m) for d in ("spool/toss/toss", "spool/toss/route", "spool/toss/pack")
           for n, p in b.packets(d) for m in p["msgs"]]
    bad = [m for n, p in b.packets("spool/toss/bad") for m in p["msgs"]]
    b.clear("spool/toss/toss", "spool/toss/route", "spool/toss/pack", "spool/toss/bad")
    return out, bad
