"""A throw-away FIDOGATE installation inside one scratch directory."""
import glob, os, shutil, subprocess, tempfile
import ftn

BASE = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
DIRS = ["etc", "bin", "libexec", "log", "var", "var/seq", "lock", "bt", "bt/in", "bt/pin",
        "bt/out", "bt/netmail", "bt/tick", "spool", "spool/outpkt", "spool/outpkt/mail", "spool/outpkt/news",
        "spool/outrfc", "spool/outrfc/mail", "spool/outrfc/news", "spool/toss",
        "spool/toss/toss", "spool/toss/route", "spool/toss/pack", "spool/toss/bad",
        "area", "boxes"]
BASECONF = """CONFIGDIR {r}/etc
BINDIR {r}/bin
LIBEXECDIR {r}/libexec
LOGDIR {r}/log
VARDIR {r}/var
LOCKDIR {r}/lock
SPOOLDIR {r}/spool
BTBASEDIR {r}/bt
NETMAILDIR {r}/bt/netmail
INBOUND {r}/bt/in
PINBOUND {r}/bt/pin
ACL %C/acl
ALIASES %C/aliases
AREAS %C/areas
HOSTS %C/hosts
FTNACL %C/ftnacl
PASSWD %C/passwd
PACKING %C/packing
ROUTING %C/routing
SPYES %C/spyes
UPLINKS %C/uplinks
CONFIG_GATE %C/fidogate.conf
HISTORY %V/history
TIC_HISTORY %V/tic_hist
DBC_HISTORY %V/dbc
HUBROUTEDB %V/route
LOGFILE {r}/log/log
CHARSETMAP %L/charset.bin
SEQ_MAIL %V/seq/mail
SEQ_NEWS %V/seq/news
SEQ_MSGID %V/seq/msgid
SEQ_PKT %V/seq/pkt
SEQ_SPLIT %V/seq/split
SEQ_FF %V/seq/ff
SEQ_TOSS %V/seq/toss
SEQ_PACK %V/seq/pack
SEQ_TICK %V/seq/tick
OUTRFC_MAIL %S/outrfc/mail
OUTRFC_NEWS %S/outrfc/news
OUTPKT %S/outpkt
OUTPKT_MAIL %S/outpkt/mail
OUTPKT_NEWS %S/outpkt/news
TOSS_TOSS %S/toss/toss
TOSS_ROUTE %S/toss/route
TOSS_PACK %S/toss/pack
TOSS_BAD %S/toss/bad
TICK_HOLD %B/tick
AreasBBS {r}/var/areas.bbs
FAreasBBS {r}/var/fareas.bbs
SENDMAIL /bin/true
INEWS /bin/true
"""
EMPTY = ["acl", "aliases", "areas", "hosts", "ftnacl", "passwd", "packing",
         "routing", "spyes", "uplinks"]
DEFZONES = """Zone default .fidonet.org fidonet out
Zone 1 .fidonet.org fidonet out.001
Zone 2 .fidonet.org fidonet out
Zone 3 .fidonet.org fidonet out.003
"""


class Box(object):
    def __init__(self, bins, akas=("2:4500/1",), conf="", files=None, shim=None,
                 now=None, host="Hostname f1\nDomain n4500.z2.fidonet.by\n", zones=DEFZONES):
        self.bins, self.shim = bins, shim
        self.now = now
        self.root = tempfile.mkdtemp(prefix="fgbox.", dir=BASE)
        os.chmod(self.root, 0o755)
        for d in DIRS:
            os.mkdir(os.path.join(self.root, d))
        self.conf(akas, conf, host, zones)
        for f in EMPTY:
            self.write("etc/" + f, "")
        for k, v in (files or {}).items():
            self.write(k, v)
        self.pktn = 0

    def conf(self, akas, conf, host, zones=DEFZONES):
        body = BASECONF.format(r=self.root) + host + "".join(
            "Address %s\n" % a for a in akas) + zones + conf.replace("{r}", self.root)
        self.write("etc/fidogate.conf", body)

    def path(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else
                    data.replace("{r}", self.root).encode("latin-1"))
        return p

    def read(self, rel):
        try:
            with open(os.path.join(self.root, rel), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def ls(self, rel):
        try:
            return sorted(os.listdir(os.path.join(self.root, rel)))
        except FileNotFoundError:
            return []

    def env(self, **kw):
        e = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "HOME": self.root}
        if self.shim:
            e["LD_PRELOAD"] = self.shim
            if self.now is not None:
                e["FG_TIME"] = str(self.now)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def argv(self, prog, *args):
        return [self.bins.path(prog), "-c", self.path("etc/fidogate.conf")] + list(args)

    def run(self, prog, *args, stdin=b"", timeout=60, env=None, prefix=()):
        try:
            r = subprocess.run(list(prefix) + self.argv(prog, *args), input=stdin,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=self.root, env=self.env(**(env or {})), timeout=timeout)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return "timeout", b"", b""

    def packets(self, rel):
        """[(name, parsed)] of *.pkt in rel, in name order; also unparsable ones"""
        out = []
        for n in self.ls(rel):
            if n.endswith(".pkt"):
                d = self.read(os.path.join(rel, n))
                try:
                    out.append((n, ftn.parse_packet(d)))
                except ftn.Bad as e:
                    out.append((n, dict(error=str(e), msgs=[])))
        return out

    def clear(self, *rels):
        for rel in rels:
            for n in self.ls(rel):
                p = os.path.join(self.root, rel, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)

    def log(self):
        return (self.read("log/log") or b"").decode("latin-1")

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
