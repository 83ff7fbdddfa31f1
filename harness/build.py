"""Build the FIDOGATE binaries from /repo's *current working tree* into a
scratch copy outside /repo, keyed by the hash of every source file, so a check
always judges the code that is there now and never leaves anything in /repo."""
import fcntl, hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SKIP_DIRS = {".git", "autom4te.cache", "debian", "packages", "doc", ".github", "po"}
CONF_ARGS = ["--without-news", "--with-sendmail=/usr/sbin/sendmail",
             "--disable-extraversion"]


def _files():
    out = []
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in {".git", "autom4te.cache", ".github"}]
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".o", ".a", ".log", ".trs")):
                continue
            out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def source_hash():
    h = hashlib.sha256()
    for f in _files():
        if not f.startswith(("src/", "build/")) and f not in ("config.h", "version.h", "Makefile", "configure.ac"):
            continue
        p = os.path.join(REPO, f)
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        # skip linked binaries: only text sources matter
        with open(p, "rb") as fh:
            data = fh.read()
        if data[:4] == b"\x7fELF":
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()[:16]


class Bins(object):
    def __init__(self, tree):
        self.tree = tree
        self.dir = os.path.join(tree, "src")

    def __getattr__(self, name):
        p = self.path(name)
        setattr(self, name, p)
        return p

    def path(self, name):
        for d in ("toss", "gate", "tick", "areafix", "util"):
            p = os.path.join(self.dir, d, name)
            if os.path.isfile(p) and os.access(p, os.X_OK):
                return p
        raise FileNotFoundError(name)


def build():
    """returns Bins for the current tree (building if needed)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = source_hash()
        tree = os.path.join(BUILD, "t-" + key)
        if os.path.exists(os.path.join(tree, ".done")):
            os.utime(tree)
            return Bins(tree)
        # keep at most a few trees
        olds = sorted((d for d in os.listdir(BUILD) if d.startswith("t-")),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-5]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        shutil.rmtree(tree, ignore_errors=True)
        os.makedirs(tree)
        for f in _files():
            s, d = os.path.join(REPO, f), os.path.join(tree, f)
            if not os.path.exists(s):
                continue
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(s, d, follow_symlinks=True)
        env = dict(os.environ, CC="gcc", PERL="/usr/bin/perl", LC_ALL="C.UTF-8")
        for v in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "LD_PRELOAD"):
            env.pop(v, None)
        log = open(os.path.join(tree, ".build.log"), "wb")

        def run(*cmd):
            r = subprocess.call(cmd, cwd=tree, env=env, stdout=log, stderr=log,
                                stdin=subprocess.DEVNULL)
            return r
        # binaries copied along would look up to date: remove them
        for base, dirs, files in os.walk(os.path.join(tree, "src")):
            for f in files:
                p = os.path.join(base, f)
                with open(p, "rb") as fh:
                    if fh.read(4) == b"\x7fELF":
                        os.unlink(p)
        ok = False
        if os.path.isfile(os.path.join(tree, "config.h")) and \
           os.path.isfile(os.path.join(tree, "src", "Makefile")):
            ok = run("make", "-j8", "-C", "src") == 0
        if not ok:
            ok = run("sh", "./autogen.sh") == 0 and \
                run("./configure", *CONF_ARGS) == 0 and run("make", "clean") == 0 and \
                run("make", "-j8", "-C", "src") == 0
        log.close()
        if not ok:
            sys.stderr.write(open(os.path.join(tree, ".build.log"), errors="replace").read()[-4000:])
            raise SystemExit("build of %s failed" % REPO)
        open(os.path.join(tree, ".done"), "w").close()
        return Bins(tree)
    finally:
        lock.close()


if __name__ == "__main__":
    print(build().tree)
