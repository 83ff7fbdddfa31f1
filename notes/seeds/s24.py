ID='P09-unlink-before-close'; PROP='P09'
NEEDS='ftnpack killed, or its disk full, while netmail for a plain outbound packet (noarc) or a dirmove directory is still buffered'
BREAKS='the packet to be packed is removed before what was copied from it has been written'
EDITS=[('src/toss/ftnpack.c','''    fclose(pkt_file);
    if (pkt_close() != OK) {
        fglog("$ERROR: can't close outbound packet");
''','''    fclose(pkt_file);
    if (!tmp_name[0] && unlink(name) != OK)
        fglog("$ERROR: can't remove packet %s", name);
    if (pkt_close() != OK) {
        fglog("$ERROR: can't close outbound packet");
'''),('src/toss/ftnpack.c','''!streq(out_name, name)) && unlink(name) != OK) {
        fglog("$ERROR: can't remove packet %s", name);
        TMPS_RETURN(ERROR);
    }
''','''!streq(out_name, name)) && unlink(name) != OK && errno != ENOENT) {
        fglog("$ERROR: can't remove packet %s", name);
        TMPS_RETURN(ERROR);
    }
''')]
DEMO='''
from demolib import *
import re
TOK = re.compile(rb"tok[0-9]+end")
def tokens(b):
    out = set()
    for x in ("spool", "bt", "boxes", "out"):
        for d, _, fs in os.walk(b.path(x)):
            for f in fs:
                out |= set(TOK.findall(open(os.path.join(d, f), "rb").read()))
    return out
def f():
    bad = []
    to = (2, 4500, 2, 0)
    for call in ("openat", "unlink", "write", "close"):
        for when in range(1, 80):
            with box.Box(Bins(), ["2:4500/1"]) as b:
                b.write("etc/packing", "netmail\\npack noarc *\\n")
                b.write("spool/toss/route/qnn00001.pkt", ftn.packet((2,4500,1,0), to, [dict(frm=(2,4500,1,0), to=to, text=b"tok%dend\\r" % k) for k in range(3)]))
                all_ = tokens(b)
                b.run("ftnpack", prefix=["strace", "-f", "-o", b.path("log/trace"), "-e", "trace=" + call, "-e",
                                         "inject=%s:signal=KILL:when=%d" % (call, when)])
                lost = all_ - tokens(b)
                if lost:
                    bad.append("killed at %s %d: lost %r" % (call, when, sorted(lost)))
                if b"SIGKILL" not in b.read("log/trace"):
                    break
    return bad
main(f)
'''
