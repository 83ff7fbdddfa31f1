ID="P08-archiver-exit"; PROP="P08"
NEEDS="an archiver that fails with exit status 255 (or is killed by a signal)"
BREAKS="such a failure is taken for success: the packet is removed though it is in no archive"
EDITS=[("src/toss/ftnpack.c","""    chmod(arcn, PACKET_MODE);
    if (ret) {
        fglog("ERROR: %s failed""","""    chmod(arcn, PACKET_MODE);
    if (ret > 0 && ret < 0xff) {
        fglog("ERROR: %s failed""")]
DEMO='''
from demolib import *
STUB = """#!/bin/sh
case `cat %s` in
0) cat "$2" >> "$1";;
k) kill -9 $$;;
*) exit `cat %s`;;
esac
"""
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        os.chmod(b.write("stub", STUB % (b.path("code"), b.path("code"))), 0o755)
        b.write("etc/packing", 'arc zip "%s %%s %%s"\\nechomail\\npack zip *\\n' % b.path("stub"))
        bad = []
        for code in ("0", "1", "3", "255", "k"):
            b.write("code", code)
            b.write("spool/toss/route/qen00001.pkt", ftn.packet((2,4500,1,0), (2,5030,1,0), [echo("A.B", frm=(2,4500,1,0))]))
            b.run("ftnpack")
            q = b.ls("spool/toss/route")
            if bool(q) != (code != "0"):
                bad.append("exit %s: queue %s" % (code, q))
            b.clear("spool/toss/route")
        return bad
main(f)
'''
