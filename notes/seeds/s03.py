ID="P03-maxopen-close"; PROP="P03"
NEEDS="more output packets than may be open at once (here -M 2; by default more links than OPEN_MAX allows)"
BREAKS="packets that had to be closed meanwhile are emptied when they are finished: their messages are lost"
EDITS=[("src/common/outpkt.c","""            p->fp = outpkt_fopen(p->tmpname, A_MODE);

        if (p->fp) {
            /* Term""","""            p->fp = outpkt_fopen(p->tmpname, outpkt_nopen < outpkt_maxopen ? W_MODE : A_MODE);

        if (p->fp) {
            /* Term""")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        n = ["2:5030/%d" % k for k in range(1, 8)]
        b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 %s\\n#d A.C -z 2 2:5020/100 2:5030/7\\n" % " ".join(n))
        bad = []
        for mo in (20, 2, 1):
            b.write("bt/in/00000001.pkt", ftn.packet((2,5020,100,0), (2,4500,1,0), [echo("A.B"), echo("A.C")]))
            b.run("ftntoss", "-M", str(mo), "-I", b.path("bt/in"))
            got = [astr(p["to"]) for _, p in b.packets("spool/toss/toss") for m in p["msgs"]]
            if sorted(got) != sorted(n + ["2:5030/7"]):
                bad.append("-M %d: got only %s" % (mo, sorted(got)))
            b.clear("spool/toss/toss")
        return bad
main(f)
'''
