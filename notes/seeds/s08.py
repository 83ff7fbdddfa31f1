ID="P07-send-wild-point"; PROP="P07"
NEEDS="a send rule whose pattern names points by a wildcard (2:5030/1.*) and mail for such a point"
BREAKS="mail for the points is sent to their boss although the rule sends it to the points themselves"
EDITS=[("src/toss/ftnroute.c","            if (match->point == EMPTY)\n","            if (match->point == EMPTY || match->point == WILDCARD)\n")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        b.write("etc/routing", "echomail\\nsend hold 2:5030/1.*\\nsend crash 2:5030/2\\nsend normal 2:*/*.*\\n")
        for k, t in enumerate([(2,5030,1,7), (2,5030,2,0), (2,5030,1,0), (2,5040,1,3)]):
            b.write("spool/toss/toss/qen%05x.pkt" % k, ftn.packet((2,4500,1,0), t, [echo("A.B", frm=(2,4500,1,0))]))
        b.run("ftnroute")
        got = sorted((n[2], astr(p["to"])) for n, p in b.packets("spool/toss/route"))
        want = sorted([("h", "2:5030/1.7"), ("c", "2:5030/2"), ("h", "2:5030/1"), ("n", "2:5040/1.3")])
        return [] if got == want else ["got %s" % got, "want %s" % want]
main(f)
'''
