ID="P01-from-other-zone-aka"; PROP="P01"
NEEDS="own addresses with the same net/node in two zones, and two areas under different ones of them with a common link, both with traffic in the same run"
BREAKS="the packet opened for the first area is reused for the second: its copies go out from the other area's own address"
EDITS=[("src/common/outpkt.c","if (node_eq(from, &p->from) && node_eq(to, &p->to) &&","if (from->net == p->from.net && from->node == p->from.node &&\n            node_eq(to, &p->to) &&")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1", "1:4500/1"]) as b:
        b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 2:5030/1\\n#d A.C -z 1 2:5020/100 2:5030/1\\n")
        b.write("bt/in/00000001.pkt", ftn.packet((2,5020,100,0), (2,4500,1,0), [echo("A.B"), echo("A.C")]))
        b.run("ftntoss", "-I", b.path("bt/in"), "-n")
        bad = []
        for n, p in b.packets("spool/toss/toss"):
            for m in p["msgs"]:
                z = {b"AREA:A.B": 2, b"AREA:A.C": 1}[m["text"].split(b"\\r")[0]]
                if p["to"] == (2,5030,1,0) and p["frm"] != (z,4500,1,0):
                    bad.append("%s left from %s" % (m["text"][:8], p["frm"]))
        return bad
main(f)
'''
