ID="P05-poison-other-zone"; PROP="P05"
NEEDS="DupeCheck; a message arrives first from an unlinked system whose net/node number is that of a link in another zone, later the genuine one from the link"
BREAKS="the rejected message enters the dupe history, so the genuine one is dropped as a duplicate"
EDITS=[("src/toss/ftntoss.c","""            if (node_eq(cf_addr(), &msg->node_from) ||
                lon_search(&area->nodes, &msg->node_from))
#endif""","""            if (node_eq(cf_addr(), &msg->node_from) ||
                lon_search_echo(&area->nodes, &msg->node_from))
#endif""")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1"], "DupeCheck\\n") as b:
        b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 2:5030/1\\n")
        o1, b1 = toss(b, (1,5020,100,0), (2,4500,1,0), [echo("A.B", msgid="2:5020/100 deadbeef")])
        o2, b2 = toss(b, (2,5020,100,0), (2,4500,1,0), [echo("A.B", msgid="2:5020/100 deadbeef")])
        o3, b3 = toss(b, (2,5020,100,0), (2,4500,1,0), [echo("A.B", msgid="2:5020/100 deadbeef")])
        bad = []
        if o1: bad.append("unlinked sender accepted")
        if len(o2) != 1: bad.append("genuine message lost: %r" % (o2,))
        if o3: bad.append("duplicate forwarded")
        return bad
main(f)
'''
