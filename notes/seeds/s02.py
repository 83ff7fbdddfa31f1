ID="P02-loop-other-aka"; PROP="P02"
NEEDS="a system with several addresses, CheckPath on, and a message coming back with one of its other addresses in the PATH"
BREAKS="only the first configured address is recognised in the PATH, so a looping message is forwarded again"
EDITS=[("src/toss/ftntoss.c","""            if (is_local_addr(&p->node, TRUE))
                return ERROR;""","""            if (node_eq_echo(&p->node, cf_addr()))
                return ERROR;""")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1", "2:5000/9"], "CheckPath\\n") as b:
        b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 2:5030/1\\n")
        bad = []
        for p in ("4500/1 5020/100", "5000/9 5020/100"):
            o, bd = toss(b, (2,5020,100,0), (2,4500,1,0), [echo("A.B", path=p)])
            if o:
                bad.append("message with PATH %s forwarded again to %s" % (p, [t for t, m in o]))
        o, bd = toss(b, (2,5020,100,0), (2,4500,1,0), [echo("A.B", path="5020/7 5020/100")])
        if len(o) != 1:
            bad.append("innocent message not forwarded")
        return bad
main(f)
'''
