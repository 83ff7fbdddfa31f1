ID="P06-rewriteto-name"; PROP="P06"
NEEDS="a rewriteto rule with a name pattern, and netmail whose sender's and receiver's names differ"
BREAKS="the rule is applied by the sender's name: mail for the named person keeps its old destination, mail for others gets the new one"
EDITS=[("src/toss/ftntoss.c","""                                           wildmatch(msg->name_to, r->name,
                                                     TRUE))) {""","""                                           wildmatch(msg->name_from, r->name,
                                                     TRUE))) {""")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        b.write("etc/routing", "rewriteto 2:5030/1 2:5050/5 Joe*\\n")
        bad = []
        for s, r in (("Ann", "Joe User"), ("Joe User", "Ann"), ("Ann", "Bob"), ("Joe A", "Joe B")):
            b.clear("spool/toss/toss")
            o, bd = toss(b, (2,5020,100,0), (2,4500,1,0), [dict(frm=(2,5020,100,0), to=(2,5030,1,0), to_name=r, from_name=s,
                text=b"\\x01INTL 2:5030/1 2:5020/100\\rhello\\r")])
            got = [l for t, m in o for l in m["text"].split(b"\\r") if l.startswith(b"\\x01INTL")]
            want = [b"\\x01INTL 2:5050/5 2:5020/100" if r.startswith("Joe") else b"\\x01INTL 2:5030/1 2:5020/100"]
            if got != want:
                bad.append("%s -> %s: %r" % (s, r, got))
        return bad
main(f)
'''
