ID="P06-packet-point-kept"; PROP="P06"
NEEDS="a netmail from the node itself (no FMPT line) in a packet whose message header comes from a point's address"
BREAKS="the point of the packet's sender becomes part of the message's origin, so rewrite rules and the forwarded copy name a wrong origin"
EDITS=[("src/toss/ftntoss.c","            msg.node_from.point = 0;\n","")]
DEMO='''
from demolib import *
def net(frm, to, lines):
    return dict(frm=frm, to=to, attr=0, text="".join(x + "\\r" for x in lines).encode("latin-1"))
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        bad = []
        for pt in (0, 7):
            for fmpt in (0, 3):
                o, bd = toss(b, (2,5020,100,pt), (2,4500,1,0), [net((2,5020,100,pt), (2,5030,1,0),
                    ["\\x01INTL 2:5030/1 2:5020/100"] + (["\\x01FMPT %d" % fmpt] if fmpt else []) +
                    ["\\x01MSGID: 2:5020/100 12345678", "hello"])])
                if len(o) != 1:
                    bad.append("lost: %r" % (bd,)); continue
                want = b"\\x01FMPT %d" % fmpt
                got = [l for l in o[0][1]["text"].split(b"\\r") if l.startswith(b"\\x01FMPT")]
                if got != ([want] if fmpt else []):
                    bad.append("packet from point %d, FMPT %d: %r" % (pt, fmpt, got))
        return bad
main(f)
'''
