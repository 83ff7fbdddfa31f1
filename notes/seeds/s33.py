ID='P21-first-blank-line'; PROP='P21'
NEEDS='a text that begins with an empty line and has no header lines in it'
BREAKS='the empty line at the beginning of the text is lost'
EDITS=[('src/gate/ftn2rfc.c', '        if (body.rfc.first && (pl = body.body.first)) {', '        if ((pl = body.body.first)) {')]
DEMO='''
from demolib import *
import ftn
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"], "NoDBCHistory\\n", files={"etc/areas": "TALK one.talk -a 2:4500/1\\n"}) as b:
        to, fr = (2, 4500, 1, 0), (2, 4500, 9, 0)
        for head, want in ((b"", "\\ntext\\n"), (b"From: a@b.c\\r", "text\\n"), (b"Subject: x\\r", "text\\n")):
            b.clear("spool/outrfc/news")
            p = b.write("bt/pin/1.pkt", ftn.packet(fr, to, [dict(frm=fr, to=to, text=b"AREA:TALK\\r\\1MSGID: 2:1/2 12345678\\r" + head + b"\\rtext\\r--- t\\r * Origin: o (2:1/2)\\rSEEN-BY: 1/2\\r\\1PATH: 1/2\\r")]))
            b.run("ftn2rfc", p)
            t = b"".join(b.read("spool/outrfc/news/" + n) for n in b.ls("spool/outrfc/news")).decode("latin-1")
            if t.partition("\\n\\n")[2] != want:
                bad.append("%r: %r" % (head, t.partition("\\n\\n")[2]))
    return bad
main(f)
'''
