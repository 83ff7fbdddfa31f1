ID="P08-sent-entry-counts"; PROP="P08"
NEEDS="a mailer that marks sent flow entries with ~ and keeps the flow file, and a new archive of the same name (same day, archive deleted after sending)"
BREAKS="the new archive is not listed in the flow file because the sent entry of that name is taken for it: its mail is never sent"
EDITS=[("src/common/binkley.c","""        if (*line == '~')
            continue;
        lmode = ' ';
        if (*line == '^'""","""        if (*line == '~')
            line++;
        lmode = ' ';
        if (*line == '^'""")]
DEMO='''
from demolib import *
STUB = """#!/bin/sh
cat "$2" >> "$1"
"""
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        os.chmod(b.write("stub", STUB), 0o755)
        b.write("etc/packing", 'arc zip "%s %%s %%s"\\nechomail\\npack zip *\\n' % b.path("stub"))
        bad = []
        for k in range(3):
            b.write("spool/toss/route/qen%05x.pkt" % k, ftn.packet((2,4500,1,0), (2,5030,1,0), [echo("A.B", frm=(2,4500,1,0))]))
            b.run("ftnpack")
            flo = "bt/out/13a60001.flo"
            if b.ls("spool/toss/route"):
                bad.append("run %d: packet still queued" % k)
            L = b.read(flo).decode().split("\\n")
            live = [l for l in L if l and l[0] in "#^@"]
            if len(live) != 1 or not os.path.exists(live[0][1:]):
                bad.append("run %d: flow file %r" % (k, L))
                continue
            if k == 0:
                continue
            # the mailer sends it
            os.unlink(live[0][1:])
            b.write(flo, "".join("~" + l.lstrip("~")[1:] + "\\n" for l in L if l))
        return bad
main(f)
'''
