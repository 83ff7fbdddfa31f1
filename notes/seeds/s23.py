ID='P09-interrupted-half'; PROP='P09'
NEEDS='SIGINT or SIGHUP while ftntoss is in the middle of a packet with several messages'
BREAKS='the messages after the one being processed are lost: the half processed packet is removed as if it were done'
EDITS=[('src/toss/ftntoss.c','''            outpkt_close();
            msg_count = 0;
            TMPS_RETURN(severe_error = ERROR);
        }
''','''            msg_count = 0;
            must_exit = TRUE;
            break;
        }
''')]
DEMO='''
from demolib import *
import re
TOK = re.compile(rb"tok[0-9]+end")
def tokens(b):
    out = set()
    for x in ("spool", "bt"):
        for d, _, fs in os.walk(b.path(x)):
            for f in fs:
                out |= set(TOK.findall(open(os.path.join(d, f), "rb").read()))
    return out
def f():
    bad = []
    for call in ("openat", "rename", "unlink"):
        for when in range(1, 50):
            with box.Box(Bins(), ["2:4500/1"]) as b:
                b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 2:5030/1\\n")
                b.write("bt/in/00000001.pkt", ftn.packet((2,5020,100,0), (2,4500,1,0), [echo("A.B", "tok%dend" % k) for k in range(6)]))
                all_ = tokens(b)
                b.run("ftntoss", "-I", b.path("bt/in"), prefix=["strace", "-f", "-o", b.path("log/trace"), "-e", "trace=" + call, "-e",
                                                               "inject=%s:signal=INT:when=%d" % (call, when)])
                lost = all_ - tokens(b)
                if lost:
                    bad.append("SIGINT at %s %d: lost %r" % (call, when, sorted(lost)))
                if b"SIGINT" not in b.read("log/trace"):
                    break
    return bad
main(f)
'''
