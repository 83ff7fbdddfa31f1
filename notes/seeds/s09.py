ID="P07-inapplicable-stops"; PROP="P07"
NEEDS="mail with a flavour other than normal, a send rule matching its destination (which only applies to normal mail) and a later change rule for that flavour"
BREAKS="the search for a rule stops at the first rule whose pattern matches though it does not apply, so the change rule is ignored"
EDITS=[("src/toss/ftnroute.c","                    break;      /* Inner for loop */","                    goto ready; /* Done with this packet */")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        b.write("etc/routing", "echomail\\nsend crash 2:5030/1\\nchange hold normal 2:5030/*\\nroute normal 2:5030/9 2:*\\n")
        for k, (fl, t) in enumerate([("h", (2,5030,1,0)), ("n", (2,5030,1,0)), ("h", (2,5030,4,0)), ("d", (2,5030,1,0))]):
            b.write("spool/toss/toss/qe%s%05x.pkt" % (fl, k), ftn.packet((2,4500,1,0), t, [echo("A.B", frm=(2,4500,1,0))]))
        b.run("ftnroute")
        got = sorted((n[2], astr(p["to"])) for n, p in b.packets("spool/toss/route") for m in p["msgs"])
        want = sorted([("n", "2:5030/1"), ("c", "2:5030/1"), ("n", "2:5030/4"), ("d", "2:5030/1")])
        return [] if got == want else ["got %s" % got, "want %s" % want]
main(f)
'''
