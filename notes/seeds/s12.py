ID="P10-unreadable-lock-granted"; PROP="P10"
NEEDS="a lock file that exists but is empty (made by another program, or just being written) when a program asks for the lock without waiting"
BREAKS="the lock is reported as obtained although another program's lock file is there"
EDITS=[("src/common/lock.c","""        default:
            return ERROR;
        }

        if (wait > 0) {
            if (wait_time) {""","""        default:
            debug(7, "Lock %s: state %d", name, state);
            break;
        }

        if (wait > 0) {
            if (wait_time) {""")]
DEMO='''
from demolib import *
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"]) as b:
        b.write("spool/toss/toss/e0000001.pkt", ftn.packet((2,4500,1,0), (2,5030,1,0), [echo("A.B", frm=(2,4500,1,0))]))
        b.write("etc/routing", "echomail\\nsend normal *\\n")
        b.write("lock/ftnroute", "")
        rc, o, e = b.run("ftnroute", "-l")
        if rc == 0:
            bad.append("ftnroute -l ran in spite of the lock file")
        if not b.ls("spool/toss/toss"):
            bad.append("the packet was taken away")
        if b.read("lock/ftnroute") is None:
            bad.append("the lock of another is gone")
    return bad
main(f)
'''
