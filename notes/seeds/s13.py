ID="P10-busy-exit-unlocks"; PROP="P10"
NEEDS="ftnpack -l started on named packets while another ftnpack -l is at work"
BREAKS="the second ftnpack, refused, removes the lock of the first on its way out: a third one starts although the first is still working"
EDITS=[("src/toss/ftnpack.c","""            if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                exit_free();
                return EXIT_BUSY;
            }

        /* Process packet files on command line */
""","""            if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                ret = EXIT_BUSY;
                optind = argc;  /* nothing to do */
            }

        /* Process packet files on command line */
""")]
DEMO='''
from demolib import *
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"]) as b:
        n = b.write("spool/toss/route/qen00001.pkt", ftn.packet((2,4500,1,0), (2,5030,1,0), [echo("A.B", frm=(2,4500,1,0))]))
        b.write("lock/ftnpack", "%d\\n" % os.getpid())
        rc, o, e = b.run("ftnpack", "-l", n)
        if rc == 0:
            bad.append("not told to be busy")
        if b.read("lock/ftnpack") is None:
            bad.append("the lock of a living process was removed")
    return bad
main(f)
'''
