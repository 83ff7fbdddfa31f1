ID='P24-text-renamed-last'; PROP='P24'
NEEDS='ftnexpire killed between the renames of the index and of the text'
BREAKS='the old text is left with the new index, so that the entries kept are no longer found and their messages come in again'
EDITS=[('src/toss/ftnexpire.c','''    if (rename(history_n, history) == ERROR) {
        fglog("$ERROR: rename %s -> %s failed", history_n, history);
        return ERROR;
    }
    if (rename(history_n_dir''','''    if (rename(history_n_dir'''),('src/toss/ftnexpire.c','''        fglog("$ERROR: rename %s -> %s failed", history_n_pag, history_pag);
        return ERROR;
    }
''','''        fglog("$ERROR: rename %s -> %s failed", history_n_pag, history_pag);
        return ERROR;
    }
    if (rename(history_n, history) == ERROR) {
        fglog("$ERROR: rename %s -> %s failed", history_n, history);
        return ERROR;
    }
''')]
DEMO='''
from demolib import *
def f():
    bad = []
    for when in (1, 2, 3, 4):
        with box.Box(Bins(), ["2:4500/1"], "DupeCheck\\n") as b:
            b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 2:5030/1\\n")
            # an old entry ahead of the one that stays
            b.write("var/history", "")
            os.unlink(b.path("var/history"))
            one = [echo("A.B", msgid="2:5020/100 00000001")]
            two = [echo("A.B", msgid="2:5020/100 deadbeef")]
            toss(b, (2,5020,100,0), (2,4500,1,0), one)
            t = b.read("var/history").split(b"\\t")
            b.write("var/history", t[0] + b"\\t1000000000\\n")
            toss(b, (2,5020,100,0), (2,4500,1,0), two)
            b.run("ftnexpire", "-m", "7", prefix=["strace", "-f", "-o", "/dev/null", "-e", "trace=rename,renameat,renameat2", "-e",
                                              "inject=rename,renameat,renameat2:signal=KILL:when=%d" % when])
            b.clear("lock")
            o, x = toss(b, (2,5020,100,0), (2,4500,1,0), two)
            if o:
                bad.append("killed at rename %d: the message came in twice" % when)
    return bad
main(f)
'''
