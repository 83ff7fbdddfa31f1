ID='P24-whole-days'; PROP='P24'
NEEDS='MaxHistory (or -m) with a fraction of a day'
BREAKS='the fraction is cut off, so that entries younger than the limit are forgotten'
EDITS=[('src/toss/ftnexpire.c','    max_sec = 24L * 3600L * max_history;','    max_sec = 24L * 3600L * (long)max_history;')]
DEMO='''
from demolib import *
import time
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"], "MaxHistory 1.5\\n") as b:
        b.write("var/history", "a\\t%d\\nb\\t%d\\n" % (time.time() - 30 * 3600, time.time() - 40 * 3600))
        b.write("var/history.dir", "")
        b.write("var/history.pag", "")
        b.run("ftnexpire")
        t = b.read("var/history")
        if not t.startswith(b"a\\t") or b"b\\t" in t:
            bad.append("a day and a half keeps %r" % t)
    return bad
main(f)
'''
