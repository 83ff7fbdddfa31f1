ID="P12-entry-prefix"; PROP="P12"
NEEDS="a flow file already listing a file whose name begins with the name of the file being attached (news.1 and news.10)"
BREAKS="the file is taken for already queued and never sent"
EDITS=[("src/common/binkley.c","""            if (streq(line, n)) {
                found = TRUE;""".replace("            if","        if").replace("                found","            found"),"""        /* an entry may have trailing blanks */
        if (!strncmp(line, n, strlen(n))) {
            found = TRUE;""")]
DEMO='''
from demolib import *
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"]) as b:
        one, ten = b.write("bt/news.1", "1"), b.write("bt/news.10", "10")
        for f in (ten, one):
            b.run("ftnfattach", "-F", "Normal", "2:5030/1", f)
        L = (b.read("bt/out/13a60001.flo") or b"").decode().split()
        for f in (ten, one):
            if L.count(f) != 1:
                bad.append("%s listed %d times: %r" % (f, L.count(f), L))
    return bad
main(f)
'''
