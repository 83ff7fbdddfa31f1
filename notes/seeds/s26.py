ID='P18-dupe-with-replaces'; PROP='P18'
NEEDS='a duplicate TIC with a Replaces line for another file'
BREAKS='the duplicate is accepted and sent to all links again'
EDITS=[('src/tick/ftntick.c','''        && (!tic->replaces || stricmp(tic->file, tic->replaces) != 0)) {''','''        && !tic->replaces) {''')]
DEMO='''
from demolib import *
CONF = "PassthroughtBoxesDir {r}/boxes\\n"
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"], CONF, files={"etc/passwd": "ff 2:5020/100 UPW 5 AB\\nff 2:4500/2 SECRET 5 AB\\n"}) as b:
        b.write("var/fareas.bbs", "x\\n{r}/area/one ONE -z 2 2:5020/100 2:4500/2 2:4500/3\\n".replace("{r}", b.root))
        b.write("var/areas.bbs", "x\\n")
        b.write("var/tic_hist", ""); b.write("var/tic_hist.dir", ""); b.write("var/tic_hist.pag", "")
        for k in range(2):
            b.clear("boxes")
            b.write("bt/pin/a%d.tic" % k, "Area ONE\\r\\nFile one.zip\\r\\nReplaces old.zip\\r\\nOrigin 2:5020/100\\r\\nFrom 2:5020/100\\r\\nDesc x\\r\\nCRC 1\\r\\nSize 3\\r\\nPw UPW\\r\\n")
            b.write("bt/pin/one.zip", "abc")
            b.run("ftntick", "-I", b.path("bt/pin"))
            n = sum(t.endswith(".tic") for d in b.ls("boxes") for t in b.ls("boxes/" + d))
            if n != (0 if k else 2):
                bad.append("run %d: %d TICs sent" % (k + 1, n))
    return bad
main(f)
'''
