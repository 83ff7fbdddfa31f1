ID='P17-password-of-other-link'; PROP='P17'
NEEDS='a link with a password ahead of one without in the area'
BREAKS='the TIC of the link without a password carries the password of another link'
EDITS=[('src/common/tick.c','    char *pw = "";','    static char *pw = "";')]
DEMO='''
from demolib import *
CONF = "PassthroughtBoxesDir {r}/boxes\\nFilefixDir {r}/area\\n"
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"], CONF, files={"etc/passwd": "ff 2:5020/100 UPW 5 AB\\nff 2:4500/2 SECRET 5 AB\\n"}) as b:
        b.write("var/fareas.bbs", "x\\n{r}/area/one ONE -z 2 2:5020/100 2:4500/2 2:4500/3\\n".replace("{r}", b.root))
        b.write("var/areas.bbs", "x\\n")
        b.write("var/tic_hist", ""); b.write("var/tic_hist.dir", ""); b.write("var/tic_hist.pag", "")
        b.write("bt/pin/a.tic", "Area ONE\\r\\nFile one.zip\\r\\nOrigin 2:5020/100\\r\\nFrom 2:5020/100\\r\\nDesc x\\r\\nCRC 1\\r\\nSize 3\\r\\nPw UPW\\r\\n")
        b.write("bt/pin/one.zip", "abc")
        b.run("ftntick", "-I", b.path("bt/pin"))
        n = 0
        for d in b.ls("boxes"):
            for t in b.ls("boxes/" + d):
                if t.endswith(".tic"):
                    n += 1
                    c = b.read("boxes/" + d + "/" + t).decode()
                    pw = [l for l in c.splitlines() if l.startswith("Pw")]
                    want = {"2.4500.2.0": "SECRET"}.get(d, "")
                    if [l[2:].strip() for l in pw] != [want]:
                        bad.append("%s: %r, expected %r" % (d, pw, want))
        if n != 2:
            bad.append("%d TICs" % n)
    return bad
main(f)
'''
