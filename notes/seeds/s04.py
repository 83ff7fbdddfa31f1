ID="P04-pw-prefix"; PROP="P04"
NEEDS="a link with a packet password and a packet that carries the password followed by further characters"
BREAKS="a packet with a wrong, longer password is accepted and its echomail distributed"
EDITS=[("src/toss/ftntoss.c","        stricmp(pkt->passwd, pwd->passwd)) {","        strnicmp(pkt->passwd, pwd->passwd, strlen(pwd->passwd))) {")]
DEMO='''
from demolib import *
def f():
    with box.Box(Bins(), ["2:4500/1"]) as b:
        b.write("etc/passwd", "packet 2:5020/100 secret\\n")
        b.write("var/areas.bbs", "H\\n#d A.B -z 2 2:5020/100 2:5030/1\\n")
        bad = []
        for pw, ok in (("secret", True), ("", False), ("secre", False), ("secrets", False), ("secret99", False)):
            o, bd = toss(b, (2,5020,100,0), (2,4500,1,0), [echo("A.B")], pw)
            if bool(o) != ok:
                bad.append("password %r: forwarded to %s" % (pw, [t for t, m in o]))
        return bad
main(f)
'''
