ID='P19-crosspost-sticks'; PROP='P19'
NEEDS='a batch in which an article to one group follows a cross-posted one, and an area with -x'
BREAKS='the later article counts as cross-posted and is not gated'
EDITS=[('src/gate/rfc2ftn.c', "        xpost_flag = strchr(groups, ',') != NULL;", "        if (strchr(groups, ','))\n            xpost_flag = TRUE;")]
DEMO='''
from demolib import *
import re
def rfc(b, batch, args=(), text=""):
    b.clear("spool/outpkt/news", "spool/outpkt/mail")
    b.run("rfc2ftn", *args, stdin=batch.encode())
    return [m for d in ("news", "mail") for n, p in b.packets("spool/outpkt/" + d) for m in p["msgs"]]

def art(groups, n):
    t = "From: joe@h.com\\nNewsgroups: %s\\nSubject: s%d\\nDate: Thu, 01 Jan 2015 00:00:00 +0000\\nMessage-ID: <%d@h.com>\\n\\ntext\\n" % (groups, n, n)
    return "#! rnews %d\\n%s" % (len(t), t)
def f():
    with box.Box(Bins(), ["2:4500/1"], "Uplink 2:4500/9\\n", files={"etc/areas": "A.ONE news.one -x\\nA.TWO news.two\\n", "etc/acl": "rfc2ftn\\nEchoMail\\n* *\\n"}) as b:
        got = [(re.search(b"AREA:([^\\r]*)", m["text"]).group(1).decode(), m["subj"]) for m in rfc(b, art("news.one,news.two", 1) + art("news.one", 2), ["-b"])]
        return [] if got == [("A.TWO", "s1"), ("A.ONE", "s2")] else ["gated: %r" % got]
main(f)
'''
