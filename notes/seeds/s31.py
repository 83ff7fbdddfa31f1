ID='P20-limit-hit-exactly'; PROP='P20'
NEEDS='a text whose lines add up to the limit exactly at some point'
BREAKS='a text as long as the limit is announced and sent as a split message of which the last part never comes'
EDITS=[('src/gate/rfc2ftn.c', "            if (lsize > maxsize) {\n                split++;", "            if (lsize >= maxsize) {\n                split++;")]
DEMO='''
from demolib import *
def f():
    bad = []
    with box.Box(Bins(), ["2:4500/1"], "Uplink 2:4500/9\\nMaxMsgSize 60\\n", files={"etc/areas": "A.ONE news.one\\n", "etc/acl": "rfc2ftn\\nEchoMail\\n* *\\n"}) as b:
        for n in (19, 20):
            b.clear("spool/outpkt/news")
            t = "From: joe@h.com\\nNewsgroups: news.one\\nSubject: s\\nDate: Thu, 01 Jan 2015 00:00:00 +0000\\nMessage-ID: <%d@h.com>\\n\\n%s" % (n, "x\\n" * n)
            b.run("rfc2ftn", "-n", stdin=t.encode())
            ms = [m for k, p in b.packets("spool/outpkt/news") for m in p["msgs"]]
            sp = [b"SPLIT:" in m["text"] for m in ms]
            if sp != [False]:
                bad.append("%d lines of 3 bytes, limit 60: split %r" % (n, sp))
    return bad
main(f)
'''
