ID='P16-wait-since-last-traffic'; PROP='P16'
NEEDS='an area left by everybody long ago, subscribed again, and ftnafutil expire with a request timeout the same day'
BREAKS='the request counts as timed out at once: the new subscriber is thrown out and the uplink asked to disconnect'
EDITS=[('src/areafix/areafix.c', '                        areasbbs_chstate(&p->state, "UP", \'W\');\n                        p->time = time(NULL);\n', '                        areasbbs_chstate(&p->state, "UP", \'W\');\n')]
DEMO='\nfrom demolib import *\nU, A, B = (2, 5020, 100, 0), (2, 4500, 2, 0), (2, 4500, 3, 0)\nHOME = (2, 4500, 1, 0)\ndef make(table, passwd, conf=""):\n    b = box.Box(Bins(), ["2:4500/1"], conf, {"etc/passwd": passwd, "etc/uplinks": "af X* 2:5020/100 AreaFix UPW -#\\n"})\n    b.write("var/areas.bbs", table)\n    return b\ndef ask(b, node, subj, lines):\n    t = "\\1INTL %s %s\\r" % (astr(HOME), astr(node)) + "".join(l + "\\r" for l in lines)\n    b.write("bt/pin/00000001.pkt", ftn.packet(node, HOME, [dict(frm=node, to=HOME, to_name="Areafix", from_name="Joe Doe", subj=subj, text=t.encode())]))\n    return b.run("ftnafpkt", "-I", b.path("bt/pin"))\ndef area(b, name):\n    for l in (b.read("var/areas.bbs") or b"").decode().split("\\n"):\n        w = l.split()\n        if name in w[:2]:\n            return l\n    return ""\n\ndef f():\n    bad = []\n    tab = "H\\n#- XTEST -z 2 -t 1700000000 -s U 2:5020/100\\n"\n    with make(tab, "af 2:4500/2 PASS\\n", "AreaFixRequestTimeout 30\\n") as b:\n        ask(b, A, "PASS", ["+XTEST"])\n        if "4500/2" not in area(b, "XTEST"):\n            return ["not subscribed"]\n        b.run("ftnafutil", "expire")\n        if "4500/2" not in area(b, "XTEST"):\n            bad.append("expired the same day: " + area(b, "XTEST"))\n    return bad\nmain(f)\n'
