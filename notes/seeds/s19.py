ID='P15-signature-commands'; PROP='P15'
NEEDS="a request with a mail signature ('-- ' line) of lines that look like commands"
BREAKS='the signature is obeyed'
EDITS=[('src/areafix/areafix.c', '        if (strneq(p, "--", 2)) /* Ignore cmds after --  */\n            break;              /* (signature start)     */\n        if (strneq(p, "--=20", 5))  /* dito, MIME            */\n            break;\n', '        if (strneq(p, "-- ", 3))    /* Ignore cmds after --  */\n            break;              /* (signature start)     */\n        if (strneq(p, "--=20", 5))  /* dito, MIME            */\n            break;\n')]
DEMO='\nfrom demolib import *\nU, A, B = (2, 5020, 100, 0), (2, 4500, 2, 0), (2, 4500, 3, 0)\nHOME = (2, 4500, 1, 0)\ndef make(table, passwd, conf=""):\n    b = box.Box(Bins(), ["2:4500/1"], conf, {"etc/passwd": passwd, "etc/uplinks": "af X* 2:5020/100 AreaFix UPW -#\\n"})\n    b.write("var/areas.bbs", table)\n    return b\ndef ask(b, node, subj, lines):\n    t = "\\1INTL %s %s\\r" % (astr(HOME), astr(node)) + "".join(l + "\\r" for l in lines)\n    b.write("bt/pin/00000001.pkt", ftn.packet(node, HOME, [dict(frm=node, to=HOME, to_name="Areafix", from_name="Joe Doe", subj=subj, text=t.encode())]))\n    return b.run("ftnafpkt", "-I", b.path("bt/pin"))\ndef area(b, name):\n    for l in (b.read("var/areas.bbs") or b"").decode().split("\\n"):\n        w = l.split()\n        if name in w[:2]:\n            return l\n    return ""\n\ndef f():\n    bad = []\n    tab = "H\\n#- TEST -z 2 -t 1700000000 -s S 2:5020/100 4500/2 9\\n#- MORE -z 2 -t 1700000000 -s S 2:5020/100 4500/9\\n"\n    with make(tab, "af 2:4500/2 PASS\\n") as b:\n        ask(b, A, "PASS", ["+MORE", "-- ", "-TEST"])\n        if "4500/2" not in area(b, "TEST"):\n            bad.append("unsubscribed: " + area(b, "TEST"))\n        if "4500/2" not in area(b, "MORE"):\n            bad.append("not subscribed: " + area(b, "MORE"))\n    return bad\nmain(f)\n'
