ID='P13-close-after-rename'; PROP='P13'
NEEDS='the device full (or the program killed) just when the last block of the new table is written out'
BREAKS='the old table is already replaced by then, by an incomplete one'
EDITS=[('src/common/areasbbs.c', '    if (fclose(fp) == ERROR) {\n        fglog("$ERROR: closing %s", new);\n        unlink(new);\n        return ERROR;\n    }\n\n', ''), ('src/common/areasbbs.c', '    fglog("%s changed", buffer);\n\n    return OK;', '    /* The new one is in place now, done with it */\n    if (fclose(fp) == ERROR) {\n        fglog("$ERROR: closing %s", new);\n        return ERROR;\n    }\n    fglog("%s changed", buffer);\n\n    return OK;')]
DEMO='\nfrom demolib import *\nU, A, B = (2, 5020, 100, 0), (2, 4500, 2, 0), (2, 4500, 3, 0)\nHOME = (2, 4500, 1, 0)\ndef make(table, passwd, conf=""):\n    b = box.Box(Bins(), ["2:4500/1"], conf, {"etc/passwd": passwd, "etc/uplinks": "af X* 2:5020/100 AreaFix UPW -#\\n"})\n    b.write("var/areas.bbs", table)\n    return b\ndef ask(b, node, subj, lines):\n    t = "\\1INTL %s %s\\r" % (astr(HOME), astr(node)) + "".join(l + "\\r" for l in lines)\n    b.write("bt/pin/00000001.pkt", ftn.packet(node, HOME, [dict(frm=node, to=HOME, to_name="Areafix", from_name="Joe Doe", subj=subj, text=t.encode())]))\n    return b.run("ftnafpkt", "-I", b.path("bt/pin"))\ndef area(b, name):\n    for l in (b.read("var/areas.bbs") or b"").decode().split("\\n"):\n        w = l.split()\n        if name in w[:2]:\n            return l\n    return ""\n\nLIMIT = ["python3", "-c", "import resource,os,sys; resource.setrlimit(resource.RLIMIT_FSIZE, (1024, 1024)); os.execv(sys.argv[1], sys.argv[1:])"]\ndef f():\n    bad = []\n    tab = "H\\n" + "".join("#- AREA.NUMBER.%02d -z 2 -t 1700000000 -s S 2:5020/100 4500/3\\n" % k for k in range(30))\n    with make(tab, "af 2:4500/2 PASS\\n") as b:\n        # python ignores SIGXFSZ, and so does what it starts\n        b.run("ftnaf", "2:4500/2", "+AREA.NUMBER.03", prefix=LIMIT)\n        n = (b.read("var/areas.bbs") or b"").count(b"AREA.NUMBER.")\n        if n != 30:\n            bad.append("%d of 30 areas left" % n)\n    return bad\nmain(f)\n'
