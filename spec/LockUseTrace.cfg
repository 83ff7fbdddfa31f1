SPECIFICATION Spec
CONSTANT Procs = {1, 2}
Things = {"areas.bbs", "fareas.bbs", "history", "ftntoss", "ftnroute", "ftnpack", "ftntick", "ftnaf", "ftnafpkt", "ftn2rfc"}
CHECK_DEADLOCK FALSE
