CLAIMS.update({
    "P06": ("Netmail.tla, MCNet.tla, NetTrace.tla", "exhaustive over small sets of addresses, kludges and rules in the model; sampled rule tables and messages against the program"),
    "P07": ("Route.tla, MCNet.tla, RouteTrace.tla", "exhaustive over small rule tables in the model; sampled tables and packets against the program"),
    "P08": ("Pack.tla, MCMail.tla, PackTrace.tla", "exhaustive interleavings of packer, mailer and foreign busy flags on a small outbound in the model (safety and liveness); sampled histories with archiver failures and flag states against the program"),
    "P09": ("Outpkt.tla, MCOutpkt.tla, PktOutTrace.tla", "exhaustive interleavings of two programs with a wrapping sequence, packets in the way, limits of open files and a crash or write error anywhere in the model; schedules, kills and faults at the operations of the real packet functions and of ftntoss, ftnroute, ftnpack, ftn2ftn, ftnafpkt and ftnoutpkt, signals, two limits compared"),
    "P10": ("Lock.tla, MCLock.tla, LockTrace.tla", "exhaustive interleavings and crash points of the lock protocol in the model; every schedule of the real lock.c with bounded preemptions, crashes and faults, then random ones"),
    "P11": ("Seq.tla, MCSeq.tla, SeqTrace.tla", "exhaustive interleavings, crash points and faults in the model; bounded-preemption schedules of the real sequencer"),
    "P12": ("Flo.tla, MCFlo.tla, FloTrace.tla", "exhaustive interleavings of attachers and mailer in the model; bounded-preemption schedules and sampled flow files against the real programs"),
})
CLAIMS.update({
    "P13": ("AreaFix.tla (Rewritten), Rewrite.tla, MCRewrite.tla, AreaFixTrace.tla, RewriteTrace.tla", "exhaustive crash and fault points of the replacement in the model; every operation of the real programs on the table killed, half done or failing, sampled schedules of two commands at a time, sampled tables and command histories"),
    "P14": ("AreaFix.tla, MCAreaFix.tla, AreaFixTrace.tla", "exhaustive histories of two nodes, an uplink and ftnafutil over a few days in the model; sampled configurations, tables and command histories by mail, packet and command line against the programs"),
    "P15": ("AreaFix.tla, MCAreaFix.tla, AreaFixTrace.tla", "as P14; replies compared line by line"),
    "P24": ("History.tla, MCHist.tla, HistTrace.tla, LockUseTrace.tla", "every crash and fault point of expiry and of opening, interleaved with writers, on small histories in the model; every operation of the real ftnexpire on the history killed, half done or failing, rounds of writing, expiring and looking up, and schedules of a tosser against an expiry"),
    "P16": ("AreaFix.tla, MCAreaFix.tla, AreaFixTrace.tla", "as P14; the uplink's view followed through all histories in the model, requests compared with those expected from the programs"),
})
CLAIMS.update({
    "P17": ("Tick.tla, MCTick.tla, TickTrace.tla, TickCrash.tla", "all networks of three nodes (four, thorough) with passive links, kills anywhere and mailers at any time in the model (safety, and everybody due gets it); sampled configurations, tables and histories of TICs and hatched files against the programs, all files of the site compared; every operation of the real ftntick on a TIC killed or failing, and the run after it"),
    "P18": ("Tick.tla, TickTrace.tla, TickCrash.tla", "sampled configurations, tables and histories of damaged, duplicate, hostile and unauthorised TICs against the programs, all files of the site compared; kills and faults as for P17"),
})
CLAIMS.update({
    "P22": ("Msgid.tla, MCMsgid.tla, MsgidTrace.tla", "all identifiers of three (four, thorough) pieces over an alphabet of the troublesome characters in the model: what came from FTN goes back unchanged, parts and different identifiers stay different, a carried Message-ID comes back; sampled identifiers, options and host tables against the real functions. The identifier history (DBC) is not modelled"),
    "P23": ("Inet.tla, MCInet.tla, InetTrace.tla", "all addresses of a small world under all sane combinations of domains, zones and host tables, and all lists of three (four) close addresses in the model; sampled configurations, addresses, names and lists over the whole number range against the real functions"),
})
CLAIMS.update({
    "P19": ("Gate.tla, Inet.tla, MCGate.tla, GateTrace.tla", "all small histories of articles, mails and batches with cross-posts, limits, ACLs and several recipients in the model (1.3 million states, thorough), each with its wrong variants shown to fail; sampled configurations, articles, mails and batches against the real rfc2ftn, every message of every packet compared in area, addresses, names, subject and origin"),
    "P20": ("Gate.tla, MCGate.tla, GateTrace.tla", "splitting of texts of all small lengths and line lengths under all small limits in the model; sampled texts around every boundary of the limit against the real rfc2ftn, parts compared in text, length, numbering, split identification and MSGID"),
})
CLAIMS.update({
    "P21": ("Post.tla, Msgid.tla, Inet.tla, MCPost.tla, PostTrace.tla", "all packets of two messages of a small world under all combinations of areas, access lists, restrictions and options in the model, with the variables the program keeps between messages (four wrong variants shown to fail); sampled configurations and packets against the real ftn2rfc, every article, mail and bounce compared in newsgroup, addressee, sender, subject, date, identifiers and text"),
})
