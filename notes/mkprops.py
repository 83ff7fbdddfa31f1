#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is editable)."""
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=stmt,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=obs or [], hook_needed=None)))

NOTOSS = "The existing tests only convert single messages with rfc2ftn/ftn2rfc; the tosser, router, packer, areafix and file-echo programs are never run by a test."

p("P01", "Echomail reaches exactly the downlinks that are due, once each",
  "When the tosser accepts an echomail message, it writes exactly one copy to each node linked to the message's area that is not the sender, not passive and not already in the message's SEEN-BY, and no copy to anybody else; each copy goes out from the area's own address in a packet for that node under that node's packet password. Which nodes are due depends only on the area's entry, the sender, the SEEN-BY lines and the configuration, not on which other messages or areas were processed in the same run.",
  ["inputs", "configurations", "histories"],
  "all area tables, senders, SEEN-BY/PATH contents, flags of areas (state, passthrough, passive nodes, own AKA per area) and sequences of messages in one or more packets",
  NOTOSS + " The property quantifies over every combination of link list, SEEN-BY and message order.",
  ["src/toss/ftntoss.c", "src/common/areasbbs.c", "src/common/node.c"],
  [("do_seenby / do_4dpoint / toss_toss loop over new nodes", "src/toss/ftntoss.c")],
  obs=["packets written to TOSS_TOSS (one stream of messages per destination)"])

p("P02", "SEEN-BY and PATH grow correctly; echomail floods terminate without loops",
  "In every forwarded echomail copy the SEEN-BY is the incoming SEEN-BY plus the sender, this system and every node the message is being sent to, minus the configured deletions, plus the configured additions, sorted without duplicates on lines of bounded length; PATH is the incoming path with the sender and this system appended, never the same system twice in a row. A message whose PATH shows it already passed through this system is not forwarded again, so in any network of linked systems every message delivery terminates and every reachable system that accepts it gets it.",
  ["inputs", "configurations", "histories", "schedules"],
  "all link topologies, delivery orders, and SEEN-BY/PATH contents including multi-line, zone-gated and abbreviated ones",
  NOTOSS + " Loop prevention is a property of multi-system histories that no single conversion can show.",
  ["src/toss/ftntoss.c", "src/common/node.c"],
  [("do_seenby, do_path, do_check_path, addtoseenby, deleteseenby, deletepath, zonegate", "src/toss/ftntoss.c"),
   ("lon_print_sorted", "src/common/node.c")],
  obs=["SEEN-BY and ^APATH lines in the packets of TOSS_TOSS"])

p("P03", "The tosser accounts for every message and forwards content unchanged",
  "Every message in an input packet ends in exactly one of: delivered copies, the bad-message area, or a drop that a configuration directive asks for; an input packet disappears only after all of it was processed, and a packet whose header or one of whose messages cannot be read because it is damaged or cut off is kept unchanged under a .bad name with the messages before the damage processed normally (a text merely cut off at its end is delivered as far as it was read). A forwarded echomail copy carries the same From, To, Subject, date, attributes, kludges, text, tearline and Origin as the original.",
  ["inputs", "histories"],
  "all packets: any number of messages, any header fields, any body bytes the packet format can carry, any truncation point or corrupted field",
  NOTOSS,
  ["src/toss/ftntoss.c", "src/common/packet.c", "src/common/message.c"],
  [("do_packet / do_file / rename_bad", "src/toss/ftntoss.c"), ("pkt_get_msg_hdr, pkt_get_body_parse, pkt_put_msg*", "src/common/packet.c")],
  obs=["input directory, TOSS_TOSS, TOSS_BAD after a run"])

p("P04", "Unauthorised, unknown, misrouted or looping echomail never leaves",
  "Echomail whose packet password is wrong, whose area does not exist (and may not be created by the sender), whose sender is not linked to the area (or only has read access, where access lists are compiled in), which is addressed to another system's packet, which is circular, or whose area is paused or awaiting its uplink, is never forwarded to any node, and is put into the bad-message area, or dropped where a Kill directive says so. The first reason that applies, in the documented order, decides.",
  ["inputs", "configurations"],
  "all combinations of passwords, access lists, area states, senders and Kill/insecure options",
  NOTOSS,
  ["src/toss/ftntoss.c", "src/common/passwd.c", "src/common/acl_ftn.c"],
  [("do_echomail gate sequence", "src/toss/ftntoss.c"), ("ftnacl_isreadonly", "src/common/acl_ftn.c"), ("passwd_lookup", "src/common/passwd.c")],
  obs=["TOSS_TOSS, TOSS_BAD, areas.bbs"])

p("P05", "A duplicate echomail message is never distributed twice, across all runs",
  "With dupe checking on, for any sequence of tosser and history-expiry runs, a message with the same area and MSGID (or the same header checksum where there is no MSGID) as one accepted earlier and not yet expired is never forwarded again, while a message never seen before (same MSGID in another area included) is never treated as a duplicate. Messages rejected as insecure do not poison the history for the genuine message.",
  ["histories", "inputs", "schedules"],
  "all sequences of packets, runs, expiries and clock values, and two tossers at once",
  NOTOSS + " The guarantee spans runs and an on-disk database.",
  ["src/toss/ftntoss.c", "src/common/histdb.c", "src/common/dbz.c", "src/toss/ftnexpire.c"],
  [("hi_test/hi_write", "src/common/histdb.c"), ("dbz store/fetch", "src/common/dbz.c"), ("dupe check in do_echomail", "src/toss/ftntoss.c")],
  state=[dict(name="history", meaning="text log plus dbz index of accepted message keys", where="HISTORY, HISTORY.dir, HISTORY.pag")],
  obs=["TOSS_TOSS, TOSS_BAD, HISTORY text"])

p("P06", "Netmail keeps its addresses through the tosser",
  "A netmail leaves the tosser with the origin and destination its headers and INTL/FMPT/TOPT lines name, after exactly the first matching Rewrite and Remap rule, with one Via line of this system appended, all other text unchanged and its private/crash/hold attributes choosing the packet flavour. Netmail is only dropped when a remap to the null address or the empty-message rule for this system's own addresses says so.",
  ["inputs", "configurations"],
  "all source/destination addresses (zones, points), kludge combinations, attributes and rewrite/remap tables",
  NOTOSS,
  ["src/toss/ftntoss.c", "src/common/kludge.c", "src/common/node.c"],
  [("do_netmail, do_rewrite, do_remap", "src/toss/ftntoss.c"), ("kludge_pt_intl", "src/common/kludge.c")],
  obs=["packets in TOSS_ROUTE"])

p("P07", "Routing sends every message by the first rule that matches it",
  "For every packet the router puts each message into a packet for the next hop and flavour given by the explicit route tables and then the first routing rule matching its type, flavour and destination, with no message lost, duplicated or altered, and messages with no matching rule still going to their own destination. Send, sendmove, route, hostroute, bossroute and change only apply in their documented circumstances.",
  ["inputs", "configurations"],
  "all routing files, destinations (zone:net/node.point), flavours and packet types",
  NOTOSS,
  ["src/toss/ftnroute.c", "src/common/routing.c", "src/common/parsenode.c"],
  [("do_routing, mkroute, do_move/do_cmd", "src/toss/ftnroute.c"), ("routing_parse_line", "src/common/routing.c"), ("node_match, parse_pfnode", "src/common/parsenode.c, src/common/node.c")],
  obs=["TOSS_PACK packets and their destination headers"])

p("P08", "Packing never loses mail and only touches free outbound nodes",
  "Each packet in the pack queue ends in the outbound of the node the first matching packing rule names - appended to its flavoured mail packet, or in an archive listed in its flow file with the right action - or it stays queued for the next run, and it is never in both places or in neither. While another program holds the node's busy flag nothing of that node's outbound changes and the packet stays queued; when the archiver fails the packet stays queued and nothing else changes, apart from files attached to its messages (queued first) and emptied archives being removed; busy flags created by the packer are removed and foreign ones are left alone.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "all packing files, flavours, busy-flag states, existing outbound contents and archiver failures",
  NOTOSS,
  ["src/toss/ftnpack.c", "src/common/binkley.c", "src/common/flo.c"],
  [("do_pack/do_arcmail/do_noarc, arcmail_search", "src/toss/ftnpack.c"), ("bink_bsy_*, bink_attach", "src/common/binkley.c")],
  obs=["BTBASEDIR outbound dirs, *.?lo, *.?ut, *.bsy, TOSS_PACK"])

p("P09", "Output packets appear only when complete, and are always well formed",
  "At every instant, crash included, every *.pkt the programs have published in a spool directory is a complete packet: header, whole messages, terminator; unfinished output only ever has another name. The set of packets and the messages in them do not depend on the limit of simultaneously open packets, a program interrupted, killed or failing to write at any point loses no message (what is not in a published packet is still in the input, or whole under a temporary name), and no packet ever overwrites another.",
  ["crash_points", "inputs", "schedules"],
  "every system call at which the process may be killed, every MaxOpenPktFiles value and order of destinations",
  NOTOSS + " Crash points are never exercised.",
  ["src/common/outpkt.c", "src/common/packet.c", "src/toss/ftntoss.c"],
  [("outpkt_open, outpkt_close, rename .tmp to .pkt", "src/common/outpkt.c"), ("pkt_newname/pkt_close", "src/common/packet.c")],
  obs=["*.pkt names and bytes in spool directories at each step"])

p("P10", "Lock files give mutual exclusion and recover from dead owners",
  "Of any number of processes using the same lock at the same time, at most one holds it, whatever the interleaving; a lock left by a dead process does not block the next one, and a lock of a live process is never broken. A process that cannot get the lock leaves the holder's lock and the shared data untouched.",
  ["schedules", "crash_points"],
  "all interleavings of lock, unlock, crash and stale-lock recovery by two or more processes",
  "No test runs two processes, and the windows are single system calls wide.",
  ["src/common/lock.c"],
  [("lock_lockfile, check_stale_lock, lock_fd", "src/common/lock.c")],
  obs=["lock file in LOCKDIR; who proceeds"])

p("P11", "Sequence numbers are never handed out twice",
  "Numbers drawn from one sequencer file by any number of processes, in any interleaving, are distinct and increasing, starting with the first use of a missing file, and a crash may skip a number but never repeats one.",
  ["schedules", "crash_points"],
  "all interleavings of concurrent draws, including creation of the file, and crashes between draws",
  "No test draws concurrently.",
  ["src/common/sequencer.c", "src/common/lock.c"],
  [("sequencer(): fcntl lock, read, increment, write", "src/common/sequencer.c")],
  obs=["packet names, MSGIDs, sequence file"])

p("P12", "Flow files list every queued file exactly once and survive mailer use",
  "Attaching a file to a node's flow file adds exactly one entry with the requested action, a file already listed and not yet sent is not listed again, and no other entry is changed or lost, even while a mailer marks entries as sent and several programs attach at once. Listing, taking and marking entries acts on exactly the unsent ones in file order.",
  ["schedules", "histories", "inputs"],
  "all sequences and interleavings of attach and mark operations on a node's flow files of all flavours",
  NOTOSS,
  ["src/common/flo.c", "src/common/binkley.c", "src/util/ftnflo.c", "src/util/ftnfattach.c"],
  [("flo_openx/flo_gets/flo_mark", "src/common/flo.c"), ("bink_attach", "src/common/binkley.c")],
  obs=["*.flo, *.clo, *.dlo, *.hlo contents"])

p("P13", "The area table survives being rewritten, at every instant",
  "Rewriting the area file keeps every area, its links, passive links, flags, state, key, description and timestamps, changing only what the operation asked for; reading a rewritten file and rewriting it again changes nothing. At every crash point the area table on disk is either the complete old or the complete new one, and backups hold the earlier versions in order.",
  ["inputs", "crash_points", "histories"],
  "all area tables the format can express and all crash points of a rewrite",
  NOTOSS,
  ["src/common/areasbbs.c"],
  [("areasbbs_init1 parser, areasbbs_print, areasbbs_rewrite rotation", "src/common/areasbbs.c")],
  obs=["AreasBBS / FAreasBBS and .o01 .. .o05"])

p("P14", "Areafix obeys only authenticated nodes and never exceeds their rights",
  "A request changes the area table only if its sender is listed and gave the right password for that service; a node can then only change its own links, only in areas whose level, key and zone (and access lists, where compiled in) admit it and within its subscription limit, and create, forward or delete areas only with the corresponding right. Every other request leaves the area table byte-for-byte meaning the same.",
  ["inputs", "configurations", "histories"],
  "all request texts, passwords, rights, area attributes and access lists",
  NOTOSS,
  ["src/areafix/areafix.c", "src/areafix/ftnafpkt.c", "src/common/passwd.c", "src/common/acl_ftn.c"],
  [("areafix_auth_check, areafix_auth_cmd, cmd_sub, cmd_new, cmd_delete", "src/areafix/areafix.c")],
  obs=["AreasBBS, replies"])

p("P15", "Areafix commands do what they say, one command after another",
  "Each accepted command has exactly its documented effect on the requester's links (subscribe, unsubscribe, passive, active, wildcard forms included) and the reply reports it; subscribing twice or unsubscribing when not linked changes nothing; processing stops at the tearline. Links of other nodes are never touched.",
  ["inputs", "histories"],
  "all sequences of commands from several nodes on all area tables",
  NOTOSS,
  ["src/areafix/areafix.c", "src/areafix/ftnafpkt.c"],
  [("areafix_do_cmd, cmd_sub, cmd_unsub, cmd_passive, cmd_active", "src/areafix/areafix.c")],
  obs=["AreasBBS, replies"])

p("P16", "Areas follow their uplink life cycle, and uplinks are asked exactly when due",
  "An area's state changes only along the documented life cycle (requested, waiting, subscribed, passive, unsubscribed, removed): an uplink is asked to connect when a first downlink needs an area, and to disconnect when the last one has left a pass-through area, and stalled or idle areas expire only after their configured time. Every such state change comes with exactly one matching request to exactly that uplink.",
  ["histories", "inputs", "configurations"],
  "all sequences of subscriptions, unsubscriptions, traffic and maintenance runs at all times",
  NOTOSS,
  ["src/areafix/areafix.c", "src/areafix/ftnafutil.c", "src/common/uplinks.c", "src/toss/ftntoss.c"],
  [("send_request, cmd_new, cmd_unsub", "src/areafix/areafix.c"), ("do_expire, do_resubscribe, do_delete", "src/areafix/ftnafutil.c"), ("uplinks_lookup", "src/common/uplinks.c")],
  obs=["AreasBBS, request netmail"])

p("P17", "File echoes are hatched and forwarded to exactly the due nodes, intact",
  "A file announced by a valid TIC is stored unchanged in its area and queued, with its own TIC carrying that node's password, the extended PATH and SEEN-BY, for every linked, non-passive node not yet in SEEN-BY (other than the area's uplinks) and for nobody else, and its description is filed beside it. SEEN-BY names exactly who has it already or is sent it. The incoming TIC and file are removed only after all that succeeded.",
  ["inputs", "configurations", "histories"],
  "all TIC contents, link lists, SEEN-BY sets and area flags",
  NOTOSS,
  ["src/tick/ftntick.c", "src/common/tick.c", "src/tick/ftnhatch.c"],
  [("process_tic, do_seenby, tick_send, tick_put", "src/tick/ftntick.c, src/common/tick.c")],
  obs=["area directories, file boxes / flow files, generated .tic files, FILES.BBS"])

p("P18", "Damaged, duplicate or unauthorised file announcements change nothing",
  "A TIC whose file is missing or of the wrong size, whose area is unknown (and may not be created), whose sender is not linked to the area (or only has read access, where access lists are compiled in), or which is a duplicate of one already accepted, adds nothing to any file area and sends nothing, and ends under a .bad name or is removed or kept waiting exactly as the configuration says. No TIC, whatever names it contains, makes the program write or delete files outside the configured directories.",
  ["inputs", "configurations", "histories", "crash_points"],
  "all TIC contents including hostile file names, and all sequences of runs",
  NOTOSS,
  ["src/tick/ftntick.c", "src/common/tick.c"],
  [("do_tic, check_file, tick_get", "src/tick/ftntick.c, src/common/tick.c")],
  obs=["inbound directory, file areas, TIC history"])

p("P19", "A news article or mail is gated to exactly the right areas and addresses",
  "An RFC article becomes one FTN message for each of its newsgroups that is mapped to an area and passes the cross-post and size limits and no other, and an RFC mail becomes one netmail per accepted recipient whose FTN address is the one the recipient's Internet address denotes under the configured domains and host table. Messages that cannot be gated are bounced or rejected, not sent elsewhere.",
  ["inputs", "configurations"],
  "all newsgroup sets, area flags, recipient addresses and limits",
  "The existing tests gate eight fixed articles and mails.",
  ["src/gate/rfc2ftn.c", "src/common/rfcaddr.c", "src/common/ftnaddr.c", "src/common/areas.c", "src/common/hosts.c"],
  [("rfc_parse, snd_mail, snd_message, check_downlinks", "src/gate/rfc2ftn.c"), ("rfcaddr_to_node / inet_to_ftn", "src/common/address.c, src/common/hosts.c")],
  obs=["packets in OUTPKT"])

p("P20", "Splitting a long message loses nothing and stays reassemblable",
  "A message longer than the configured limit is sent as consecutive parts whose texts concatenate to exactly the whole text, each part no longer than the limit allows, numbered without gaps, sharing one split identification and having distinct message IDs; a message within the limit is sent whole.",
  ["inputs", "configurations"],
  "all text lengths, line lengths and limits",
  "No test sets a size limit.",
  ["src/gate/rfc2ftn.c"],
  [("snd_message split loop, print_tear_line", "src/gate/rfc2ftn.c")],
  obs=["packets in OUTPKT"])

p("P21", "Gated FTN messages go to the right newsgroup or mailbox, or are refused",
  "An FTN echomail is posted to exactly the newsgroup configured for its area, and a netmail is delivered to exactly the Internet address its To line or gateway address denotes, with From, Subject, date, text, and reply threading preserved; messages of unknown or non-gated areas, from blocked senders or over configured limits are not posted.",
  ["inputs", "configurations"],
  "all addresses, area tables, access lists and message contents in the supported character set",
  "The existing tests convert a handful of fixed packets.",
  ["src/gate/ftn2rfc.c", "src/common/areas.c", "src/common/aliases.c", "src/common/acl_ftn.c"],
  [("unpack", "src/gate/ftn2rfc.c")],
  obs=["OUTRFC_MAIL, OUTRFC_NEWS batches"])

p("P22", "Message identifiers convert consistently in both directions",
  "The FTN MSGID generated for an RFC message and the Message-ID generated for an FTN message are functions of the original identifier (and area) only, so an article gated again yields the same identifier, different identifiers stay different wherever the mapping is invertible, an identifier that came from FTN converts back to the same FTN identifier, and a reply's reference names the identifier its parent was given.",
  ["inputs", "histories"],
  "all Message-IDs and MSGIDs",
  "Tests check a few fixed identifiers.",
  ["src/common/msgid.c", "src/gate/rfc2ftn.c", "src/gate/ftn2rfc.c"],
  [("s_msgid_fido_to_rfc, s_msgid_rfc_to_fido", "src/common/msgid.c")],
  obs=["^AMSGID / ^AREPLY in packets, Message-ID / References in batches"])

p("P23", "FTN and Internet addresses convert back and forth without loss",
  "Every FTN address zone:net/node.point in a configured zone converts to an Internet host name that converts back to exactly that address, two different FTN addresses never share a host name, and names outside the configured domains denote no FTN address. Abbreviated address lists (relative to the preceding address) are read as, and written so that they read back as, the same list.",
  ["inputs", "configurations"],
  "all addresses, zones, domains, host tables and address lists",
  "Tests use two addresses.",
  ["src/common/node.c", "src/common/address.c", "src/common/hosts.c", "src/common/ftnaddr.c"],
  [("str_ftn_to_inetx, inet_to_ftn, asc_to_node_diff, node_to_asc_diff", "src/common/address.c, src/common/node.c")],
  obs=["addresses in gated messages and area files"])

p("P24", "History expiry keeps exactly the entries young enough, at every instant",
  "Expiring a history keeps exactly the entries newer than the configured age and drops exactly the older ones; every kept entry is found afterwards and no dropped one is. If expiry is interrupted at any point, no entry younger than the limit is forgotten, and it never runs while a tosser has the history open.",
  ["crash_points", "histories", "schedules"],
  "all histories, ages, crash points and concurrent tossers",
  NOTOSS,
  ["src/toss/ftnexpire.c", "src/common/histdb.c", "src/common/dbz.c"],
  [("do_expire and rename sequence", "src/toss/ftnexpire.c")],
  obs=["HISTORY, HISTORY.dir, HISTORY.pag"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
