-------------------------------- MODULE Tick --------------------------------
(***************************************************************************)
(* File echoes: ftntick takes announcements (TIC files) and the files they *)
(* announce from the inbound, ftnhatch announces a file of an area.        *)
(*                                                                         *)
(* State S: fs    paths (below the site's root) -> [c, t], the lines of a  *)
(*                file and its time (-1: of no interest); the content of a *)
(*                transported file is one token                            *)
(*          tab   the table of file areas      hist  the history of TICs   *)
(*          seq   last TIC number              ran   commands started      *)
(*          req   requests to uplinks                                      *)
(* The table, rights and the creation of areas are those of AreaFix.       *)
(***************************************************************************)
EXTENDS AreaFix, Addr
LOCAL INSTANCE TLC

In0 == "bt/pin/"
Put1(fs, p, x) == TLCEval([q \in DOMAIN fs \cup {p} |-> IF q = p THEN x ELSE fs[q]])
Del(fs, p) == TLCEval([q \in DOMAIN fs \ {p} |-> fs[q]])
Mv(fs, p, q) == IF p = q THEN fs ELSE Put1(Del(fs, p), q, fs[p])
----------------------------------------------------------------------------
(* A TIC as read. A line is [k keyword, a rest, nd addresses of the rest,   *)
(* n the number and x the hexadecimal number it starts with]; of several    *)
(* lines with one keyword the last one counts where only one can            *)
OfKey(ls, k) == SelectSeq(ls, LAMBDA l : l.k = k)
LastOf(ls, k, d) == LET s == OfKey(ls, k) IN IF s = <<>> THEN d ELSE s[Len(s)]
NoLine == [k |-> "", a |-> "", nd |-> <<>>, n |-> 0, x |-> "0"]
Addr1(ls, k) == LET s == SelectSeq(OfKey(ls, k), LAMBDA l : Len(l.nd) = 1) IN IF s = <<>> THEN NoNode ELSE s[Len(s)].nd[1]
Args(ls, k) == [i \in 1..Len(OfKey(ls, k)) |-> OfKey(ls, k)[i].a]
Parse(lines) ==
  LET ls == TLCEval([i \in 1..Len(lines) |-> [lines[i] EXCEPT !.k = Lower(@)]])
      A(k) == LastOf(ls, k, NoLine).a  H(k) == OfKey(ls, k) # <<>>
      D == Args(ls, "desc")
  IN [hasarea |-> H("area"), area |-> Upper(A("area")), hasfile |-> H("file"), file |-> Lower(A("file")),
      hasrepl |-> H("replaces"), repl |-> Lower(A("replaces")),
      desc |-> [i \in 1..Len(D) |-> IF D[i] = "" THEN "--no description--" ELSE D[i]], ldesc |-> Args(ls, "ldesc"),
      crc |-> LastOf(ls, "crc", NoLine).x, hascreated |-> H("created"), created |-> A("created"),
      size |-> LastOf(ls, "size", NoLine).n, date |-> IF H("date") THEN LastOf(ls, "date", NoLine).n ELSE -1,
      path |-> Args(ls, "path"), seen |-> Cat([i \in 1..Len(OfKey(ls, "seenby")) |-> OfKey(ls, "seenby")[i].nd]),
      pw |-> A("pw"), origin |-> Addr1(ls, "origin"), from |-> Addr1(ls, "from")]
(* ... and as written *)
RECURSIVE Zeros(_, _)
Zeros(s, n) == IF Len(s) >= n THEN s ELSE Zeros("0" \o s, n)
Pre(w, s) == [i \in 1..Len(s) |-> w \o " " \o s[i]]
Announce(T) ==
  <<"Area " \o T.area, "Origin " \o NodeS(T.origin), "From " \o NodeS(T.from), "File " \o T.file>>
  \o (IF T.hasrepl THEN <<"Replaces " \o T.repl>> ELSE <<>>)
  \o <<"Desc " \o (IF T.desc = <<>> THEN "" ELSE T.desc[1])>> \o Pre("LDesc", T.ldesc)
  \o <<"CRC " \o Upper(Zeros(T.crc, 8))>> \o (IF T.hascreated THEN <<"Created " \o T.created>> ELSE <<>>)
  \o <<"Size " \o ToString(T.size), "Date " \o ToString(T.date)>> \o Pre("Path", T.path)
  \o [i \in 1..Len(T.seen) |-> "Seenby " \o NodeS(T.seen[i])] \o <<"Pw " \o T.pw>>
----------------------------------------------------------------------------
(* Who gets it: every link that is not one of the area's uplinks, not       *)
(* passive and not in SEEN-BY, once                                         *)
RECURSIVE DueOf(_, _, _)
DueOf(a, i, seen) ==
  IF i > Len(a.nodes) THEN <<>>
  ELSE IF i <= a.up \/ In(a.nodes[i], a.passive) \/ In(a.nodes[i], seen) THEN DueOf(a, i + 1, seen)
  ELSE <<a.nodes[i]>> \o DueOf(a, i + 1, Append(seen, a.nodes[i]))
Adds(seen, n) == IF In(n, seen) THEN seen ELSE Append(seen, n)
Own(C, a) == IF a.aka # NoNode THEN a.aka ELSE OwnFor(C, a.zone)

PwCtx(C) == IF C.ticpw THEN "tic" ELSE "ff"
PwOf(C, n) == First(C.passwd, LAMBDA p : p.ctx = PwCtx(C) /\ p.node = n, [pw |-> ""]).pw
HasPw(C, n) == \E i \in 1..Len(C.passwd) : C.passwd[i].ctx = PwCtx(C) /\ C.passwd[i].node = n
(* the TIC of a node we share a password with has to carry it; one of other
   nodes is taken only without regard to passwords (-t) *)
PwGood(C, T) == IF HasPw(C, T.from) THEN T.pw # "" /\ SameName(T.pw, PwOf(C, T.from)) ELSE C.insecure

Flavour(C, n) == First(C.sends, LAMBDA s : PMatchAny(n, s.nodes), [flav |-> C.flav]).flav
Box(C, n) ==
  C.boxes \o "/" \o ToString(n[1]) \o "." \o ToString(n[2]) \o "." \o ToString(n[3]) \o "." \o ToString(n[4])
  \o (IF C.hboxes /\ Flavour(C, n) = "Hold" THEN ".H" ELSE "")
RECURSIVE Number(_, _, _)
Number(fs, box, k) ==
  LET p == box \o "/tk" \o Zeros(ToString(k % 1000000), 6) \o ".tic"
  IN IF p \in DOMAIN fs THEN Number(fs, box, k + 1) ELSE [k |-> k, p |-> p]
(* the TIC for one node *)
SendTic(C, S, T, n) ==
  LET m == Number(S.fs, Box(C, n), S.seq + 1)
  IN [S EXCEPT !.seq = m.k, !.fs = Put1(@, m.p, [c |-> Announce([T EXCEPT !.pw = PwOf(C, n)]), t |-> -1])]
SendOne(C, S, T, n, x) ==
  SendTic(C, [S EXCEPT !.fs = Put1(@, Box(C, n) \o "/" \o T.file, x)], T, n)
RECURSIVE SendAll(_, _, _, _, _)
SendAll(C, S, T, ns, x) == IF ns = <<>> THEN S ELSE SendAll(C, SendOne(C, S, T, Head(ns), x), T, Tail(ns), x)
----------------------------------------------------------------------------
(* ftntick *)
Touch(a, now) == LET b == [a EXCEPT !.time = now] IN IF HasSt(b, "U") \/ HasSt(b, "W") \/ HasSt(b, "F")
                                                     THEN ChState(b, {"U", "W", "F"}, "S") ELSE b
ShellSafe(s) == Chars(s) \cap {"'", "\"", "`", "$", "\\", ";", "&", "|", "<", ">"} = {}
Dupe(C, S, T) ==
  /\ ~C.nohist
  /\ \E i \in 1..Len(S.hist) : S.hist[i].key = T.area \o " " \o NodeP(T.origin) \o " " \o T.file \o " " \o T.crc
  /\ ~(T.hasrepl /\ T.repl = T.file)
(* a new area on behalf of the sender; 0 when it may not be *)
Create(C, S, T) ==
  LET no == [S |-> S, i |-> 0]
      au == Auth(C, T.from, "", TRUE)
      ws == <<T.area>> \o C.createline \o (IF HasLine(C, T.from) THEN LineGet(C, T.from).opts ELSE <<>>)
      N == New(C, [S EXCEPT !.au = au, !.node = T.from], T.from, ws, TRUE).S
  IN IF T.area = "" \/ Chars(T.area) \cap {" ", "\t"} # {} THEN no
     ELSE IF ~(HasPw(C, T.from) \/ C.insecure) THEN no
     ELSE IF ~C.dontcheck /\ ~PwGood(C, T) THEN no
     ELSE IF "$" \notin Chars(au.key) \/ Forbidden(C, T.area) THEN no
     ELSE [S |-> N, i |-> Lookup(N.tab, T.area)]
Ends(s, suf) == Len(s) >= Len(suf) /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf
Act(C, S, T, path) ==
  LET i == IndexOf(C.actions, LAMBDA x : SameName(x.area, T.area) /\ WildMatch(T.file, x.wild) /\ ShellSafe(T.file))
  IN IF i = 0 THEN S ELSE [S EXCEPT !.ran = Append(@, [tag |-> C.actions[i].tag, path |-> path, there |-> TRUE])]

(* the file, stored in the area; what it replaces goes away first *)
Store(C, S, T, a, unknown) ==
  LET old == a.dir \o "/" \o T.repl
      has == ~unknown /\ T.hasrepl /\ "/" \notin Chars(T.repl) /\ ~C.replignore /\ ~a.pass /\ old \in DOMAIN S.fs
      f1 == IF ~has THEN S.fs
            ELSE IF C.repldir = "" THEN Del(S.fs, old)
            ELSE Del(Put1(S.fs, C.repldir \o "/" \o T.repl, [c |-> S.fs[old].c, t |-> -1]), old)
      x == [c |-> S.fs[In0 \o T.file].c, t |-> IF C.dontset THEN -1 ELSE T.date]
      f2 == Put1(f1, a.dir \o "/" \o T.file, x)
      f3 == Put1(f2, a.dir \o "/.desc/" \o T.file \o ".desc",
                 [c |-> <<IF T.desc = <<>> THEN "--no description--" ELSE T.desc[1]>>, t |-> -1])
  IN IF a.pass THEN [S EXCEPT !.fs = f1] ELSE [S EXCEPT !.fs = f3]

(* what an accepted TIC of area k does; [S, ok] *)
Accept(C, S1, k, T, unknown, created) ==
  LET a == S1.tab[k]
      S2 == TLCEval(Store(C, S1, T, a, unknown))
      me == Own(C, a)
      src == IF a.pass THEN In0 \o T.file ELSE a.dir \o "/" \o T.file
      seen == Adds(Adds(T.seen, T.from), me)
      due == DueOf(a, 1, seen)
      T2 == [T EXCEPT !.from = me, !.path = Append(@, NodeS(me) \o " " \o ToString(C.now)), !.seen = seen \o due]
  IN IF unknown THEN [S |-> S2, ok |-> TRUE]
     ELSE IF due = <<>> /\ created /\ a.pass
     THEN (* nobody wants it: the uplink is asked to stop *)
          [S |-> [(IF HasLine(C, T.from) THEN Ask(C, S2, LineGet(C, T.from), T.from, "-", T.area) ELSE S2)
                  EXCEPT !.chg = FALSE], ok |-> TRUE]
     ELSE IF C.boxes = "" THEN [S |-> S2, ok |-> FALSE]
     ELSE [S |-> Act(C, SendAll(C, S2, T2, due, [c |-> S2.fs[src].c, t |-> S2.fs[src].t]), T, src), ok |-> TRUE]
(* what a TIC does that is not refused at sight *)
Process(C, S0, T) ==
  LET bad(S) == [S |-> S, ok |-> FALSE]
      i0 == IF T.hasarea THEN Lookup(S0.tab, T.area) ELSE 0
      u == IF C.unknown = "" THEN 0 ELSE Lookup(S0.tab, C.unknown)
      unknown == i0 = 0 /\ u # 0
      N == TLCEval(IF i0 # 0 THEN [S |-> S0, i |-> i0] ELSE IF unknown THEN [S |-> S0, i |-> u] ELSE Create(C, S0, T))
  IN IF ~T.hasarea THEN bad(S0)
     ELSE IF N.i = 0 THEN bad(N.S)
     ELSE IF ~unknown /\ ~In(T.from, N.S.tab[N.i].nodes) THEN bad(N.S)
     ELSE Accept(C, IF unknown THEN N.S ELSE Put(N.S, N.i, Touch(N.S.tab[N.i], C.now)), N.i, T, unknown, i0 = 0 /\ ~unknown)

(* the table as it is found again, if it was written at all *)
Saved(S, before) == [S EXCEPT !.tab = IF S.chg THEN Rewritten(@) ELSE before, !.chg = FALSE]
BadName(n) == SubSeq(n, 1, Len(n) - 3) \o "bad"
Bad(S, n) == [S EXCEPT !.fs = Mv(@, In0 \o n, In0 \o BadName(n))]
(* one TIC: name, time, lines *)
Tic(C, S0, x) ==
  LET T0 == TLCEval(Parse(x.lines))
      there == {p \in DOMAIN S0.fs : SameName(p, In0 \o T0.file)}
      found == T0.hasfile /\ T0.file # "" /\ "/" \notin Chars(T0.file) /\ there # {}
      p == CHOOSE q \in there : TRUE
      low == In0 \o T0.file
      S1 == TLCEval([S0 EXCEPT !.fs = Mv(@, p, low)])
      T == [T0 EXCEPT !.size = IF @ = 0 THEN C.size[S1.fs[low].c[1]] ELSE @, !.date = IF @ = -1 THEN S1.fs[low].t ELSE @]
  IN IF ~T0.hasfile \/ T0.file \in {".", ".."} THEN Bad(S0, x.name)  \* a directory is no file
     ELSE IF ~found
     THEN IF C.waith # 0 /\ C.now - 3600 * C.waith < x.mt THEN S0
          ELSE IF C.waitact = "delete" THEN [S0 EXCEPT !.fs = Del(@, In0 \o x.name)]
          ELSE Bad(S0, x.name)
     ELSE IF T.size # C.size[S1.fs[low].c[1]] THEN Bad(S1, x.name)
     ELSE IF Dupe(C, S1, T)
     THEN IF C.killdupe THEN [S1 EXCEPT !.fs = Del(Del(@, low), In0 \o x.name)] ELSE Bad(S1, x.name)
     ELSE LET P == TLCEval(Process(C, S1, T))
              S2 == Saved(P.S, S0.tab)
              S3 == IF C.nohist THEN S2
                    ELSE [S2 EXCEPT !.hist = Append(@, [key |-> T.area \o " " \o NodeP(T.origin) \o " " \o T.file
                                                               \o " " \o T.crc, time |-> C.now])]
              S4 == [S3 EXCEPT !.fs = Del(@, low)]
              S5 == IF C.script /\ ShellSafe(x.name)
                    THEN [S4 EXCEPT !.ran = Append(@, [tag |-> "script", path |-> In0 \o x.name, there |-> TRUE])] ELSE S4
          IN IF ~P.ok THEN Bad(S2, x.name) ELSE [S5 EXCEPT !.fs = Del(@, In0 \o x.name)]
RECURSIVE Tics(_, _, _)
Tics(C, S, xs) == IF xs = <<>> THEN S ELSE Tics(C, TLCEval(Tic(C, S, Head(xs))), Tail(xs))
----------------------------------------------------------------------------
(* ftnhatch: to every link that is not passive and not us *)
FloExt(fl) == CASE fl = "Hold" -> "hlo" [] fl = "Crash" -> "clo" [] fl = "Direct" -> "dlo" [] OTHER -> "flo"
AttachFile(C, S, n, path) ==
  LET p == C.base[NodeP(n)] \o "." \o FloExt(Flavour(C, n))
      old == IF p \in DOMAIN S.fs THEN S.fs[p].c ELSE <<>>
  IN [S EXCEPT !.fs = Put1(@, p, [c |-> IF In(path, old) THEN old ELSE Append(old, path), t |-> -1])]
RECURSIVE HatchAll(_, _, _, _, _)
HatchAll(C, S, T, ns, path) ==
  IF ns = <<>> THEN S
  ELSE HatchAll(C, SendTic(C, AttachFile(C, S, Head(ns), "{r}/" \o path), T, Head(ns)), T, Tail(ns), path)
(* h: area, file, desc, repl, hasrepl; [S, rc] *)
Hatch(C, S, h) ==
  LET i == Lookup(S.tab, h.area)
      a == S.tab[i]
      path == a.dir \o "/" \o h.file
      me == Own(C, a)
      x == S.fs[path]
      to == SelectSeq(a.nodes, LAMBDA n : ~In(n, a.passive) /\ n # me)
      T == [hasarea |-> TRUE, area |-> h.area, hasfile |-> TRUE, file |-> h.file, hasrepl |-> h.hasrepl, repl |-> h.repl,
            desc |-> <<h.desc>>, ldesc |-> <<>>, crc |-> C.crc[x.c[1]], hascreated |-> TRUE, created |-> "by FIDOGATE/ftnhatch",
            size |-> C.size[x.c[1]], date |-> x.t, path |-> <<NodeS(me) \o " " \o ToString(C.now)>>,
            seen |-> <<me>> \o Dedup(to), pw |-> "", origin |-> me, from |-> me]
  IN IF i = 0 THEN [S |-> S, ok |-> FALSE]
     ELSE IF path \notin DOMAIN S.fs \/ (C.boxes = "" /\ to # <<>>) THEN [S |-> S, ok |-> FALSE]
     ELSE [S |-> HatchAll(C, S, T, to, path), ok |-> TRUE]
=============================================================================
