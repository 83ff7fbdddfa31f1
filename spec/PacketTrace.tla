----------------------------- MODULE PacketTrace -----------------------------
(***************************************************************************)
(* What becomes of a damaged input packet. The reader is a state machine   *)
(* over the byte stream: packet header, then per message two type bytes,   *)
(* header, lines of text, NUL. "cut" bytes of the packet arrived (all of   *)
(* them if cut = size) and "junk" says what else is wrong with it.         *)
(***************************************************************************)
EXTENDS Util, Json, IOUtils
VARIABLES t, i, st
Data == JsonDeserialize(IOEnv.TRACE)
Tr == Data[t]
Pk == Tr.packet          \* [hdr, msgs: <<[uid, head, lines: <<bytes, ...>>]>>]
Say(what, exp, got) ==
  PrintT(<<"MISMATCH", ToJson([t |-> t, i |-> i, what |-> what, exp |-> exp, got |-> got,
                               cut |-> Tr.cut, junk |-> Tr.junk])>>)
Chk(ok, what, exp, got) == IF ok THEN TRUE ELSE Say(what, exp, got) /\ FALSE
All(s) == \A k \in 1..Len(s) : s[k]

Sum(s) == LET Op(a, x) == a + x IN FoldL(Op, 0, s)
(* number of whole lines among the first n bytes of a text *)
RECURSIVE Lines(_, _)
Lines(ls, n) == IF ls = <<>> \/ Head(ls) > n THEN 0 ELSE 1 + Lines(Tail(ls), n - Head(ls))

(* reader state: [ph, k: message number, pos, done: <<[uid, lines]>>, bad] *)
ReadHeader(s) ==
  IF Tr.cut < Pk.hdr \/ Tr.junk \in {"version", "month", "day", "hour"}
  THEN [s EXCEPT !.ph = "end", !.bad = TRUE]
  ELSE [s EXCEPT !.ph = "type", !.pos = Pk.hdr, !.k = 1]
ReadType(s) ==
  IF Tr.cut <= s.pos + 2 \/ s.k > Len(Pk.msgs)
  THEN [s EXCEPT !.ph = "end", !.bad = (Tr.junk = "tail" /\ s.k > Len(Pk.msgs))]
  ELSE IF s.k = 1 /\ Tr.junk = "type" THEN [s EXCEPT !.ph = "end", !.bad = TRUE]
  ELSE [s EXCEPT !.ph = "msg", !.pos = @ + 2]
ReadMsg(s) ==
  LET m == Pk.msgs[s.k]
      n == Lines(m.lines, Tr.cut - s.pos - m.head)
  IN IF n = 0 \/ (Tr.junk = "longname" /\ s.k = Tr.at)
     THEN [s EXCEPT !.ph = "end", !.bad = TRUE]
     ELSE [s EXCEPT !.ph = "type", !.k = @ + 1, !.pos = @ + m.head + Sum(m.lines) + 1,
                    !.done = Append(@, [uid |-> m.uid, lines |-> n])]

Init == /\ t \in 1..Len(Data)
        /\ i = 1
        /\ st = [ph |-> "hdr", k |-> 0, pos |-> 0, done |-> <<>>, bad |-> FALSE]
Read == /\ st.ph # "end"
        /\ st' = CASE st.ph = "hdr" -> ReadHeader(st)
                   [] st.ph = "type" -> ReadType(st)
                   [] st.ph = "msg" -> ReadMsg(st)
        /\ i' = i + 1 /\ t' = t
(* every message read ends in exactly one place, with every line that was read; *)
(* the packet disappears, or is kept under its .bad name, unchanged             *)
Final ==
  /\ st.ph = "end" /\ i > 0
  /\ LET obs == Tr.seen
         O(u) == {k \in 1..Len(obs) : obs[k].uid = u}
     IN All(<<
        Chk({obs[k].uid : k \in 1..Len(obs)} = {st.done[k].uid : k \in 1..Len(st.done)} \ {""},
            "messages", st.done, obs),
        All([k \in 1..Len(st.done) |->
             Chk(\A j \in O(st.done[k].uid) : obs[j].lines = MaxN(0, MinN(st.done[k].lines, Pk.msgs[k].nbody) - Pk.msgs[k].nhi),
                 "text", st.done[k], obs)]),
        Chk(Tr.bad = (IF st.bad THEN 1 ELSE 0), "kept-as-bad", st.bad, Tr.bad),
        Chk(Tr.badsame, "bad-changed", TRUE, Tr.badsame),
        Chk(Tr.left = 0, "left", 0, Tr.left),
        Chk(Tr.other = 1, "other-packet", 1, Tr.other)>>)
  /\ PrintT(<<"DONE", ToJson(t)>>)
  /\ i' = 0 /\ UNCHANGED <<t, st>>
Next == Read \/ Final
Spec == Init /\ [][Next]_<<t, i, st>>
=============================================================================
