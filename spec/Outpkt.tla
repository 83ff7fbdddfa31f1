------------------------------- MODULE Outpkt -------------------------------
(***************************************************************************)
(* Output packets. Every program keeps one packet per key (addresses,      *)
(* grade, type, flavour, bad) from one closing to the next; under a        *)
(* temporary name till it is complete, with at most Limit files open:      *)
(* others are closed and appended to later. A packet something could not   *)
(* be written to is never published. Numbers come from a sequence that     *)
(* wraps, numbers whose names are in use are passed over.                  *)
(*   file: [st: "tmp" or "pkt", own, key, ids, hdr, part, term]            *)
(*   open packet of a program: [key, num, ids, n, open, err]               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
(* a packet as it has to be once published *)
Complete(f) == f.hdr /\ ~f.part /\ f.term
(* what the calls of one program, and their results, entitle to:           *)
(* ev: [op |-> "put", key, id, ok] and [op |-> "close", ok]                *)
NoPkts == [sure |-> {}, maybe |-> {}, cur |-> <<>>]
IdxOf(s, key) == {i \in 1..Len(s) : s[i].key = key}
AddTo(cur, e) ==
  LET x == IdxOf(cur, e.key)
  IN IF x = {} THEN Append(cur, [key |-> e.key, ids |-> IF e.ok THEN <<e.id>> ELSE <<>>])
     ELSE LET i == CHOOSE i \in x : TRUE
          IN [cur EXCEPT ![i] = [@ EXCEPT !.ids = IF e.ok THEN Append(@, e.id) ELSE @]]
Cut(cur) == {cur[i] : i \in 1..Len(cur)}
Upd(s, e) ==
  IF e.op = "put" THEN [s EXCEPT !.cur = AddTo(@, e)]
  ELSE IF e.ok THEN [s EXCEPT !.sure = @ \cup {x \in Cut(s.cur) : x.ids # <<>>}, !.cur = <<>>]
  ELSE [s EXCEPT !.maybe = @ \cup Cut(s.cur), !.cur = <<>>]
RECURSIVE After(_, _)
After(s, ev) == IF ev = <<>> THEN s ELSE After(Upd(s, Head(ev)), Tail(ev))
Due(ev) == After(NoPkts, ev)
=============================================================================
