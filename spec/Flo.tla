-------------------------------- MODULE Flo ---------------------------------
(* The flow files of one node: what attaching a file to them and working    *)
(* them off does.                                                           *)
(*                                                                          *)
(* A state is [flo: extension -> <<>> or <<entries>>, files: name ->        *)
(* "full" | "empty" | "gone"]; entries are [m, f, sent]: what to do with    *)
(* the file when sent ("^" delete, "#" truncate, "@" or "-" keep), its      *)
(* name, whether it has been.                                               *)
EXTENDS Naturals, Sequences, FiniteSets

FloExts == <<"hlo", "flo", "dlo", "clo">>
None == [there |-> FALSE, ent |-> <<>>]
Some(e) == [there |-> TRUE, ent |-> e]
Exts == {FloExts[k] : k \in 1..4}
Existing(s) == {k \in 1..4 : s.flo[FloExts[k]].there}
Least(K) == CHOOSE k \in K : \A j \in K : k <= j
(* an existing flow file of any flavour is used, the most patient one       *)
Target(s, flav) == IF Existing(s) # {} THEN FloExts[Least(Existing(s))] ELSE flav

Attach(s, m, f, flav) ==
  LET x == Target(s, flav)
      ent == s.flo[x].ent
      listed == \E k \in 1..Len(ent) : ent[k].f = f /\ ~ent[k].sent
  IN [s EXCEPT !.flo[x] = Some(IF listed THEN ent ELSE Append(ent, [m |-> m, f |-> f, sent |-> FALSE]))]

Unsent(ent) == SelectSeq(ent, LAMBDA e : ~e.sent)
Names(es) == [k \in 1..Len(es) |-> es[k].f]
(* the file after being sent                                                *)
After(s, e) == IF e.f \in DOMAIN s.files
               THEN CASE e.m = "^" -> [s EXCEPT !.files[e.f] = "gone"]
                      [] e.m = "#" -> [s EXCEPT !.files[e.f] = IF @ = "gone" THEN @ ELSE "empty"]
                      [] OTHER -> s
               ELSE s
RECURSIVE Sent(_, _)
Sent(s, es) == IF es = <<>> THEN s ELSE Sent(After(s, Head(es)), Tail(es))
(* the first n unsent entries marked; the mark takes the place of the mode  *)
RECURSIVE Marked(_, _)
Marked(ent, n) == IF n = 0 \/ ent = <<>> THEN ent
                  ELSE IF Head(ent).sent THEN <<Head(ent)>> \o Marked(Tail(ent), n)
                  ELSE <<[Head(ent) EXCEPT !.sent = TRUE, !.m = "-"]>> \o Marked(Tail(ent), n - 1)

(* work off the first existing flow file; the command fails for the entry   *)
(* number bad (0: for none)                                                 *)
Drain(s, bad) ==
  IF Existing(s) = {} THEN [s |-> s, took |-> <<>>]
  ELSE LET x == FloExts[Least(Existing(s))]
           ent == s.flo[x].ent
           u == Unsent(ent)
       IN IF bad = 0 \/ bad > Len(u)
          THEN [s |-> Sent([s EXCEPT !.flo[x] = None], u), took |-> Names(u)]
          ELSE [s |-> Sent([s EXCEPT !.flo[x] = Some(Marked(ent, bad - 1))], SubSeq(u, 1, bad - 1)),
                took |-> Names(SubSeq(u, 1, bad))]
(* listing removes a flow file with nothing left to send                    *)
List(s) ==
  IF Existing(s) = {} THEN [s |-> s, took |-> <<>>]
  ELSE LET x == FloExts[Least(Existing(s))]  u == Unsent(s.flo[x].ent) IN
       [s |-> IF u = <<>> THEN [s EXCEPT !.flo[x] = None] ELSE s, took |-> Names(u)]

(* ---- an operation o = [op, m, f, flav, bad] and its possible outcomes:    *)
(* {[s, took]}                                                              *)
Done(s, o) ==
  CASE o.op = "attach" -> {[s |-> Attach(s, o.m, o.f, o.flav), took |-> <<>>]}
    [] o.op = "drain" -> {Drain(s, o.bad)}
    [] o.op = "dry" -> {[s |-> LET x == List(s) IN x.s, took |-> <<>>]}
    [] o.op = "list" -> {List(s)}
(* ... when its process dies on the way: an entry may be half written, and   *)
(* the last one sent not marked, or its file still be there                 *)
Torn == [m |-> "?", f |-> "?", sent |-> FALSE]
Partial(s, o) ==
  IF o.op = "attach"
  THEN LET x == Target(s, o.flav)
           d == Attach(s, o.m, o.f, o.flav)
           e == [s EXCEPT !.flo[x] = Some(s.flo[x].ent)]
       IN {[s |-> y, took |-> <<>>] : y \in {s, e, d} \cup
            (IF d.flo[x] # e.flo[x] THEN {[e EXCEPT !.flo[x].ent = Append(@, Torn)]} ELSE {})}
  ELSE IF o.op = "drain" /\ Existing(s) # {}
  THEN LET x == FloExts[Least(Existing(s))]
           u == Unsent(s.flo[x].ent)
       IN {Drain(s, 0)} \cup {[s |-> s, took |-> <<>>]} \cup
          UNION {UNION {{[s |-> Sent([s EXCEPT !.flo[x] = Some(Marked(s.flo[x].ent, k))], SubSeq(u, 1, j)),
                          took |-> Names(SubSeq(u, 1, n))] : j \in {k, n}} : n \in {k, k + 1} \cap 0..Len(u)}
                 : k \in 0..Len(u)}
  ELSE Done(s, o) \cup {[s |-> s, took |-> <<>>]}
=============================================================================
