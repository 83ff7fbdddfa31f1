------------------------------- MODULE MCTick -------------------------------
(***************************************************************************)
(* A file hatched at node 1 of a small network. Every node runs ftntick    *)
(* step by step (the file is copied, then for every due link the file and  *)
(* its TIC are put into the link's box, then the TIC is recorded, then the *)
(* incoming file and the TIC are removed), and may be killed between any   *)
(* two steps; mailers carry boxes at any time. Who is due: Tick.tla.       *)
(* Variant: "" as it is; "early": the incoming file is removed before it   *)
(* was sent on; "record": the TIC is recorded first; "tic": the TIC is put *)
(* into the box ahead of the file; "passive": the hatching node lists      *)
(* links in SEEN-BY it does not send to.                                   *)
(***************************************************************************)
EXTENDS Tick, FiniteSets, TLC
CONSTANTS Size, Crashes, Variant, Sparse
Ids == 1..Size
Ad(k) == <<2, 1, k, 0>>
Edges == {e \in SUBSET Ids : Cardinality(e) = 2}
VARIABLES
  net,      \* the links; mute: <<n, m>> if n's link to m is passive
  mute,
  pc,       \* 0 idle, else the next step
  job,      \* the TIC at work: [from, seen]
  in,       \* TICs in the inbound
  file,     \* the file in the inbound: 0 none, 1 partly there, 2 whole
  kept,     \* the file in the area
  hist,     \* is the TIC on record?
  boxf, boxt,  \* <<n, m>> -> the file, the TICs in n's box for m
  sent,     \* <<n, m>> -> number of TICs the mailer took
  took,     \* nodes that removed an accepted TIC
  crashes
vars == <<net, mute, pc, job, in, file, kept, hist, boxf, boxt, sent, took, crashes>>
Pairs == {p \in Ids \X Ids : p[1] # p[2]}
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SeqOf(s \ {m})
TLinks(n) == SeqOf({m \in Ids : {n, m} \in net})
TArea(n) == [up |-> 0, nodes |-> [k \in 1..Len(TLinks(n)) |-> Ad(TLinks(n)[k])],
            passive |-> IF \E m \in Ids : <<n, m>> \in mute THEN <<Ad(CHOOSE m \in Ids : <<n, m>> \in mute)>> ELSE <<>>]
TSeen(n, x) == Adds(Adds(x.seen, Ad(x.from)), Ad(n))
TDue(n, x) == LET d == DueOf(TArea(n), 1, TSeen(n, x)) IN [k \in 1..Len(d) |-> d[k][3]]
TOut(n, x) == [from |-> n, seen |-> TSeen(n, x) \o DueOf(TArea(n), 1, TSeen(n, x))]
NoJob == [from |-> 0, seen |-> <<>>]

(* the steps of one TIC *)
Box2(m) == IF Variant = "tic" THEN <<[op |-> "tic", m |-> m], [op |-> "part", m |-> m], [op |-> "copy", m |-> m]>>
           ELSE <<[op |-> "part", m |-> m], [op |-> "copy", m |-> m], [op |-> "tic", m |-> m]>>
Op(s) == <<[op |-> s, m |-> 0]>>
TSteps(n, x) ==
  LET D == TDue(n, x)
      F == Cat([k \in 1..Len(D) |-> Box2(D[k])])
  IN IF Variant = "early" THEN Op("store0") \o Op("store") \o Op("rmfile") \o F \o Op("hist") \o Op("rmtic")
     ELSE IF Variant = "record" THEN Op("hist") \o Op("store0") \o Op("store") \o F \o Op("rmfile") \o Op("rmtic")
     ELSE Op("store0") \o Op("store") \o F \o Op("hist") \o Op("rmfile") \o Op("rmtic")

Init ==
  /\ net \in SUBSET Edges
  /\ (Sparse => Cardinality(net) <= Size - 1)
  /\ mute \in {{}} \cup {{p} : p \in {q \in Pairs : {q[1], q[2]} \in net}}
  /\ pc = [n \in Ids |-> 0] /\ job = [n \in Ids |-> NoJob]
  /\ in = [n \in Ids |-> {}] /\ file = [n \in Ids |-> 0]
  /\ kept = [n \in Ids |-> IF n = 1 THEN 2 ELSE 0] /\ hist = [n \in Ids |-> FALSE]
  /\ LET to == {m \in Ids : <<1, m>> \notin mute /\ {1, m} \in net}
     IN /\ boxf = [p \in Pairs |-> IF p[1] = 1 /\ p[2] \in to THEN 2 ELSE 0]
        /\ boxt = [p \in Pairs |-> IF p[1] = 1 /\ p[2] \in to
                                   THEN {[from |-> 1, seen |-> <<Ad(1)>> \o (IF Variant = "passive" THEN TArea(1).nodes
                                                                            ELSE [k \in 1..Len(SeqOf(to)) |-> Ad(SeqOf(to)[k])])]} ELSE {}]
  /\ sent = [p \in Pairs |-> 0] /\ took = {} /\ crashes = 0

(* the hatching node took part already: what comes back is a TIC of its own *)
TKnown(n) == hist[n] \/ n = 1
TBegin(n) ==
  /\ pc[n] = 0
  /\ \E x \in in[n] :
       IF file[n] # 2 \/ TKnown(n)
       THEN (* missing, damaged or known: set aside *)
            /\ in' = [in EXCEPT ![n] = @ \ {x}]
            /\ UNCHANGED <<pc, job>>
       ELSE /\ pc' = [pc EXCEPT ![n] = 1] /\ job' = [job EXCEPT ![n] = x] /\ UNCHANGED in
  /\ UNCHANGED <<net, mute, file, kept, hist, boxf, boxt, sent, took, crashes>>
TStep(n) ==
  /\ pc[n] # 0
  /\ LET ss == TSteps(n, job[n])
         s == ss[pc[n]]
         last == pc[n] = Len(ss)
     IN /\ pc' = [pc EXCEPT ![n] = IF last THEN 0 ELSE @ + 1]
        /\ job' = IF last THEN [job EXCEPT ![n] = NoJob] ELSE job
        /\ kept' = CASE s.op = "store0" -> [kept EXCEPT ![n] = 1]
                     [] s.op = "store" -> [kept EXCEPT ![n] = 2] [] OTHER -> kept
        /\ boxf' = CASE s.op = "part" -> [boxf EXCEPT ![<<n, s.m>>] = 1]
                     [] s.op = "copy" -> [boxf EXCEPT ![<<n, s.m>>] = kept[n]] [] OTHER -> boxf
        /\ boxt' = IF s.op = "tic" THEN [boxt EXCEPT ![<<n, s.m>>] = @ \cup {TOut(n, job[n])}] ELSE boxt
        /\ hist' = IF s.op = "hist" THEN [hist EXCEPT ![n] = TRUE] ELSE hist
        /\ file' = IF s.op = "rmfile" THEN [file EXCEPT ![n] = 0] ELSE file
        /\ in' = IF s.op = "rmtic" THEN [in EXCEPT ![n] = @ \ {job[n]}] ELSE in
        /\ took' = IF s.op = "rmtic" THEN took \cup {n} ELSE took
  /\ UNCHANGED <<net, mute, sent, crashes>>
TKill(n) ==
  /\ pc[n] # 0 /\ crashes < Crashes
  /\ pc' = [pc EXCEPT ![n] = 0] /\ job' = [job EXCEPT ![n] = NoJob] /\ crashes' = crashes + 1
  /\ UNCHANGED <<net, mute, in, file, kept, hist, boxf, boxt, sent, took>>
(* a mailer session, not while ftntick of the receiver is at work on the
   same file *)
Carry(p) ==
  /\ boxt[p] # {} /\ pc[p[2]] = 0
  /\ in' = [in EXCEPT ![p[2]] = @ \cup boxt[p]]
  /\ file' = [file EXCEPT ![p[2]] = IF boxf[p] = 0 THEN @ ELSE boxf[p]]
  /\ boxt' = [boxt EXCEPT ![p] = {}] /\ boxf' = [boxf EXCEPT ![p] = 0]
  /\ sent' = [sent EXCEPT ![p] = @ + Cardinality(boxt[p])]
  /\ UNCHANGED <<net, mute, pc, job, kept, hist, took, crashes>>
Next == (\E n \in Ids : TBegin(n) \/ TStep(n) \/ TKill(n)) \/ \E p \in Pairs : Carry(p)
Fair == /\ \A n \in Ids : WF_vars(TBegin(n)) /\ WF_vars(TStep(n))
        /\ \A p \in Pairs : WF_vars(Carry(p))
Spec == Init /\ [][Next]_vars /\ Fair
----------------------------------------------------------------------------
(* what is on record is stored and has been put out for every link *)
Recorded == \A n \in Ids : hist[n] => kept[n] = 2
(* a TIC in a box of a node at rest stands beside the whole file *)
Beside == crashes = 0 => \A p \in Pairs : boxt[p] # {} => (boxf[p] = 2 \/ pc[p[1]] # 0)
BesideTic == crashes = 0 => \A p \in Pairs : boxt[p] # {} => boxf[p] = 2
(* neither the TIC nor the file is gone before all was done *)
Gone == \A n \in took : hist[n] /\ kept[n] = 2
Started(n) == \E x \in in[n] : TRUE
NotLost == \A n \in Ids : (in[n] # {} /\ file[n] = 0 /\ n # 1 /\ kept[n] # 0) => hist[n]
(* nobody is sent what he does not want or has *)
Undue == \A p \in Pairs : (boxt[p] # {} \/ sent[p] > 0) => {p[1], p[2]} \in net /\ p \notin mute
Back == \A p \in Pairs : \A x \in boxt[p] : Cardinality({k \in 1..Len(x.seen) : x.seen[k] = Ad(p[2])}) = 1
(* without kills each link carries it at most once in one of the directions *)
Once == crashes = 0 => \A p \in Pairs : sent[p] + Cardinality(boxt[p]) <= 1
(* everybody due ends up with the whole file, for good *)
RECURSIVE Reach(_)
Reach(s) == LET r == s \cup {m \in Ids : \E n \in s : {n, m} \in net /\ <<n, m>> \notin mute}
            IN IF r = s THEN s ELSE Reach(r)
AllHave == <>[](\A n \in Reach({1}) : kept[n] = 2)
Rest == <>[](\A n \in Ids : pc[n] = 0 /\ in[n] = {})
=============================================================================
