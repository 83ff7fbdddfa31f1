------------------------------ MODULE MCOutpkt ------------------------------
(***************************************************************************)
(* Two programs writing packets at a time, with a small sequence, packets  *)
(* standing in the way, any limit of open files, and at most one crash or  *)
(* write error at any point. Buffered writing is not modelled apart from   *)
(* an error showing when writing or only when closing.                     *)
(***************************************************************************)
EXTENDS Outpkt
CONSTANTS Procs, Keys, Wrap, MaxPut, Faults, Seqs
VARIABLES files, seq, open, ev, lim, mode, left, put
vars == <<files, seq, open, ev, lim, mode, left, put>>
(* mode[p]: "run", "new" (about to make a packet), "flush", "close", "dead", "done" *)
None == [key |-> 0, num |-> 0, ids |-> <<>>, n |-> 0, open |-> FALSE, err |-> FALSE, todo |-> 0]
NameOf(key, num, st) == <<key, num, st>>
InitFiles == {f \in SUBSET {NameOf(k, n, "pkt") : k \in Keys, n \in 0..(Wrap - 1)} : Cardinality(f) <= 1}
OldFile(x) == [own |-> 0, key |-> x[1], ids |-> <<99>>, hdr |-> TRUE, part |-> FALSE, term |-> TRUE]
Init ==
  /\ \E s \in InitFiles : files = [x \in s |-> OldFile(x)]
  /\ seq \in Seqs /\ lim \in 1..2
  /\ open = [p \in Procs |-> <<>>]
  /\ ev = [p \in Procs |-> <<>>] /\ mode = [p \in Procs |-> [st |-> "run", k |-> 0, id |-> 0]]
  /\ left = Faults /\ put = 0
(* what the code is to do, and what it is not to do *)
Taken(k, n) == {NameOf(k, n, "tmp"), NameOf(k, n, "pkt")} \cap DOMAIN files # {}
NeverTaken(k, n) == FALSE
Broken(o) == o.err
NeverBroken(o) == o.n = 0 /\ o.err
NOpen(p) == Cardinality({i \in 1..Len(open[p]) : open[p][i].open})
At(p, key) == IdxOf(open[p], key)
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Tmp(o) == NameOf(o.key, o.num, "tmp")
Done(p, e) == ev' = [ev EXCEPT ![p] = Append(@, e)]
Run(p) == mode' = [mode EXCEPT ![p] = [st |-> "run", k |-> 0, id |-> 0]]
(* begin a put *)
Want(p, key) ==
  /\ mode[p].st = "run" /\ put < MaxPut
  /\ put' = put + 1
  /\ mode' = [mode EXCEPT ![p] = [st |-> IF At(p, key) = {} THEN "num" ELSE "write", k |-> key, id |-> put + 1]]
  /\ UNCHANGED <<files, seq, open, ev, lim, left>>
(* a number: those in use are passed over *)
Num(p) ==
  LET k == mode[p].k
  IN /\ mode[p].st = "num"
     /\ seq' = (seq + 1) % Wrap
     /\ IF Taken(k, seq)
        THEN UNCHANGED <<open, mode>>
        ELSE /\ open' = [open EXCEPT ![p] = Append(@, [None EXCEPT !.key = k, !.num = seq])]
             /\ mode' = [mode EXCEPT ![p].st = "new"]
     /\ UNCHANGED <<files, ev, lim, left, put>>
(* room: the packet with least messages is closed; an error may show only now *)
Room(p) == NOpen(p) >= lim
Least(p) == CHOOSE i \in 1..Len(open[p]) : open[p][i].open /\ \A j \in 1..Len(open[p]) : open[p][j].open => open[p][i].n <= open[p][j].n
CloseOne(p) ==
  /\ mode[p].st \in {"new", "write", "pub"} /\ Room(p)
  /\ LET i == Least(p) o == open[p][i]
     IN /\ (mode[p].st = "new" \/ (mode[p].st = "write" => ~\E j \in At(p, mode[p].k) : open[p][j].open)
             \/ (mode[p].st = "pub"))
        /\ ~(mode[p].st = "write" /\ \E j \in At(p, mode[p].k) : open[p][j].open)
        /\ ~(mode[p].st = "pub" /\ (open[p] = <<>> \/ Head(open[p]).open))
        /\ \/ /\ open' = [open EXCEPT ![p][i].open = FALSE] /\ UNCHANGED <<files, left, ev, mode>>
           \/ /\ left > 0 /\ left' = left - 1 /\ o.n > 0
              /\ open' = [open EXCEPT ![p] = [j \in 1..Len(open[p]) |->
                   IF j = i THEN [o EXCEPT !.open = FALSE, !.err = TRUE]
                   ELSE IF mode[p].st = "new" /\ j = Len(open[p]) THEN [open[p][j] EXCEPT !.err = TRUE] ELSE open[p][j]]]
              /\ files' = [files EXCEPT ![Tmp(o)].part = TRUE]
              /\ IF mode[p].st = "pub" THEN UNCHANGED <<ev, mode>>
                 ELSE Done(p, [op |-> "put", key |-> mode[p].k, id |-> mode[p].id, ok |-> FALSE]) /\ Run(p)
  /\ UNCHANGED <<seq, lim, put>>
Create(p) ==
  /\ mode[p].st = "new" /\ ~Room(p)
  /\ LET i == Len(open[p]) o == open[p][i]
     IN \/ /\ files' = Set(files, Tmp(o), [own |-> p, key |-> o.key, ids |-> <<>>, hdr |-> TRUE, part |-> FALSE, term |-> FALSE])
           /\ open' = [open EXCEPT ![p][i].open = TRUE]
           /\ mode' = [mode EXCEPT ![p].st = "write"] /\ UNCHANGED <<left, ev>>
        \/ /\ left > 0 /\ left' = left - 1
           /\ files' = Set(files, Tmp(o), [own |-> p, key |-> o.key, ids |-> <<>>, hdr |-> FALSE, part |-> TRUE, term |-> FALSE])
           /\ open' = [open EXCEPT ![p][i].err = TRUE]
           /\ Done(p, [op |-> "put", key |-> o.key, id |-> mode[p].id, ok |-> FALSE]) /\ Run(p)
  /\ UNCHANGED <<seq, lim, put>>
Write(p) ==
  /\ mode[p].st = "write"
  /\ LET i == CHOOSE i \in At(p, mode[p].k) : TRUE
         o == open[p][i]
         no == Done(p, [op |-> "put", key |-> o.key, id |-> mode[p].id, ok |-> FALSE])
     IN IF o.err THEN no /\ Run(p) /\ UNCHANGED <<files, open, left>>
        ELSE /\ o.open \/ ~Room(p)
             /\ \/ /\ files' = [files EXCEPT ![Tmp(o)].ids = Append(@, mode[p].id)]
                   /\ open' = [open EXCEPT ![p][i] = [@ EXCEPT !.open = TRUE, !.n = @ + 1]]
                   /\ Done(p, [op |-> "put", key |-> o.key, id |-> mode[p].id, ok |-> TRUE]) /\ UNCHANGED left
                \/ /\ left > 0 /\ left' = left - 1
                   /\ files' = [files EXCEPT ![Tmp(o)].part = TRUE]
                   /\ open' = [open EXCEPT ![p][i] = [@ EXCEPT !.open = TRUE, !.err = TRUE]] /\ no
             /\ Run(p)
  /\ UNCHANGED <<seq, lim, put>>
Close(p) ==
  /\ mode[p].st = "run" /\ open[p] # <<>>
  /\ mode' = [mode EXCEPT ![p] = [st |-> "pub", k |-> 1, id |-> 0]]
  /\ UNCHANGED <<files, seq, open, ev, lim, left, put>>
Publish(p) ==
  /\ mode[p].st = "pub"
  /\ IF open[p] = <<>> THEN
          /\ Done(p, [op |-> "close", ok |-> mode[p].k = 1]) /\ Run(p) /\ UNCHANGED <<files, open, left>>
     ELSE LET o == Head(open[p])
              drop == open' = [open EXCEPT ![p] = Tail(@)]
              bad == mode' = [mode EXCEPT ![p].k = 0]
          IN /\ o.open \/ Broken(o) \/ ~Room(p)
             /\ UNCHANGED ev
             /\ IF Broken(o) THEN drop /\ bad /\ UNCHANGED <<files, left>>
                ELSE \/ /\ files' = [x \in (DOMAIN files \ {Tmp(o)}) \cup {NameOf(o.key, o.num, "pkt")} |->
                                    IF x = NameOf(o.key, o.num, "pkt") THEN [files[Tmp(o)] EXCEPT !.term = TRUE] ELSE files[x]]
                        /\ drop /\ UNCHANGED <<mode, left>>
                     \/ /\ left > 0 /\ left' = left - 1 /\ drop /\ bad /\ UNCHANGED files
  /\ UNCHANGED <<seq, lim, put>>
Crash(p) ==
  /\ left > 0 /\ mode[p].st # "dead"
  /\ left' = left - 1
  /\ mode' = [mode EXCEPT ![p].st = "dead"]
  /\ UNCHANGED <<files, seq, open, ev, lim, put>>
Next == \E p \in Procs : (\E k \in Keys : Want(p, k)) \/ Num(p) \/ CloseOne(p) \/ Create(p) \/ Write(p) \/ Close(p) \/ Publish(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
Pkts == {x \in DOMAIN files : x[3] = "pkt"}
PublishedComplete == \A x \in Pkts : Complete(files[x])
DueBy(p) == Due(ev[p])
Cur(p) == Cut(DueBy(p).cur)
OnlyDue ==
  \A x \in Pkts : files[x].own # 0 =>
     LET p == files[x].own
     IN \E d \in DueBy(p).sure \cup DueBy(p).maybe \cup (IF mode[p].st \in {"pub", "dead"} THEN Cur(p) ELSE {}) : d = [key |-> x[1], ids |-> files[x].ids]
AllDue ==
  \A p \in Procs : \A d \in DueBy(p).sure : \E x \in Pkts : files[x].own = p /\ d = [key |-> x[1], ids |-> files[x].ids]
NoTmp == left = Faults /\ (\A p \in Procs : open[p] = <<>> /\ mode[p].st = "run") => Pkts = DOMAIN files
NeverOverwritten == [][\A x \in Pkts : x \in DOMAIN files' /\ files'[x] = files[x]]_vars
=============================================================================
