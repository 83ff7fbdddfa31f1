------------------------------- MODULE MCFlood -------------------------------
(* every connected or unconnected topology of N systems, every order of      *)
(* delivery, one message posted at system 1                                  *)
EXTENDS Flood
CONSTANTS N, Dupes, Paths
OptSets == {(IF d THEN <<"DupeCheck">> ELSE <<>>) \o (IF p THEN <<"CheckPath">> ELSE <<>>) : d \in Dupes, p \in Paths}
Addr(k) == <<2, 1, k, 0>>
Graphs == SUBSET {<<a, b>> \in (1..N) \X (1..N) : a < b}
RECURSIVE Nbr(_, _, _)
Nbr(g, k, j) == IF j > N THEN <<>>
                ELSE (IF <<k, j>> \in g \/ <<j, k>> \in g THEN <<Addr(j)>> ELSE <<>>) \o Nbr(g, k, j + 1)
Sys(g, k, o) ==
  [cfg |-> [akas |-> <<Addr(k)>>, opts |-> o, add |-> <<>>, del |-> <<>>, delp |-> <<>>, zg |-> <<>>,
            ro |-> <<>>, pw |-> <<>>, maxhist |-> 14],
   area |-> [name |-> "A", zone |-> 2, addr |-> NoNode, uplinks |-> 1, passthru |-> FALSE,
             state |-> <<>>, nodes |-> Nbr(g, k, 1), passive |-> <<>>]]
Init == /\ \E g \in Graphs, o \in OptSets : net = [k \in 1..N |-> Sys(g, k, o)]
        /\ hist = [k \in 1..N |-> {}]
        /\ got = [k \in 1..N |-> <<>>]
        /\ flight = {[uid |-> "m", from |-> Addr(1), to |-> Addr(1), seenby |-> {}, path |-> <<>>]}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Next == \E f \in flight : Deliver(SysOf(f.to), f, ToSeq(f.seenby))
Spec == Init /\ [][Next]_fvars /\ WF_fvars(Next)

Dupe == Has(net[1].cfg, "DupeCheck")
(* nobody is sent its own message again by dupe check; once per system *)
AtMostOnce == Dupe => \A s \in Systems : Len(got[s]) <= 1
(* every copy names its sender and its receiver, and its path ends in the sender *)
WellFormed == \A f \in flight :
   f.from # f.to => /\ <<1, f.from[3], 0>> \in f.seenby /\ <<1, f.to[3], 0>> \in f.seenby
                    /\ f.path[Len(f.path)] = <<1, f.from[3], 0>>
                    /\ \A i, j \in 1..Len(f.path) : i # j => f.path[i] # f.path[j]
Everybody == flight = {} =>
   \A s \in Component(1) \ {1} : Len(got[s]) >= 1
NobodyElse == \A s \in Systems \ Component(1) : got[s] = <<>>
Terminates == <>[](flight = {})
=============================================================================
