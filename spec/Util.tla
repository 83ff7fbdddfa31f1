-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the FIDOGATE specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Has(cfg, o) == In(o, cfg.opts)
Sel(s, P(_)) == SelectSeq(s, P)
First(s, P(_), default) ==
  IF \E i \in 1..Len(s) : P(s[i])
  THEN s[CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])]
  ELSE default
IndexOf(s, P(_)) ==
  IF \E i \in 1..Len(s) : P(s[i])
  THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
  ELSE 0
Remove(s, x) == LET P(y) == y # x IN SelectSeq(s, P)
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* number of occurrences *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
RECURSIVE FoldL(_, _, _)
FoldL(Op(_, _), acc, s) ==
  IF s = <<>> THEN acc ELSE FoldL(Op, Op(acc, Head(s)), Tail(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
(* drop adjacent repetitions *)
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) < 2 THEN s
            ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
(* ---- FTN addresses: <<zone, net, node, point>> ---- *)
NoNode == <<-1, -1, -1, -1>>
Wild == -2
Eq3(a, b) == a[2] = b[2] /\ a[3] = b[3] /\ a[4] = b[4]
In3(x, s) == \E i \in 1..Len(s) : Eq3(s[i], x)
Match(n, pat) == \A k \in 1..4 : pat[k] = Wild \/ pat[k] = n[k]
Less(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ a[2] < b[2]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
=============================================================================
