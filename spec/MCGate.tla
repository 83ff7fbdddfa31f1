------------------------------- MODULE MCGate -------------------------------
(***************************************************************************)
(* The gateway at work, line by line, over all small articles and area     *)
(* tables. It counts the parts first and then writes them, as two passes;  *)
(* Gate.tla's functions are what the result is compared with, and the      *)
(* promises of P19 and P20 are stated without them.                        *)
(***************************************************************************)
EXTENDS Gate
CONSTANTS Variant, MaxLines, Groups3
Me == <<2, 1, 1, 0>>
Alt == <<3, 1, 1, 0>>
Up2 == <<2, 1, 9, 0>>
Up3 == <<3, 1, 9, 0>>
AreaOf(g, max, limit, nox, no, addr) ==
  [area |-> UpC(g), group |-> g, hier |-> FALSE, no |-> no, nox |-> nox, localx |-> FALSE, zone |-> 2, addr |-> addr, max |-> max, limit |-> limit]
Tables == {<<AreaOf("a", m, l, x, FALSE, ad), AreaOf("b", 0, 0, FALSE, n, NoNode)>> :
             m \in {0, 3, 5}, l \in {0, 4}, x \in BOOLEAN, n \in BOOLEAN, ad \in {NoNode, Alt}}
Cfg(tb) == [akas |-> <<Me, Alt>>, uplinks |-> <<Up2, Up3>>, areas |-> tb, xlate |-> <<>>, bbs |-> <<>>, check |-> FALSE,
        acl |-> <<[kind |-> "News", who |-> "*", what |-> <<"*">>]>>, gateway |-> NoNode, fqdn |-> "h", origin |-> "o",
        old |-> FALSE, max |-> 0, limit |-> 0, restricted |-> FALSE, aliases |-> <<>>]
Line(s, lf) == [text |-> s, lf |-> lf]
GroupLists == {<<"a">>, <<"b">>, <<"c", "a">>, <<"a", "b">>} \cup (IF Groups3 THEN {<<"b", "c", "a">>, <<"c">>} ELSE {})
VARIABLES table, lines, left, todo, cur, out, phase
(* cur: the message being written; left: lines not yet written of it *)
vars == <<table, lines, left, todo, cur, out, phase>>
Texts == {"", "x", "xyz"}
Art == [user |-> "u", host |-> "h", real |-> "", groups |-> todo, xpost |-> Len(todo) > 1, control |-> FALSE, rcpt |-> <<>>,
        subject |-> "s", lines |-> lines]
None == [area |-> "", n |-> 0, part |-> 0, size |-> 0, max |-> 0, xpost |-> FALSE]
Init == /\ table \in Tables /\ lines = <<>> /\ left = <<>> /\ todo \in GroupLists /\ cur = None /\ out = <<>>
        /\ phase = [at |-> "read", g |-> 1]
Read == /\ phase.at = "read"
        /\ \/ /\ Len(lines) < MaxLines /\ (IF lines = <<>> THEN TRUE ELSE lines[Len(lines)].lf)
              /\ \E s \in Texts, lf \in BOOLEAN : (lf \/ s # "") /\ lines' = Append(lines, Line(s, lf))
              /\ UNCHANGED <<table, left, todo, cur, out, phase>>
           \/ phase' = [at |-> "group", g |-> 1] /\ UNCHANGED <<table, lines, left, todo, cur, out>>
(* the first pass *)
RECURSIVE CountParts(_, _, _, _)
CountParts(ls, max, n, size) ==
  IF ls = <<>> THEN n
  ELSE LET c == IF Variant = "count" THEN Len(Head(ls).text) ELSE OnWire(Head(ls))
           s == size + c
       IN IF max > 0 /\ s > max THEN CountParts(Tail(ls), max, n + 1, 0) ELSE CountParts(Tail(ls), max, n, s)
Begin ==
  /\ phase.at = "group"
  /\ IF phase.g > Len(todo) THEN phase' = [phase EXCEPT !.at = "end"] /\ UNCHANGED <<left, cur, out>>
     ELSE LET x == Lookup(Cfg(table), todo[phase.g])
              ok == IF Variant = "xpost" THEN Takes(Cfg(table), [Art EXCEPT !.xpost = FALSE], x)
                    ELSE IF Variant = "limit" THEN Takes(Cfg(table), Art, [x EXCEPT !.limit = 0]) ELSE Takes(Cfg(table), Art, x)
          IN IF x = NoArea \/ ~ok THEN phase' = [phase EXCEPT !.g = @ + 1] /\ UNCHANGED <<left, cur, out>>
             ELSE LET n == CountParts(lines, MaxOf(Cfg(table), x), 1, 0)
                  IN /\ phase' = [phase EXCEPT !.at = "write"] /\ left' = lines
                     /\ cur' = [area |-> x.area, n |-> n, part |-> 1, size |-> 0, max |-> MaxOf(Cfg(table), x), from |-> Own(Cfg(table), x), to |-> Feed(Cfg(table), x)]
                     /\ out' = Append(out, [area |-> x.area, part |-> 1, n |-> n, text |-> <<>>, from |-> Own(Cfg(table), x), to |-> Feed(Cfg(table), x)])
  /\ UNCHANGED <<table, lines, todo>>
Last == Len(out)
Put ==
  /\ phase.at = "write" /\ left # <<>>
  /\ LET s == cur.size + OnWire(Head(left))
         over == cur.n > 1 /\ s > cur.max
         w == [out EXCEPT ![Last].text = Append(@, Head(left))]
     IN IF ~over THEN out' = w /\ cur' = [cur EXCEPT !.size = s] /\ left' = Tail(left) /\ UNCHANGED phase
        ELSE /\ out' = Append(w, [area |-> cur.area, part |-> cur.part + 1, n |-> cur.n, text |-> <<>>, from |-> cur.from, to |-> cur.to])
             /\ cur' = [cur EXCEPT !.size = IF Variant = "reset" THEN s ELSE 0, !.part = @ + 1]
             /\ left' = Tail(left) /\ UNCHANGED phase
  /\ UNCHANGED <<table, lines, todo>>
Close ==
  /\ phase.at = "write" /\ left = <<>>
  /\ phase' = IF Variant = "once" THEN [phase EXCEPT !.at = "end"] ELSE [at |-> "group", g |-> phase.g + 1]
  /\ cur' = None /\ UNCHANGED <<table, lines, left, todo, out>>
Next == Read \/ Begin \/ Put \/ Close
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Next)

(* ---- the promises ----------------------------------------------------- *)
Of(a) == LET P(m) == m.area = a IN SelectSeq(out, P)
Bytes(ls) == LET Add(n, l) == n + OnWire(l) IN FoldL(Add, 0, ls)
Total == Bytes(lines)
Ended == phase.at = "end"
Row(g) == table[IF g = "a" THEN 1 ELSE 2]
Wanted(g) == /\ g \in {"a", "b"} /\ ~Row(g).no
             /\ ~(Row(g).nox /\ Len(todo) > 1)
             /\ (Row(g).limit > 0 => ArtSize(Art) <= Row(g).limit)
RightAreas == Ended => {m.area : m \in Range(out)} = {UpC(g) : g \in {x \in Range(todo) : Wanted(x)}}
Texts2(ms) == Cat([k \in 1..Len(ms) |-> ms[k].text])
Whole == Ended => \A a \in {m.area : m \in Range(out)} : Texts2(Of(a)) = lines
Numbered == Ended => \A a \in {m.area : m \in Range(out)} :
              \A k \in 1..Len(Of(a)) : Of(a)[k].part = k /\ Of(a)[k].n = Len(Of(a))
Butlast(s) == SubSeq(s, 1, Len(s) - 1)
Small == \A k \in 1..Len(out) :
  LET mx == MaxOf(Cfg(table), IF out[k].area = "A" THEN table[1] ELSE table[2])
  IN mx > 0 /\ out[k].text # <<>> => Bytes(Butlast(out[k].text)) <= mx
InOne == Ended => \A k \in 1..Len(out) :
  LET mx == MaxOf(Cfg(table), IF out[k].area = "A" THEN table[1] ELSE table[2])
  IN mx = 0 \/ Total <= mx => out[k].n = 1
Address == \A k \in 1..Len(out) : out[k].from = (IF out[k].area = "A" /\ table[1].addr = Alt THEN Alt ELSE Me)
                              /\ out[k].to = (IF out[k].from = Alt THEN Up3 ELSE Up2)
(* the functions Gate.tla gives, which the programs are compared with, say the same *)
Agrees == Ended => \A ms \in {TLCEval(News(Cfg(table), Art))} :
  /\ Len(ms) = Len(out)
  /\ \A k \in 1..Len(out) : ms[k].area = out[k].area /\ ms[k].from = out[k].from /\ ms[k].to = out[k].to
       /\ ms[k].text = [j \in 1..Len(out[k].text) |-> out[k].text[j].text]
       /\ ms[k].split = (IF out[k].n > 1 THEN Two(out[k].part) \o "/" \o Two(out[k].n) ELSE "")
Done == <>(phase.at = "end")
=============================================================================
