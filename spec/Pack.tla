-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* The packer: from the queue of routed packets to the Binkley outbound.   *)
(*                                                                         *)
(*  cfg  [akas, pw, zones, aso, rules, max, last, disp, day, fdir, ign]    *)
(*    zones <<[zone, dir], ...>>;  max  bytes, 0 no limit;  last  0..35    *)
(*    rules <<[type, cmd, kind, prog, dir, max, nodes], ...>>              *)
(*      cmd  pack rpack fpack dirpack dirmove;  kind arc noarc prog progn  *)
(*  A file of the outbound is named by a key: <<dir, numbers...>>.         *)
(*  state                                                                  *)
(*    queue  <<pk, ...>>  pk [name, from, to, pw, type, flav, size, msgs]  *)
(*    outs   {[key, ext, from, to, pw, msgs, bad]}                         *)
(*    arcs   {[key, day, digit, size, fresh, pks]}                         *)
(*    flos   {[key, ext, lines, bad]}, lines <<[m, f], ...>>               *)
(*    bsys   {[key, kind]}                                                 *)
(*    moved  {[dir, name, from, to, pw, msgs]}                             *)
(*    files  {name}  files that messages can refer to                      *)
(*    progs  <<[prog, name], ...>>  programs called                        *)
(*    plan   <<BOOLEAN, ...>>  which of the next external programs succeed *)
(***************************************************************************)
EXTENDS Addr, Toss

OutExts == <<"hut", "out", "dut", "cut">>
FloExts == <<"hlo", "flo", "dlo", "clo">>
OutExt(f) == CASE f = "h" -> "hut" [] f = "n" -> "out" [] f = "d" -> "dut" [] f = "c" -> "cut"
FloExt(f) == CASE f = "h" -> "hlo" [] f = "n" -> "flo" [] f = "d" -> "dlo" [] f = "c" -> "clo"
DispMark(d) == <<"#", "^", "@">>[d + 1]
FileBit == 16
Types == {"n", "e", "t"}
Flavs == {"n", "h", "c", "d"}
PkType(pk) == IF pk.type \in Types /\ pk.flav \in Flavs THEN pk.type ELSE "-"
PkFlav(pk) == IF pk.type \in Types /\ pk.flav \in Flavs THEN pk.flav ELSE "n"

(* ---- names ---- *)
ZoneDir(cfg, z) == LET P(e) == e.zone = z IN First(cfg.zones, P, [zone |-> z, dir |-> ""]).dir
Known(cfg, n) == cfg.aso \/ ZoneDir(cfg, n[1]) # ""
NodeKey(cfg, n) ==
  IF cfg.aso THEN <<ZoneDir(cfg, 0), n[1], n[2], n[3], n[4]>>
  ELSE IF n[4] > 0 THEN <<ZoneDir(cfg, n[1]), n[2], n[3], 0, n[4]>>
  ELSE <<ZoneDir(cfg, n[1]), n[2], n[3]>>
Minus(a, b) == (a - b) % 65536
ArcKey(cfg, n, dir) ==
  LET me == cfg.akas[1]
      d == IF dir # "" THEN dir ELSE IF cfg.aso THEN ZoneDir(cfg, 0) ELSE ZoneDir(cfg, n[1])
  IN IF cfg.aso THEN <<d, n[1], n[2], n[3], n[4]>>
     ELSE IF n[4] = 0 THEN <<d, Minus(me[2], n[2]), Minus(me[3], n[3])>>
     ELSE IF dir # "" THEN <<d, 0, Minus(me[4], n[4])>>
     ELSE <<d, n[2], n[3], 0, Minus(me[4], n[4])>>

(* ---- which archive of the day is used ---- *)
Arc(arcs, key, day, c) == CHOOSE a \in arcs : a.key = key /\ a.day = day /\ a.digit = c
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* empty archives have been sent: they are removed and their digits are not *)
(* used again for a day                                                     *)
Choose(arcs, key, day, last, max, psize) ==
  LET There == {c \in 0..last : \E a \in arcs : a.key = key /\ a.day = day /\ a.digit = c}
      Sz(c) == Arc(arcs, key, day, c).size
      Exist == {c \in There : ~(c = last /\ Sz(c) = 0)}
      Fresh == {c \in Exist : Sz(c) = 0 /\ Arc(arcs, key, day, c).fresh}
      Full(c) == max > 0 /\ Sz(c) >= max + (IF psize < 0 THEN 0 ELSE psize \div 2)
      Fits == {c \in Exist : Sz(c) > 0 /\ ~Full(c)}
      Used == {c \in Exist : Sz(c) > 0} \cup Fresh
      top == Max0(Used)
      cc == IF Used = {} THEN 0 ELSE IF top \in Fits THEN top ELSE MinN(top + 1, last)
      Holes == ((0..last) \ Exist) \cup Fresh
      Smallest == {c \in Exist : Sz(c) > 0 /\ \A d \in Exist : Sz(d) > 0 => Sz(c) <= Sz(d)}
  IN IF Fits # {} THEN MinOf(Fits)
     ELSE IF cc = last /\ last \in Exist /\ Sz(last) > max
     THEN IF Holes = {} THEN Max0(Smallest) ELSE MinOf(Holes)
     ELSE cc
WithoutEmpty(arcs, key, day, last) ==
  {a \in arcs : ~(a.key = key /\ a.day = day /\ a.size = 0 /\ a.digit <= last)}

(* ---- the busy flag ---- *)
Held(s, key) == \E b \in s.bsys : b.key = key /\ b.kind # "dead"
CanLock(cfg, s, n) == Known(cfg, n) /\ ~Held(s, NodeKey(cfg, n))
(* ours is gone when we are done, and so is one a dead process had left     *)
Unlock(cfg, s, n) == [s EXCEPT !.bsys = {b \in @ : b.key # NodeKey(cfg, n)}]

(* ---- flow files ---- *)
FloOf(cfg, s, n, flav) ==
  LET E(x) == \E f \in s.flos : f.key = NodeKey(cfg, n) /\ f.ext = x
      i == IndexOf(FloExts, E)
  IN IF i # 0 THEN FloExts[i] ELSE FloExt(flav)
FloLine(cfg, s, n, flav) == {f \in s.flos : f.key = NodeKey(cfg, n) /\ f.ext = FloOf(cfg, s, n, flav)}
CanAttach(cfg, s, n, flav) == \A f \in FloLine(cfg, s, n, flav) : ~f.bad
Attach(cfg, s, n, flav, mark, ref) ==
  LET key == NodeKey(cfg, n)
      ext == FloOf(cfg, s, n, flav)
      old == FloLine(cfg, s, n, flav)
      lines == IF old = {} THEN <<>> ELSE (CHOOSE f \in old : TRUE).lines
      there == \E i \in 1..Len(lines) : lines[i].m # "~" /\ lines[i].f = ref
      new == IF there THEN lines ELSE Append(lines, [m |-> mark, f |-> ref])
  IN [s EXCEPT !.flos = (@ \ old) \cup {[key |-> key, ext |-> ext, lines |-> new, bad |-> FALSE]}]

(* files that messages of a netmail packet carry                            *)
FileAttach(cfg, s, n, flav, m) ==
  IF ~Bit(m.attr, FileBit) \/ cfg.fdir = "" THEN s
  ELSE IF cfg.fdir = "/"
  THEN IF cfg.ign = 0
       THEN IF CanAttach(cfg, s, n, flav) THEN Attach(cfg, s, n, flav, " ", <<"file", m.subj>>) ELSE s
       ELSE IF cfg.ign = 1 THEN [s EXCEPT !.files = @ \ {m.subj}] ELSE s
  ELSE IF \E f \in s.files : f = cfg.fdir \o "/" \o m.subj
  THEN LET f == cfg.fdir \o "/" \o m.subj IN
       IF cfg.ign = 0
       THEN IF CanAttach(cfg, s, n, flav) THEN Attach(cfg, s, n, flav, "^", <<"file", f>>) ELSE s
       ELSE IF cfg.ign = 1 THEN [s EXCEPT !.files = @ \ {f}] ELSE s
  ELSE s
FileAttaches(cfg, s, pk, n) ==
  LET Op(acc, m) == FileAttach(cfg, acc, n, PkFlav(pk), m)
  IN IF PkType(pk) = "n" THEN FoldL(Op, s, pk.msgs) ELSE s

(* ---- the commands ---- *)
Uids(pk) == [j \in 1..Len(pk.msgs) |-> pk.msgs[j].uid]
Renewed(cfg, pk) == [pk EXCEPT !.from = BestAka(cfg, pk.to[1]), !.pw = PacketPw(cfg, pk.to).pw]
Contents(pk) == [from |-> pk.from, to |-> pk.to, pw |-> pk.pw, msgs |-> Uids(pk)]
Dequeue(s, pk) == LET K(p) == p.name # pk.name IN [s EXCEPT !.queue = SelectSeq(@, K)]
Requeue(s, pk) == [s EXCEPT !.queue = [i \in 1..Len(@) |-> IF @[i].name = pk.name THEN pk ELSE @[i]]]
Worked(s) == s.plan = <<>> \/ Head(s.plan)
Called(s) == [s EXCEPT !.plan = IF @ = <<>> THEN @ ELSE Tail(@)]

(* appended to the packet of the node                                       *)
NoArc(cfg, s, pk) ==
  LET n == pk.to
      E(x) == \E o \in s.outs : o.key = NodeKey(cfg, n) /\ o.ext = x
      i == IndexOf(OutExts, E)
      ext == IF i # 0 THEN OutExts[i] ELSE OutExt(PkFlav(pk))
      old == {o \in s.outs : o.key = NodeKey(cfg, n) /\ o.ext = ext}
      o == CHOOSE x \in old : TRUE
      new == IF old = {} \/ (\E x \in old : x.empty)
             THEN [key |-> NodeKey(cfg, n), ext |-> ext, from |-> BestAka(cfg, n[1]), to |-> n,
                   pw |-> PacketPw(cfg, n).pw, msgs |-> Uids(pk), bad |-> FALSE, empty |-> FALSE]
             ELSE [o EXCEPT !.msgs = @ \o Uids(pk)]
      s1 == FileAttaches(cfg, s, pk, n)
  IN IF \E x \in old : x.bad THEN s
     ELSE Dequeue([s1 EXCEPT !.outs = (@ \ old) \cup {new}], pk)

(* put into an archive, which is listed in the flow file of flonode         *)
Archive(cfg, s, pk, r, arcnode, flonode) ==
  LET key == ArcKey(cfg, arcnode, r.dir)
      last == cfg.last
      max == IF r.max > 0 THEN r.max ELSE cfg.max
      c == Choose(s.arcs, key, cfg.day, last, max, IF cfg.same THEN pk.size ELSE -1)
      s1 == [s EXCEPT !.arcs = WithoutEmpty(@, key, cfg.day, last)]
      \* other than echomail is copied, with a header of its own
      copied == PkType(pk) # "e"
      s2 == IF copied THEN FileAttaches(cfg, s1, pk, flonode) ELSE s1
      pk2 == IF copied THEN Renewed(cfg, pk) ELSE pk
      old == {a \in s1.arcs : a.key = key /\ a.day = cfg.day /\ a.digit = c}
      has == IF old = {} THEN [size |-> 0, pks |-> <<>>]
             ELSE LET a == CHOOSE x \in old : TRUE IN [size |-> a.size, pks |-> a.pks]
      new == [key |-> key, day |-> cfg.day, digit |-> c, size |-> has.size + pk.size + 8, fresh |-> TRUE,
              pks |-> Append(has.pks, Contents(pk2))]
      s3 == Requeue(Called(s2), pk2)
      s4 == [s3 EXCEPT !.arcs = (@ \ old) \cup {new}]
  IN IF ~Worked(s2) THEN s3
     ELSE IF r.dir # "" THEN Dequeue(s4, pk)
     ELSE IF CanAttach(cfg, s2, flonode, PkFlav(pk))
     THEN Dequeue(Attach(cfg, s4, flonode, PkFlav(pk), DispMark(cfg.disp), <<"arc", key, cfg.day, c>>), pk)
     ELSE s4

Program(cfg, s, pk, r) ==
  LET s1 == IF Worked(s) THEN [Called(s) EXCEPT !.progs = Append(@, [prog |-> r.prog, name |-> pk.name])]
            ELSE Called(s)
  IN IF Worked(s) /\ r.kind = "prog" THEN Dequeue(s1, pk) ELSE s1

ToFirst(cfg, r) == Zeroed(CompleteList(r.nodes, Start(cfg.akas[1][1]))[1])
Do(cfg, s, pk, r) ==
  IF r.dir # ""
  THEN LET n == pk.to IN
       IF ~CanLock(cfg, s, n) THEN s
       ELSE Unlock(cfg,
              IF r.cmd = "dirmove"
              THEN Dequeue([FileAttaches(cfg, s, pk, n) EXCEPT !.moved = @ \cup
                     {[Contents(Renewed(cfg, pk)) EXCEPT !.msgs = Uids(pk)] @@ [dir |-> r.dir, name |-> pk.name]}], pk)
              ELSE IF r.kind = "arc" THEN Archive(cfg, s, pk, r, n, n) ELSE s, n)
  ELSE LET own == r.kind = "noarc" \/ (r.kind = "arc" /\ PkFlav(pk) = "c")
           arcnode == IF ~own /\ r.cmd = "rpack" THEN ToFirst(cfg, r) ELSE pk.to
           flonode == IF ~own /\ r.cmd \in {"rpack", "fpack"} THEN ToFirst(cfg, r) ELSE pk.to
       IN IF ~CanLock(cfg, s, arcnode) THEN s
          ELSE IF ~CanLock(cfg, s, flonode) THEN Unlock(cfg, s, arcnode)
          ELSE Unlock(cfg, Unlock(cfg,
                 CASE own -> NoArc(cfg, s, pk)
                   [] ~own /\ r.kind = "arc" -> Archive(cfg, s, pk, r, arcnode, flonode)
                   [] OTHER -> Program(cfg, s, pk, r), arcnode), flonode)

RuleFor(cfg, pk) ==
  LET M(r) == r.type = PkType(pk) /\ PMatchAny(pk.to, CompleteList(r.nodes, Start(cfg.akas[1][1])))
  IN IndexOf(cfg.rules, M)
PackOne(cfg, s, pk) == LET i == RuleFor(cfg, pk) IN IF i = 0 THEN s ELSE Do(cfg, s, pk, cfg.rules[i])
(* one run of the packer over the packets it was asked for                  *)
PackRun(cfg, s, names) ==
  LET Op(acc, pk) == IF pk.name \in names THEN PackOne(cfg, acc, pk) ELSE acc
  IN FoldL(Op, s, s.queue)
=============================================================================
