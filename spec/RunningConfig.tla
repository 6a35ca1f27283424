--------------------------- MODULE RunningConfig ---------------------------
(* Running-configs of a CLI device: trees of command lines, what makes two   *)
(* of them the same, what a diff of two has to say, and what a device does   *)
(* with the commands it is sent.                                             *)
(*                                                                           *)
(* A node is [l |-> line, c |-> children]; a line is a sequence of words.    *)
(* Voc holds the vocabulary: which lines are orderless at which depth, and   *)
(* the settings, i.e. groups of lines of which a section shows at most one.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt
Voc == JsonDeserialize(IOEnv.VP_RC)

HasPrefix(l, p) == Len(l) >= Len(p) /\ \A i \in 1..Len(p) : p[i] = "*" \/ p[i] = l[i]
(* the orderless patterns, by depth and number of words *)
Patterns == [d \in 0..9 |-> {Voc.orderless[i] : i \in {j \in 1..Len(Voc.orderless) : Voc.orderless[j].d = d}}]
Heads == [d \in 0..9 |-> {o.p[1] : o \in Patterns[d]}]
Orderless(l, d) ==
  /\ l[1] \in Heads[d] \/ "*" \in Heads[d]
  /\ \E o \in Patterns[d] : HasPrefix(l, o.p) /\ Len(l) >= Len(o.p) + o.more

(* ------------------------------------------------ sameness of two configs *)
Run(t, d) ==                    \* length of the leading run of orderless lines
  LET S == {i \in 1..Len(t) : ~Orderless(t[i].l, d)} IN
  IF S = {} THEN Len(t) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
RECURSIVE Same(_, _, _)
Same(a, b, d) ==
  LET n == Run(a, d) IN
  /\ n = Run(b, d)
  /\ Len(a) = Len(b)
  /\ \A i \in 1..n : \E j \in 1..n : a[i].l = b[j].l /\ Same(a[i].c, b[j].c, d + 1)
  /\ \A j \in 1..n : \E i \in 1..n : a[i].l = b[j].l
  /\ Len(a) = n \/ ( /\ a[n+1].l = b[n+1].l
                     /\ Same(a[n+1].c, b[n+1].c, d + 1)
                     /\ Same(SubSeq(a, n + 2, Len(a)), SubSeq(b, n + 2, Len(b)), d) )

(* the same lines, with those whose order matters in the same order *)
Ordered(t, d) == SelectSeq(t, LAMBDA n : ~Orderless(n.l, d))
RECURSIVE Alike(_, _, _)
Alike(a, b, d) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i].l = b[j].l /\ Alike(a[i].c, b[j].c, d + 1)
  /\ LET x == Ordered(a, d)  y == Ordered(b, d) IN
     Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].l = y[i].l

(* ------------------------------------------------------------------ diffs *)
(* an entry is [l |-> line, m |-> "+" "-" or "", c |-> entries]              *)
RECURSIVE Full(_)
Full(es) == [i \in 1..Len(es) |-> [l |-> es[i].l, c |-> Full(es[i].c)]]
Lines(t) == {t[i].l : i \in 1..Len(t)}
Where(t, l) == CHOOSE i \in 1..Len(t) : t[i].l = l
Marked(es, l, m) == \E i \in 1..Len(es) : es[i].l = l /\ es[i].m = m

(* what is left of t without the lines a diff marks with m *)
RECURSIVE Without(_, _, _)
Without(t, es, m) ==
  LET One(n) ==
        IF Marked(es, n.l, m) THEN <<>>
        ELSE LET S == {i \in 1..Len(es) : es[i].l = n.l /\ es[i].m = "" /\ es[i].c # <<>>} IN
             IF S = {} THEN <<n>>
             ELSE <<[n EXCEPT !.c = Without(n.c, es[CHOOSE i \in S : TRUE].c, m)]>>
  IN FlattenSeq([i \in 1..Len(t) |-> One(t[i])])

(* every mark refers to what is there *)
RECURSIVE Truthful(_, _, _, _)
Truthful(es, a, b, d) ==
  /\ \A i, j \in 1..Len(es) : i # j => es[i].l # es[j].l \/ es[i].m # es[j].m
  /\ \A i \in 1..Len(es) :
       LET e == es[i] IN
       CASE e.m = "-" -> e.l \in Lines(a) /\ Alike(Full(e.c), a[Where(a, e.l)].c, d + 1)
         [] e.m = "+" -> e.l \in Lines(b) /\ Alike(Full(e.c), b[Where(b, e.l)].c, d + 1)
         [] OTHER -> /\ e.l \in Lines(a) \cap Lines(b)
                     /\ Truthful(e.c, a[Where(a, e.l)].c, b[Where(b, e.l)].c, d + 1)

(* lines are reported as removed and added, i.e. moved, only where two lines *)
(* changed places and their order matters                                    *)
Clash(a, b, x, y, d) ==
  /\ ~Orderless(x, d) \/ ~Orderless(y, d)
  /\ (Where(a, x) < Where(a, y)) # (Where(b, x) < Where(b, y))
Moves(a, b, d) == \E x, y \in Lines(a) \cap Lines(b) : x # y /\ Clash(a, b, x, y, d)
RECURSIVE Restless(_, _, _, _)
Restless(es, a, b, d) ==
  /\ (\E i \in 1..Len(es) : es[i].m = "+" /\ Marked(es, es[i].l, "-")) => Moves(a, b, d)
  /\ \A i \in 1..Len(es) : es[i].m = "" /\ es[i].c # <<>> /\ es[i].l \in Lines(a) \cap Lines(b) =>
       Restless(es[i].c, a[Where(a, es[i].l)].c, b[Where(b, es[i].l)].c, d + 1)

(* the diff as it is printed: everything in an added section is added *)
RECURSIVE Printed(_, _)
Printed(es, m) ==
  [i \in 1..Len(es) |->
     LET mm == IF m = "" THEN es[i].m ELSE m IN
     [l |-> es[i].l, m |-> mm, c |-> Printed(es[i].c, mm)]]

(* a reference diff: keep as many common lines as the order allows *)
RECURSIVE Blank(_)
Blank(t) == [i \in 1..Len(t) |-> [l |-> t[i].l, m |-> "", c |-> Blank(t[i].c)]]
All(t, m) == [i \in 1..Len(t) |-> [l |-> t[i].l, m |-> m, c |-> Blank(t[i].c)]]
Kept(a, b, d) ==
  LET S == {K \in SUBSET (Lines(a) \cap Lines(b)) : \A x, y \in K : x = y \/ ~Clash(a, b, x, y, d)}
  IN CHOOSE K \in S : \A J \in S : Cardinality(J) <= Cardinality(K)
RECURSIVE RefDiff(_, _, _)
RefDiff(a, b, d) ==
  LET K == Kept(a, b, d) IN
  SelectSeq(All(a, "-"), LAMBDA e : e.l \notin K)
  \o FlattenSeq([i \in 1..Len(b) |->
       IF b[i].l \notin K THEN <<All(b, "+")[i]>>
       ELSE LET o == a[Where(a, b[i].l)].c IN
            IF Same(o, b[i].c, d + 1) THEN <<>>
            ELSE <<[l |-> b[i].l, m |-> "", c |-> RefDiff(o, b[i].c, d + 1)]>>])

(* ----------------------------------------------------------------- device *)
(* the state of a device: a set of [l |-> line, c |-> set]                   *)
RECURSIVE AsSet(_)
AsSet(t) == {[l |-> t[i].l, c |-> AsSet(t[i].c)] : i \in 1..Len(t)}
SettingsAt(l, d) == {i \in 1..Len(Voc.settings) : Voc.settings[i].d = d /\ \E k \in 1..Len(Voc.settings[i].s) : Voc.settings[i].s[k] = l}
Values(i) == {Voc.settings[i].s[k] : k \in 1..Len(Voc.settings[i].s)}

RECURSIVE Exec(_, _, _), ExecAll(_, _, _)
Exec(st, cmd, d) ==
  IF cmd.c # <<>>
  THEN LET old == {n \in st : n.l = cmd.l}
           sub == IF old = {} THEN {} ELSE (CHOOSE n \in old : TRUE).c IN
       (st \ old) \cup {[l |-> cmd.l, c |-> ExecAll(sub, cmd.c, d + 1)]}
  ELSE LET own == SettingsAt(cmd.l, d) IN
       IF own # {}
       THEN {n \in st : ~\E i \in own : n.l \in Values(i)} \cup {[l |-> cmd.l, c |-> {}]}
       ELSE IF Head(cmd.l) = "no"
       THEN {n \in st : ~HasPrefix(n.l, Tail(cmd.l))}
       ELSE IF SettingsAt(<<"no">> \o cmd.l, d) # {}
       THEN {n \in st : n.l # <<"no">> \o cmd.l}
       ELSE IF \E n \in st : n.l = cmd.l THEN st
       ELSE st \cup {[l |-> cmd.l, c |-> {}]}
ExecAll(st, cmds, d) == IF cmds = <<>> THEN st ELSE ExecAll(Exec(st, Head(cmds), d), Tail(cmds), d)

(* reference commands from a to b *)
Cmd(l) == [l |-> l, c |-> <<>>]
Undo(l, d, b) ==
  IF \E i \in SettingsAt(l, d) : \E k \in 1..Len(b) : b[k].l \in Values(i) THEN <<>>
  ELSE IF Head(l) = "no" THEN <<Cmd(Tail(l))>>
  ELSE <<Cmd(<<"no">> \o l)>>
RECURSIVE RefCli(_, _, _)
RefCli(a, b, d) ==
  FlattenSeq([i \in 1..Len(a) |-> IF a[i].l \in Lines(b) THEN <<>> ELSE Undo(a[i].l, d, b)])
  \o FlattenSeq([i \in 1..Len(b) |->
       IF b[i].l \notin Lines(a) THEN <<b[i]>>
       ELSE LET sub == RefCli(a[Where(a, b[i].l)].c, b[i].c, d + 1) IN
            IF sub = <<>> THEN <<>> ELSE <<[l |-> b[i].l, c |-> sub]>>])
=============================================================================
