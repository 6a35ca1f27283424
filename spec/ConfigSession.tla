---------------------------- MODULE ConfigSession ----------------------------
(* A program working with configurations: registers hold Config objects,     *)
(* slots hold ConfigDelta objects.  Every call yields a new object; no call  *)
(* changes an object that exists already.  Do(c, s, pay) is the effect of    *)
(* call c on the session state s; pay is the edit-config payload of the      *)
(* delta that c uses, if any.                                                *)
EXTENDS Delta, Select, Universe
Regs == 1..3
Slots == 1..2

Empty == [regs |-> [r \in Regs |-> <<>>], dels |-> [d \in Slots |-> [src |-> <<>>, dst |-> <<>>]], err |-> ""]
SetReg(s, r, v) == [s EXCEPT !.regs[r] = v, !.err = ""]
SetDel(s, d, src, dst) == [s EXCEPT !.dels[d] = [src |-> src, dst |-> dst], !.err = ""]
Failed(s, e) == [s EXCEPT !.err = e]

Do(c, s, pay) ==
  CASE c.op = "load" -> SetReg(s, c.t, Normal(c.cfg))
    [] c.op = "copy" -> SetReg(s, c.t, s.regs[c.r])
    [] c.op = "add"  -> SetReg(s, c.t, Apply(s.regs[c.r], AsEdit(s.regs[c.s])).k)
    [] c.op = "sub"  -> SetDel(s, c.d, s.regs[c.s], s.regs[c.r])
    [] c.op = "neg"  -> SetDel(s, c.d, s.dels[c.x].dst, s.dels[c.x].src)
    [] c.op = "apply" ->
         LET a == Apply(s.regs[c.r], pay) IN
         IF a.err # "" THEN Failed(s, "ConfigDeltaError") ELSE SetReg(s, c.t, a.k)
    [] c.op = "edit" ->
         LET a == Apply(s.regs[c.r], pay) IN
         IF a.err # "" THEN Failed(s, "ConfigDeltaError") ELSE SetDel(s, c.d, s.regs[c.r], a.k)
    [] c.op = "filter" ->
         LET sel == Chosen(s.regs[c.r], c.steps) IN
         SetReg(s, c.t, IF sel = {} THEN <<>> ELSE Keep(s.regs[c.r], sel, <<>>, ""))
    [] c.op \in {"cmp", "payload", "print", "empty?"} -> [s EXCEPT !.err = ""]

(* what a query answers *)
Answer(c, s) ==
  CASE c.op = "cmp" -> [eq |-> Equal(s.regs[c.r], s.regs[c.s]), le |-> Included(s.regs[c.r], s.regs[c.s]),
                        ge |-> Included(s.regs[c.s], s.regs[c.r])]
    [] OTHER -> [eq |-> FALSE, le |-> FALSE, ge |-> FALSE]

SameSession(s, t) ==
  /\ \A r \in Regs : Equal(s.regs[r], t.regs[r])
  /\ \A d \in Slots : Equal(s.dels[d].src, t.dels[d].src) /\ Equal(s.dels[d].dst, t.dels[d].dst)
=============================================================================
