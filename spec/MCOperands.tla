----------------------------- MODULE MCOperands -----------------------------
(* Ambiguity does not depend on the order of the operands or of siblings, a  *)
(* config is ambiguous with itself exactly if some place in it is torn, and  *)
(* whatever is included in or equal to something is not ambiguous with it.   *)
EXTENDS Operands
L(t, v) == Plain(t, v, <<>>)
C(t, k) == Plain(t, "", k)
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Lv == {L("va:k", "a"), L("va:k", "b"), L("va:v", "a")}
En == {C("va:uone", k) : k \in Seqs(Lv, 2)}
Rows(n) == {<<C("va:top", k)>> : k \in Seqs(En \cup {L("va:s", "a"), L("va:sl", "a"), L("va:sl", "b")}, n)}
Wide == Rows(2)
Some == IF IOEnv.VP_SCALE = "2" THEN Wide ELSE Rows(1)
Deep == {<<C("va:top", x)>> \o y : x \in Seqs({C("va:np", k) : k \in Seqs({L("va:x", "a"), L("va:x", "b")}, 2)}, 1), y \in Seqs({L("va:tl", "a"), C("va:top", <<>>)}, 1)}
VARIABLES a, b
Init == \/ a \in Wide /\ b \in Some
        \/ a \in Deep /\ b \in Deep
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
RECURSIVE Whole(_, _)
Whole(ks, p) == ~Torn(ks, p) /\ \A i \in 1..Len(ks) : Whole(ks[i].k, Sub(p, ks[i].t))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Flip(ks) == [i \in 1..Len(ks) |-> [ks[i] EXCEPT !.k = Rev(ks[i].k)]]
Sym == Ambiguous(a, b, "") = Ambiguous(b, a, "") /\ Ambiguous(a, b, "") = Ambiguous(Flip(a), b, "")
Self == Ambiguous(a, a, "") = ~Whole(a, "")
WholeOk == Whole(a, "") /\ Whole(b, "") => ~Ambiguous(a, b, "")
IncludedOk == ~Ambiguous(a, b, "") /\ Included(a, b) => Whole(a, "")
=============================================================================
