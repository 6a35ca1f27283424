------------------------------ MODULE Universe ------------------------------
(* Small configuration universes over the test schema, one per feature       *)
(* family; Scale \in {1, 2} scales them.                                     *)
EXTENDS YangTree
Scale == IF IOEnv.VP_SCALE = "2" THEN 2 ELSE 1

L(t, v) == Plain(t, v, <<>>)
C(t, k) == Plain(t, "", k)
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>}
            ELSE {x \o y : x \in Head(ss), y \in Prod(Tail(ss))}
(* all sequences without repetition over S *)
RECURSIVE Perms(_)
Perms(S) == {<<>>} \cup UNION {{<<x>> \o r : r \in Perms(S \ {x})} : x \in S}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Subs(S) == {SetSeq(T) : T \in SUBSET S}
Top(K) == {IF k = <<>> THEN <<>> ELSE <<C("va:top", k)>> : k \in K}
Both(S, T) == {x \o y : x \in S, y \in T}

Vals == IF Scale = 1 THEN {"a", "b"} ELSE {"a", "b", "c"}

\* leaves, defaults, non-presence and presence containers
FContainer == Top(Prod(<<Opt({L("va:s", v) : v \in IF Scale = 1 THEN {"a"} ELSE {"a", "b"}}),
    Opt({C("va:np", k) : k \in Prod(<<Opt({L("va:x", v) : v \in {"a", "b"}}),
                                       Opt({C("va:deep", <<L("va:z", "a")>>)})>>) \ {<<>>}}),
    Opt({C("va:pr", k) : k \in Prod(<<Opt({L("va:x", "a")}),
                                       Opt({C("va:pin", <<L("va:a", v)>>) : v \in IF Scale = 1 THEN {"a"} ELSE {"a", "b"}})>>)})>>))
\* choices
FChoice == Top({<<>>} \cup
    (Prod(<<Opt({L("va:c1a", v) : v \in Vals}), Opt({L("va:c1b", "a")})>>) \ {<<>>}) \cup
    (Prod(<<Opt({C("va:c2c", <<L("va:x", "a")>>)}), Subs({L("va:c2l", v) : v \in {"a", "b"}})>>) \ {<<>>}) \cup
    {<<L("va:c3", v)>> : v \in Vals} \cup
    (Prod(<<(Prod(<<Opt({L("va:i1a", "a")}), Opt({L("va:i1b", "b")})>>) \cup {<<L("va:i2a", "a")>>}),
            Opt({L("va:c4x", "a")})>>) \ {<<>>}) \cup
    {<<C("va:c5l", <<L("va:k", "a")>>)>>, <<C("va:c5l", <<L("va:k", "b")>>)>>, <<L("vb:bc", "a")>>})
\* leaf-lists
FUserLL == Top({[i \in 1..Len(s) |-> L("va:ul", s[i])] : s \in Perms(IF Scale = 1 THEN {"a", "b", "c"} ELSE {"a", "b", "c", "d"})})
FSysLL == Top(Prod(<<Subs({L("va:sl", v) : v \in {"a", "b", "c"}}), Opt({L("va:s", v) : v \in {"a", "b"}})>>))
\* lists
Entry(t, k, v) == C(t, <<L("va:k", k)>> \o (IF v = "" THEN <<>> ELSE <<L("va:v", v)>>))
FUserList == Top(UNION {
   {[i \in 1..Len(s) |-> Entry("va:uone", s[i], f[i])] : f \in [1..Len(s) -> {"", "x"}]}
      : s \in Perms(IF Scale = 1 THEN {"a", "b"} ELSE {"a", "b", "c"})}
   \cup {[i \in 1..Len(s) |-> Entry("va:uone", s[i], "")] : s \in Perms({"a", "b", "c"})})
SysEntry(k, body) == C("va:sysl", <<L("va:k", k)>> \o body)
Bodies == Prod(<<Opt({L("va:v", v) : v \in {"a", "b"}}), Opt({C("va:in", <<L("va:u", "a")>>), C("va:in", <<L("va:u", "b"), L("va:u", "a")>>)}),
                 Opt({C("va:nest", <<L("va:id", "n")>>)})>>)
FSysList == Top(Prod(<<Opt({SysEntry("a", b) : b \in Bodies}),
                       Opt({SysEntry("b", b) : b \in {<<>>, <<L("va:v", "a")>>}})>>))
\* identityref leaves and keys, several roots
FIdent == Top(Prod(<<Opt({L("va:idr", "@vpids:one"), L("va:idr", "@vpalpha:one")}),
                     Subs({C("va:idl", <<L("va:id", i)>>) : i \in {"@vpids:one", "@vpalpha:one"}}),
                     Subs({L("va:il", i) : i \in {"@vpids:one", "@vpalpha:one"}})>>))
FRoots == Prod(<<Opt({C("va:top", <<L("va:s", "a")>>), C("va:top", <<L("vb:s", "a")>>)}),
                 Opt({L("va:tl", v) : v \in IF Scale = 1 THEN {"a"} ELSE {"a", "b"}}),
                 Subs({L("va:tll", v) : v \in {"a", "b"}}),
                 Opt({C("vb:broot", <<L("vb:s", v)>>) : v \in IF Scale = 1 THEN {"b"} ELSE {"a", "b"}})>>)

Families == <<"container", "choice", "userll", "sysll", "userlist", "syslist", "ident", "roots">>
Family(f) == CASE f = "container" -> FContainer [] f = "choice" -> FChoice [] f = "userll" -> FUserLL
               [] f = "sysll" -> FSysLL [] f = "userlist" -> FUserList [] f = "syslist" -> FSysList
               [] f = "ident" -> FIdent [] f = "roots" -> FRoots
=============================================================================
