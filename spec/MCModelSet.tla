----------------------------- MODULE MCModelSet -----------------------------
EXTENDS ModelSet
Own == [p \in {"a1", "a2", "b1"} |-> IF p = "b1" THEN "b" ELSE "a"]
ForgetOwn(m) == {p \in Paths : Own[p] = m}
ForgetNone(m) == {}
Emit == Len(hist) = 8 => PrintT("VPHIST " \o ToJson(hist))
=============================================================================
