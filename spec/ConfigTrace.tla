----------------------------- MODULE ConfigTrace -----------------------------
(* Judges events recorded from the real code.  Each event is one public call *)
(* (or a small group of calls on the same operands) with its inputs, result  *)
(* or exception; Verdict(e) is the set of clauses it violates.               *)
EXTENDS Delta, Select, Operands
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
P == IOEnv.VP_PROP
NShards == atoi(IOEnv.VP_SHARDS)

If(c, name) == IF c THEN {name} ELSE {}
NoExc(e, bad) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE bad

(* ---- deltas: C01 C02 C05 C06 ---- *)
VDelta(e) ==
  LET a == Normal(e.a)  b == Normal(e.b) IN
  CASE P = "C01" ->
              If(~Equal(e.sum, b), "src + delta differs from dst")
              \cup If(~Clean(e.sum), "src + delta has attributes")
              \cup If(~e.sumeq, "src + delta == dst is False")
              \cup If(~Equal(e.sum2, b), "delta + src differs from dst")
              \cup If(~Equal(e.back, a), "dst - delta differs from src")
              \cup If(~Clean(e.back), "dst - delta has attributes")
              \cup If(~e.backeq, "dst - delta == src is False")
         [] P = "C02" ->
              LET r == Apply(a, e.nc)  s == Apply(b, e.ncr)  t == Apply(b, e.neg) IN
              If(r.err # "", "a server rejects the payload: " \o r.err)
              \cup If(r.err = "" /\ ~Equal(r.k, b), "the payload leads elsewhere")
              \cup If(s.err # "", "a server rejects the opposite payload: " \o s.err)
              \cup If(s.err = "" /\ ~Equal(s.k, a), "the opposite payload leads elsewhere")
              \cup If(t.err # "" \/ ~Equal(t.k, a), "the negated delta leads elsewhere")
              \cup If(Apply(a, e.nc2).err # "" \/ ~Equal(Apply(a, e.nc2).k, b), "dst - src leads elsewhere")
         [] P = "C05" ->
              LET eq == Equal(a, b) IN
              If(eq /\ e.nc # <<>>, "payload between equal configs")
              \cup If(~eq /\ e.nc = <<>>, "no payload between different configs")
              \cup If(e.tr = eq, "truth value of the delta")
              \cup If(e.o.dt \in {"minimum", "replace"} /\ ~Minimal(e.nc, a, b, ""), "payload restates unchanged nodes")
              \cup If(e.o.dt \in {"minimum", "replace"} /\ ~Minimal(e.ncr, b, a, ""), "opposite payload restates unchanged nodes")
         [] P = "C06" ->
              If(~Prefers(e.nc, a, b, "", e.o, 0), "operations do not follow the preferences")
              \cup If(OnNP(e.nc, "", "create"), "create on a non-presence container")
              \cup If(OnNP(e.nc, "", "delete"), "delete on a non-presence container")
              \cup If(~(OpsIn(e.nc) \subseteq ({"", e.o.pc, e.o.pr, e.o.pd} \ {"merge"})
                        \cup (IF e.o.dt = "replace" THEN {"replace"} ELSE {})), "foreign operation")
         [] OTHER -> {}

(* ---- diff type minimum-replace: the minimum payload, and replace on the nodes that are named ---- *)
Named(e, path) == IF e.steps = <<>> THEN Len(path) = e.depth + 1
                  ELSE IF e.anywhere THEN path # <<>> /\ path[Len(path)] = e.steps[Len(e.steps)] ELSE path = e.steps
VMinRep(e) == NoExc(e,
  If(\E i \in 1..Len(e.nodes) : ~e.nodes[i][3], "minimum-replace is not the minimum payload")
  \cup If(\E i \in 1..Len(e.nodes) : e.nodes[i][2] # (IF Named(e, e.nodes[i][1]) THEN "replace" ELSE ""), "nodes to be replaced"))

(* ---- edit-config payloads applied to a config: C03 ---- *)
VApply(e) ==
  LET r == Apply(Normal(e.a), e.e) IN
  IF r.err # ""
  THEN If(e.exc = "", "an invalid edit was accepted: " \o r.err)
       \cup If(e.exc \notin {"", "ConfigDeltaError"}, "wrong exception " \o e.exc \o " for " \o r.err)
       \cup If(e.exc2 # e.exc, "ConfigDelta(delta=...) and + disagree: " \o e.exc2)
  ELSE NoExc(e,
       If(~Equal(e.res, r.k), "the result differs")
       \cup If(~Clean(e.res), "the result has attributes")
       \cup If(e.exc2 # "", "ConfigDelta(delta=...) failed: " \o e.exc2)
       \cup If(e.exc2 = "" /\ ~Equal(e.res2, r.k), "ConfigDelta(delta=...) leads elsewhere"))

(* ---- comparison: C04 C12 ---- *)
VCmp(e) ==
  LET a == Normal(e.a)  b == Normal(e.b)
      eq == Equal(a, b)  le == Included(a, b)  ge == Included(b, a) IN
  NoExc(e, If(e.eq # eq, "==") \cup If(e.ne # ~eq, "!=") \cup If(e.le # le, "<=")
       \cup If(e.ge # ge, ">=") \cup If(e.lt # (le /\ ~eq), "<") \cup If(e.gt # (ge /\ ~eq), ">")
       \cup If(e.ba # (a # <<>>), "bool"))

(* ---- merging two configs: C08 ---- *)
VMerge(e) ==
  LET a == Normal(e.a)  b == Normal(e.b)  r == Apply(a, AsEdit(b)) IN
  NoExc(e, If(~Equal(e.sum, r.k), "a + b") \cup If(~Equal(e.self, a), "a + a")
       \cup If(~Equal(e.az, a), "a + empty") \cup If(~Equal(e.za, a), "empty + a")
       \cup If(~Clean(e.sum), "attributes in a + b")
       \cup If(e.le # Included(b, r.k), "b <= a + b")
       \cup If(~Equal(e.twice, Apply(Normal(r.k), AsEdit(b)).k), "(a + b) + b"))

(* ---- normalization: C09 ---- *)
VNorm(e) ==
  LET want == DropStatus(Normal(e.a), "", e.dep)
      dt == IF e.check THEN want ELSE Normal(e.a) IN
  NoExc(e, If(Strip(e.res) # Strip(dt), "the content is not the normal form")
       \cup If(Strip(e.again) # Strip(dt), "normalizing again changes the content")
       \cup If(Strip(e.conv) # Strip(dt), "Config(Config) changes the content"))

(* ---- validation: C10 ---- *)
VValid(e) ==
  LET n == Normal(e.a)
      ok == Known(e.a, "") /\ HasKeys(n, "") /\ Clean(n) IN
  If(ok /\ e.exc # "", "a valid config was rejected: " \o e.exc)
  \cup If(~ok /\ e.exc = "", "an invalid config was accepted: " \o e.what)
  \cup If(~ok /\ e.exc \notin {"", "ConfigError", "ModelMissing"}, "wrong exception: " \o e.exc)

(* ---- forms of input: C11 ---- *)
VForm(e) ==
  NoExc(e, UNION {If(Strip(e.res[i]) # Strip(Normal(e.a)), "form " \o e.forms[i]) : i \in 1..Len(e.forms)})

(* ---- filter: C13 ---- *)
VFilter(e) ==
  LET a == Normal(e.a)
      sel == UNION {Chosen(a, e.alts[i]) : i \in 1..Len(e.alts)}
      want == IF e.what = "number" THEN a
              ELSE IF e.what = "text" \/ sel = {} THEN <<>>
              ELSE Keep(a, sel, <<>>, "") IN
  NoExc(e, If(Strip(e.res) # Strip(want), "the filtered config")
       \cup If(Strip(e.after) # Strip(a), "the original config changed")
       \cup If(e.what = "" /\ e.n # Cardinality(sel), "the number of nodes found"))

(* ---- extraction of config from replies: C14 ---- *)
VExtract(e) ==
  LET want == DropStatus(Normal(ReadWrite(e.a, "")), "", e.dep) IN
  NoExc(e, If(Strip(e.res) # Strip(ReadWrite(e.res, "")), "operational state kept")
       \cup If(~Equal(e.res, want), "not the configuration of the reply")
       \cup If(~e.same, "extract(get) == extract(get-config) is False"))

(* ---- randomized payloads: C07 ---- *)
CountIn(x, n) == Cardinality({i \in 1..Len(x) : x[i] = n})
SameBag(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : CountIn(x, x[i]) = CountIn(y, x[i])
RECURSIVE PermAt(_, _, _)
PermAt(x, y, d) ==      \* y is x with the nodes of level d permuted among their siblings
  IF d = 0 THEN SameBag(x, y)
  ELSE Len(x) = Len(y) /\ \A i \in 1..Len(x) :
         [x[i] EXCEPT !.k = <<>>] = [y[i] EXCEPT !.k = <<>>] /\ PermAt(x[i].k, y[i].k, d - 1)
RECURSIVE KeysFirst(_, _)
KeysFirst(es, p) ==
  /\ \A i, j \in 1..Len(es) : i < j /\ Info(Sub(p, es[j].t)).iskey => Info(Sub(p, es[i].t)).iskey
  /\ \A i \in 1..Len(es) : KeysFirst(es[i].k, Sub(p, es[i].t))
VReorder(e) ==
  LET a == Normal(e.a)  b == Normal(e.b)
      Good(nc) == LET r == Apply(a, nc) IN r.err = "" /\ Equal(r.k, b) IN
  NoExc(e, If(~PermAt(e.nc, e.nc1, e.rd), "not a permutation of the siblings at the level")
       \cup If(e.nc1 # e.nc2 \/ e.nc1 # e.again, "the seed does not determine the payload")
       \cup If(~KeysFirst(e.nc1, ""), "keys are not first")
       \cup If(~Good(e.nc1), "the permuted payload leads elsewhere")
       \cup If(~Equal(e.sum, b), "src + delta")
       \cup If(~e.seeded \/ e.nc3 # e.nc3again \/ ~PermAt(e.nc, e.nc3, e.rd) \/ ~Good(e.nc3), "generated seed")
       \cup If(~Equal(e.afterA, a) \/ ~Equal(e.afterB, b), "operands changed"))

(* ---- operands without meaning: C29 ---- *)
VTorn(e) == NoExc(e,
  LET amb == Ambiguous(e.a, e.b, "") IN
  IF amb THEN
    If(e.sum # "!ConfigError" \/ e.sum2 # "!ConfigError", "the sum of ambiguous configs")
    \cup If(e.nc # "!ConfigError" \/ e.ncr # "!ConfigError", "the delta of ambiguous configs")
    \cup If(e.byele # "!ConfigError" \/ e.bydelta # "!ConfigError", "an ambiguous payload is applied")
    \cup If(\E x \in {e.eq, e.le, e.ge, e.lt, e.gt} : x \notin {"F", "!ConfigError"}, "comparison of ambiguous configs")
    \cup If(\E x \in {e.ne, e.tr} : x \notin {"T", "!ConfigError"}, "difference of ambiguous configs")
    \cup If(e.after # <<e.a, e.b>>, "the operands changed")
  ELSE
    If({e.eq, e.ne, e.le, e.ge, e.lt, e.gt, e.tr} \ {"T", "F"} # {}, "a comparison with a meaning is refused")
    \cup If((e.eq = "T") # Equal(e.a, e.b), "=="))
VKinds(e) == If(e.r # Result(e.op, e.x, e.y), e.op \o " of " \o e.x \o " and " \o e.y \o ": " \o e.r)
VOption(e) == If(OptionOk(e.o, e.v) /\ e.r # "", e.o \o " " \o e.v \o " refused")
  \cup If(~OptionOk(e.o, e.v) /\ e.r \notin {"ValueError", "TypeError"}, e.o \o " " \o e.v \o " accepted")

Verdict(e) ==
  CASE e.kind = "hang" -> {"no answer: " \o e.exc}
    [] e.kind = "delta" -> NoExc(e, VDelta(e))
    [] e.kind = "apply" -> VApply(e)
    [] e.kind = "cmp" -> VCmp(e)
    [] e.kind = "merge" -> VMerge(e)
    [] e.kind = "norm" -> VNorm(e)
    [] e.kind = "valid" -> VValid(e)
    [] e.kind = "form" -> VForm(e)
    [] e.kind = "filter" -> VFilter(e)
    [] e.kind = "extract" -> VExtract(e)
    [] e.kind = "reorder" -> VReorder(e)
    [] e.kind = "torn" -> VTorn(e)
    [] e.kind = "kinds" -> VKinds(e)
    [] e.kind = "option" -> VOption(e)
    [] e.kind = "minrep" -> VMinRep(e)
    [] OTHER -> {"unknown event"}

VARIABLES sh, l
vars == <<sh, l>>
Here == sh + l * NShards
Init == sh \in 1..NShards /\ l = 0
Next == /\ Here <= Len(Trace)
        /\ LET bad == Verdict(Trace[Here]) IN
           IF bad = {} THEN TRUE
           ELSE PrintT("VPBAD " \o ToString(Trace[Here].id) \o " " \o ToString(bad))
        /\ l' = l + 1 /\ UNCHANGED sh
Spec == Init /\ [][Next]_vars
=============================================================================
