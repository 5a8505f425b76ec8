------------------------------ MODULE MCHeaders ------------------------------
(* Exhaustive exploration of header-collection operations over a small        *)
(* alphabet; every behaviour of length Depth is printed for replay on the     *)
(* real class, and the multimap laws are checked in every state.              *)
EXTENDS Headers, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
N == IOEnv.NAMES
Names == IF N = "3" THEN {<<65>>, <<97>>, <<66>>} ELSE {<<65>>, <<97>>}
Vals == {<<120>>, <<>>}
VARIABLES h, hist
Init == h = <<>> /\ hist = <<>>
Op(o, n, x) == hist' = Append(hist, [op |-> o, name |-> n, value |-> x])
DoAdd == \E n \in Names, x \in Vals : h' = Add(h, n, x) /\ Op("add", n, x)
DoReplace == \E n \in Names, x \in Vals : h' = Replace(h, n, x) /\ Op("replace", n, x)
DoRemove == \E n \in Names : h' = Remove(h, n) /\ Op("remove", n, <<>>)
Next == Len(hist) < Depth /\ (DoAdd \/ DoReplace \/ DoRemove)

(* laws *)
GetAfterAdd == \A n \in Names, x \in Vals : Get(Add(h, n, x), n, None) = (IF Has(h, n) THEN Get(h, n, None) ELSE x)
ReplaceKeepsOthers == \A n \in Names, x \in Vals, m \in Names :
   ~SameName(n, m) => Values(Replace(h, n, x), m) = Values(h, m)
ReplaceKeepsLen == \A n \in Names, x \in Vals : Len(Replace(h, n, x)) = Max2(Len(h), IF Has(h, n) THEN Len(h) ELSE Len(h) + 1)
RemoveOne == \A n \in Names : Len(Remove(h, n)) = IF Has(h, n) THEN Len(h) - 1 ELSE Len(h)
ReplaceAllowed == \A n \in Names, x \in Vals : \E o \in ReplaceOutcomes(h, n, x) : o.h = Replace(h, n, x)
RemoveAllowed == \A n \in Names : \E o \in RemoveOutcomes(h, n) : o.h = Remove(h, n)
CaseBlind == \A n \in Names : Get(h, n, None) = Get(h, Lower(n), None)
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
