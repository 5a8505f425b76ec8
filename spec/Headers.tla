------------------------------ MODULE Headers ------------------------------
(* A header collection: an ordered multimap with case-insensitive names.     *)
(* State: a sequence of <<name, value>>.  Texts are code point sequences.    *)
EXTENDS Bytes

SameName(a, b) == Lower(a) = Lower(b)
Matches(h, name) == {i \in 1..Len(h) : SameName(h[i][1], name)}
Has(h, name) == Matches(h, name) # {}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S)  == CHOOSE i \in S : \A j \in S : j <= i

Get(h, name, default) ==
  IF Has(h, name) THEN h[First(Matches(h, name))][2] ELSE default

Add(h, name, value) == Append(h, <<name, value>>)

ReplaceAt(h, i, value) == [h EXCEPT ![i] = <<h[i][1], value>>]
RemoveAt(h, i) == Slice(h, 1, i - 1) \o Slice(h, i + 1, Len(h))

(* every outcome the specification allows for replace / remove: one matching *)
(* entry, in place; which one is left open                                    *)
ReplaceOutcomes(h, name, value) ==
  IF Has(h, name)
  THEN {[h |-> ReplaceAt(h, i, value), ret |-> h[i][2]] : i \in Matches(h, name)}
  ELSE {[h |-> Append(h, <<name, value>>), ret |-> None]}
RemoveOutcomes(h, name) ==
  IF Has(h, name)
  THEN {[h |-> RemoveAt(h, i), ret |-> TRUE] : i \in Matches(h, name)}
  ELSE {[h |-> h, ret |-> FALSE]}

(* the outcome the implementation documents by its tests: the last match *)
Replace(h, name, value) ==
  IF Has(h, name) THEN ReplaceAt(h, Last(Matches(h, name)), value)
  ELSE Append(h, <<name, value>>)
Remove(h, name) ==
  IF Has(h, name) THEN RemoveAt(h, Last(Matches(h, name))) ELSE h

Values(h, name) ==
  LET RECURSIVE Collect(_, _)
      Collect(i, acc) == IF i > Len(h) THEN acc
                         ELSE Collect(i + 1, IF SameName(h[i][1], name) THEN Append(acc, h[i][2]) ELSE acc)
  IN Collect(1, <<>>)

(* name/value pairs of h except those called name *)
Without(h, name) ==
  LET RECURSIVE Collect(_, _)
      Collect(i, acc) == IF i > Len(h) THEN acc
                         ELSE Collect(i + 1, IF SameName(h[i][1], name) THEN acc ELSE Append(acc, h[i]))
  IN Collect(1, <<>>)

(* equal as multisets of <<lower-case name, value>> *)
Count(h, e) == Len(SelectSeq(h, LAMBDA x : Lower(x[1]) = Lower(e[1]) /\ x[2] = e[2]))
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
(* a is a sub-sequence bag of b *)
SubBag(a, b) == \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])
=============================================================================
