-------------------------------- MODULE Content --------------------------------
(* The decoded content of a record: transfer coding, then content coding.        *)
(* The codings are an environment: a table of [comp, plain] entries.              *)
EXTENDS Digest, Chunked

TCE == <<67,111,110,116,101,110,116,45,69,110,99,111,100,105,110,103>>
TTE == <<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103>>
TChunked == <<99,104,117,110,107,101,100>>
Codings == {<<103,122,105,112>>, <<100,101,102,108,97,116,101>>, <<98,114>>}

(* [data, pre, post]; pre: only a prefix need come; post: more may come          *)
(* (a damaged coding: nothing is said of what comes; more after the end of the    *)
(* coded content: it comes first)                                                 *)
Decoded(codes, r, content) ==
  LET te == Lower(Get(r.http.hdrs, TTE, <<>>))
      ce == Lower(Get(r.http.hdrs, TCE, <<>>))
      body == IF r.http.has /\ te = TChunked THEN Decode(content, FALSE).data ELSE content
      M == {i \in 1..Len(codes) : codes[i].comp = body}
      C == {i \in 1..Len(codes) : IsPrefixOf(body, codes[i].comp)}
      H == {i \in 1..Len(codes) : codes[i].comp # <<>> /\ IsPrefixOf(codes[i].comp, body)}
  IN IF ~r.http.has \/ ce \notin Codings THEN [data |-> body, pre |-> FALSE, post |-> FALSE]
     ELSE IF M # {} THEN [data |-> codes[First(M)].plain, pre |-> FALSE, post |-> FALSE]
     ELSE IF C # {} THEN [data |-> codes[First(C)].plain, pre |-> TRUE, post |-> FALSE]
     ELSE IF H # {} THEN [data |-> codes[First(H)].plain, pre |-> FALSE, post |-> TRUE]
     ELSE [data |-> <<>>, pre |-> TRUE, post |-> TRUE]
===============================================================================
