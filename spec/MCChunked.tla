------------------------------ MODULE MCChunked ------------------------------
(* Exhaustive: (1) every short byte string over an alphabet of significant     *)
(* bytes, alone or after a complete chunk; (2) every chunking of short data    *)
(* and every cut of its encoding.  Laws of Decode are checked; the bodies are  *)
(* printed for replay.                                                         *)
EXTENDS Chunked, Json, IOUtils
MaxLen == atoi(IOEnv.LEN)
Alphabet == {48, 49, 50, 120, 45, 13, 10, 59, 58}       \* 0 1 2 x - CR LF ; :
Pre == <<50, 13, 10, 97, 98, 13, 10>>               \* "2" CRLF "ab" CRLF
Chunkings == {<<>>, <<<<97>>>>, <<<<97, 98>>, <<10>>>>, <<<<13, 10>>, <<48, 13, 10, 13, 10>>>>,
              <<[i \in 1..17 |-> 96 + i]>>, <<[i \in 1..16 |-> 96 + i], <<13>>, <<10, 10>>>>}
VARIABLES mode, w, k
Init == \/ mode \in {"free", "after"} /\ w = <<>> /\ k = 0
        \/ mode = "cut" /\ w \in {Encode(d) : d \in Chunkings} /\ k \in 0..Len(w)
Next == mode # "cut" /\ Len(w) < MaxLen /\ \E b \in Alphabet : w' = Append(w, b) /\ UNCHANGED <<mode, k>>
Body == CASE mode = "free" -> w [] mode = "after" -> Pre \o w [] OTHER -> Slice(w, 1, k)

RoundTrip == mode = "cut" /\ k = Len(w) =>
  \E d \in Chunkings : Encode(d) = w /\ Decode(w, TRUE) = [data |-> Concat(d), err |-> FALSE] /\ Decode(w, FALSE) = Decode(w, TRUE)
(* a cut body: raising reports it; otherwise nothing before the cut is lost *)
CutOk == mode = "cut" => \A d \in Chunkings : Encode(d) = w =>
   /\ Decode(Body, TRUE).err = (k < Len(w))
   /\ IsPrefixOf(Decode(Body, TRUE).data, Concat(d))
   /\ IsPrefixOf(Decode(Body, TRUE).data, Decode(Body, FALSE).data)
NothingLost == mode = "after" => IsPrefixOf(<<97, 98>>, Decode(Body, FALSE).data)
NoErrUnlessRaising == ~Decode(Body, FALSE).err
AgreeIfFine == ~Decode(Body, TRUE).err => Decode(Body, TRUE) = Decode(Body, FALSE)
Emit == PrintT("SCN " \o ToJson([raw |-> Body]))
=============================================================================
