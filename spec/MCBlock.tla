------------------------------- MODULE MCBlock -------------------------------
(* Blocks built line by line from significant line contents and line ends.    *)
(* Laws: parsing consumes exactly through the blank line; what is parsed       *)
(* serialises to a block that parses to the same; blocks are printed.          *)
EXTENDS HeaderBlock, Json, IOUtils
MaxLines == atoi(IOEnv.LINES)
Status == {<<72,84,84,80,47,49,46,49,32,50,48,48,32,79,75>>, <<104,116,116,112,47,49,46,48>>, <<71,69,84,32,47,32,120>>, <<66,97,100>>, <<>>}
Content == { <<65,58,32,98>>,                 \* A: b
             <<65,58,98,58,99>>,              \* A:b:c
             <<32,120>>, <<9,58,121,32>>,     \* continuations
             <<110,111>>,                     \* no colon
             <<66,32,58,32,32,118,32>>,       \* blanks around
             <<67,58>>,                       \* empty value
             <<68,58,32,195,169>>,            \* UTF-8
             <<69,58,32,233,33>>,             \* Latin-1
             <<>> }
Ends == {CRLF, <<10>>}
Prefixes == <<<<72,84,84,80,47,49,46,48>>, <<72,84,84,80,47,49,46,49>>>>
Tail3 == <<88,58,32,89,13,10>>                 \* what follows the block
VARIABLES lines, n
Init == \E s \in Status : lines = s \o CRLF /\ n = 0
Next == n < MaxLines /\ \E x \in Content, e \in Ends : lines' = lines \o x \o e /\ n' = n + 1
Raw(t) == lines \o t
R(verify) == ParseBlock(Raw(<<>>), Len(lines), 0, Prefixes, verify)
Consumes == LET a == R(FALSE) IN
   \* a blank line ends the block: what follows it makes no difference
   (a.next < Len(lines)) => ParseBlock(Raw(Tail3), Len(lines) + 6, 0, Prefixes, FALSE) = a
RoundTrip == LET a == R(FALSE) IN
   a.kind = "ok" /\ a.proto # <<>> /\ WellFormed(a.hdrs) =>
     LET b == Utf8Block(a.proto, a.status, a.hdrs)
         p == ParseBlock(b \o Tail3, Len(b) + 6, 0, Prefixes, FALSE)
     IN p.status = a.status /\ p.hdrs = a.hdrs /\ p.next = Len(b)
AsciiOk == LET a == R(FALSE) IN IsAscii(AsciiBlock(a.proto, a.status, a.hdrs, NoFilter))
AsciiSame == LET a == R(FALSE) IN
   \A i \in 1..Len(a.hdrs) : IsAscii(a.hdrs[i][2]) => EncHeaders(a.hdrs)[i] = a.hdrs[i]
VerifyAgrees == LET a == R(FALSE) b == R(TRUE) IN b.kind = "ok" => b.hdrs = a.hdrs /\ b.next = a.next
Emit == n = MaxLines => PrintT("SCN " \o ToJson([raw |-> lines]))
=============================================================================
