-------------------------------- MODULE Digest --------------------------------
(* Digest headers of a record and the verdict a checking reader must come to.  *)
(* The hash functions are an environment: a table of [alg, data, dig] entries.  *)
EXTENDS Archive

TBlockDigest == <<87,65,82,67,45,66,108,111,99,107,45,68,105,103,101,115,116>>
TPayloadDigest == <<87,65,82,67,45,80,97,121,108,111,97,100,45,68,105,103,101,115,116>>
TSegmentNumber == <<87,65,82,67,45,83,101,103,109,101,110,116,45,78,117,109,98,101,114>>

B16Alpha == <<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70>>
B32Alpha == [i \in 1..32 |-> IF i <= 26 THEN 64 + i ELSE 23 + i]
B64Alpha == [i \in 1..64 |-> IF i <= 26 THEN 64 + i ELSE IF i <= 52 THEN 70 + i ELSE IF i <= 62 THEN i - 5
                             ELSE IF i = 63 THEN 43 ELSE 47]
Url64Alpha == [B64Alpha EXCEPT ![63] = 45, ![64] = 95]
(* canonical encoding, without padding *)
EncodeBase(bs, alpha, w) ==
  LET bits == BitsOf(bs, 8)
      n == (Len(bits) + w - 1) \div w
      RECURSIVE Val(_, _, _)
      Val(i, k, acc) == IF k > w THEN acc
                        ELSE Val(i, k + 1, acc * 2 + (IF (i - 1) * w + k <= Len(bits) THEN bits[(i - 1) * w + k] ELSE 0))
  IN [i \in 1..n |-> alpha[Val(i, 1, 0) + 1]]
Base32Encode(bs) == EncodeBase(bs, B32Alpha, 5)

(* does the text v state the digest bs, in any of the encodings? *)
States(v, bs) ==
  LET s == StripPad(v) IN
  \/ Len(s) = 2 * Len(bs) /\ Upper(v) = EncodeBase(bs, B16Alpha, 4)
  \/ s = EncodeBase(bs, B32Alpha, 5)
  \/ s = EncodeBase(bs, B64Alpha, 6)
  \/ s = EncodeBase(bs, Url64Alpha, 6)

(* one digest header against data: "none" (no such header), "pass", "fail",     *)
(* "unknown" (not understood), "env" (the environment does not say)            *)
EnvFor(env, alg, data) == {i \in 1..Len(env) : env[i].alg = alg /\ env[i].data = data}
One(value, data, env, algs) ==
  IF value = None \/ value = <<>> THEN "none"
  ELSE LET k == IndexFrom(value, COLON, 1) IN
       IF k = 0 THEN "unknown"
       ELSE LET alg == Slice(value, 1, k - 1) IN
            IF \A i \in 1..Len(algs) : algs[i] # alg THEN "unknown"
            ELSE LET E == EnvFor(env, alg, data) IN
                 IF E = {} THEN "env"
                 ELSE IF States(Drop(value, k), env[First(E)].dig) THEN "pass" ELSE "fail"

(* data that ends before the record does is not that of the record, whatever its digest *)
UnlessCut(segs, r, x) == IF x = "pass" /\ WLen(Block(segs, r)) < r.len THEN "fail" ELSE x

(* the verdict on record r of segs *)
VerdictOf(segs, r, opt, env, algs) ==
  LET b == Get(r.hdrs, TBlockDigest, None)
      p == Get(r.hdrs, TPayloadDigest, None)
      unparsed == opt.norec /\ MayHaveHttp(r.type, r.uri, r.len)
      one == UnlessCut(segs, r, One(b, Block(segs, r), env, algs))
      two == IF Has(r.hdrs, TSegmentNumber) THEN "none"
             ELSE LET x == UnlessCut(segs, r, One(p, Content(segs, r), env, algs)) IN
                  IF unparsed /\ x # "unknown" THEN "none" ELSE x
  IN IF r.type = TRevisit \/ r.len < 0 THEN [v |-> "none", n |-> 0]
     ELSE IF "env" \in {one, two} THEN [v |-> "env", n |-> 0]
     ELSE IF one \in {"fail", "unknown"} \/ two \in {"fail", "unknown"}
          THEN [v |-> "fail", n |-> (IF one \in {"fail", "unknown"} THEN 1 ELSE 0) + (IF two \in {"fail", "unknown"} THEN 1 ELSE 0)]
     ELSE IF one = "pass" \/ two = "pass" THEN [v |-> "pass", n |-> 0]
     ELSE [v |-> "none", n |-> 0]
=============================================================================
