-------------------------------- MODULE MCCopy --------------------------------
(* Copying every small archive that MCArchive builds, with every combination of   *)
(* options: what is copied is read back as the records that were read, whatever    *)
(* the options; without parsing HTTP headers every block stays as it is.           *)
EXTENDS MCRecomp
CopyOpts == {[DefaultOpt EXCEPT !.a2w = a, !.norec = n, !.ensure = e] : a \in (IF Kind = "arc" THEN {TRUE} ELSE BOOLEAN), n \in BOOLEAN, e \in BOOLEAN}

RECURSIVE CopyFrom(_, _, _, _, _, _)
CopyFrom(rs, opt, gz, i, off, acc) ==
  IF i > Len(rs) THEN IF gz \/ rs = <<>> THEN acc ELSE Flat(acc)
  ELSE LET w == Copied(Segs, rs[i], opt, NoFilter, <<>>)
           t == Utf8Block(rs[i].proto, <<>>, w.hdrs) \o w.block \o CRLF \o CRLF
       IN CopyFrom(rs, opt, gz, i + 1, off + Len(t) + 20, Append(acc, [gz |-> gz, coff |-> off, clen |-> Len(t) + 20, text |-> t]))
Keeps(opt, gz) ==
  LET a == Fixed(ReadAll(Segs, opt))
      out == CopyFrom(a.recs, opt, gz, 1, 0, <<>>)
      b == ReadAll(out, [opt EXCEPT !.ensure = FALSE])
      whole == \A i \in 1..Len(a.recs) : a.recs[i].type # TRevisit
  IN (opt.ensure => whole) =>
     /\ b.end = "end" /\ Len(b.recs) = Len(a.recs)
     /\ \A i \in 1..Len(a.recs) :
          LET x == a.recs[i] y == b.recs[i] IN
          /\ y.type = x.type /\ Kept(y.hdrs) = Kept(x.hdrs) /\ y.proto = x.proto
          /\ y.len = Len(Block(out, y))
          /\ ~opt.ensure => y.http = x.http /\ Content(out, y) = Content(Segs, x)
          /\ opt.norec /\ ~opt.ensure => Block(out, y) = Block(Segs, x)
          /\ opt.ensure => Drop(Block(out, y), Len(Block(out, y)) - Len(Content(Segs, x))) = Content(Segs, x)
KeepsAll == \A opt \in CopyOpts, gz \in BOOLEAN : Keeps(opt, gz)
===============================================================================
