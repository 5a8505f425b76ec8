------------------------------- MODULE Stream -------------------------------
(* The abstract reader: a byte sequence P and a position.  Every reader in    *)
(* the system (buffered, decompressing, de-chunking, length-limited, record   *)
(* streams) refines it; they differ only in what P is.  The *In operators     *)
(* take the end of the data separately (P may be longer).                     *)
EXTENDS Bytes

ReadIn(P, end, pos, n) == Slice(P, pos + 1, IF n < 0 THEN end ELSE Min2(end, pos + n))
(* what a line read must return: through the first LF, up to n bytes (n = -1: *)
(* no limit), or to the end                                                    *)
LineIn(P, end, pos, n) ==
  LET k == IF n < 0 THEN end ELSE Min2(end, pos + n)
      i == IndexIn(P, LF, pos + 1, k)
  IN Slice(P, pos + 1, IF i = 0 THEN k ELSE i)
LineAt(P, pos, n) == LineIn(P, Len(P), pos, n)
ReadAt(P, pos, n) == ReadIn(P, Len(P), pos, n)
(* a read that may return less than asked for (but something unless at end)  *)
Partial(full, out) == IsPrefixOf(out, full) /\ (full # <<>> => out # <<>>)
=============================================================================
