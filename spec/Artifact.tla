------------------------------ MODULE Artifact ------------------------------
(***************************************************************************)
(* The byte format of a saved artifact:                                    *)
(*   "JFCA"  u32 version  str llvm  str triple  str cpu  u8 mode  u8 fp    *)
(*   u32 n >= 1  n return type bytes  u64 size  object  u32 m  m extensions*)
(*   "JFCE"                                                                *)
(* with str = u32 length + bytes and extension = u32 tag, u32 length,      *)
(* payload.  Integers are little-endian; nothing follows the footer.       *)
(* Parse reads a byte sequence; the object is left uninterpreted.          *)
(***************************************************************************)
EXTENDS Engine

MagicHead == <<74, 70, 67, 65>>
MagicFoot == <<74, 70, 67, 69>>
NoParse == [ok |-> FALSE, llvm |-> <<>>, triple |-> <<>>, cpu |-> <<>>, mode |-> "none", types |-> <<>>, obj |-> <<>>]

\* b has k bytes from position p on (p: bytes already read)
HasB(b, p, k) == p + k <= Len(b)
Sub(b, p, k) == SubSeq(b, p + 1, p + k)
\* a length field counts as impossible unless it is below 2^24, far above any artifact here
LenAt(b, p, w) == LET f == Sub(b, p, w) IN IF BIsZero(SubSeq(f, 4, w)) THEN BToNat(SubSeq(f, 1, 3)) ELSE 16777216
Str(b, p) ==          \* [ok, v, p]
    IF ~HasB(b, p, 4) THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
    ELSE LET n == LenAt(b, p, 4)
         IN IF ~HasB(b, p + 4, n) THEN [ok |-> FALSE, v |-> <<>>, p |-> p]
            ELSE [ok |-> TRUE, v |-> Sub(b, p + 4, n), p |-> p + 4 + n]
TypeName(c) ==
    CASE c = 1 -> "void" [] c = 2 -> "u8" [] c = 3 -> "u16" [] c = 4 -> "u32" [] c = 5 -> "u64" [] c = 6 -> "i8"
      [] c = 7 -> "i16" [] c = 8 -> "i32" [] c = 9 -> "i64" [] c = 10 -> "f32" [] c = 11 -> "f64" [] c = 12 -> "string"
      [] c = 13 -> "u8list" [] c = 14 -> "u16list" [] c = 15 -> "u32list" [] c = 16 -> "u64list" [] c = 17 -> "i8list"
      [] c = 18 -> "i16list" [] c = 19 -> "i32list" [] c = 20 -> "i64list" [] c = 21 -> "f32list" [] c = 22 -> "f64list"
      [] c = 23 -> "stringlist" [] OTHER -> "bad"
RECURSIVE Exts(_, _, _)
\* position after m extensions, or -1
Exts(b, p, m) ==
    IF m = 0 THEN p
    ELSE IF ~HasB(b, p, 8) THEN -1
    ELSE LET n == LenAt(b, p + 4, 4) IN IF HasB(b, p + 8, n) THEN Exts(b, p + 8 + n, m - 1) ELSE -1

\* ver: the format version of this build, as the bytes it writes
VersionOf(b) == Sub(b, 4, 4)
Parse(b, ver) ==
    IF ~HasB(b, 0, 8) THEN NoParse
    ELSE IF Sub(b, 0, 4) # MagicHead \/ Sub(b, 4, 4) # ver THEN NoParse
    ELSE LET l == Str(b, 8)  t == Str(b, l.p)  c == Str(b, t.p)
         IN IF ~l.ok \/ ~t.ok \/ ~c.ok THEN NoParse
    ELSE IF ~HasB(b, c.p, 6) THEN NoParse
    ELSE LET mode == b[c.p + 1]  fp == b[c.p + 2]  n == LenAt(b, c.p + 2, 4)  p1 == c.p + 6
         IN IF mode > 1 \/ fp > 1 \/ n = 0 \/ (mode = 0 /\ n # 1) \/ ~HasB(b, p1, n) THEN NoParse
    ELSE LET types == [i \in 1..n |-> TypeName(b[p1 + i])]  p2 == p1 + n
         IN IF (\E i \in 1..n : types[i] = "bad") \/ ~HasB(b, p2, 8) THEN NoParse
    ELSE LET os == LenAt(b, p2, 8)  p3 == p2 + 8
         IN IF ~HasB(b, p3, os) THEN NoParse
    ELSE LET p4 == p3 + os
         IN IF ~HasB(b, p4, 4) THEN NoParse
    ELSE LET m == LenAt(b, p4, 4)
             p5 == Exts(b, p4 + 4, m)
         IN IF p5 = -1 THEN NoParse
    ELSE IF p5 + 4 # Len(b) \/ Sub(b, p5, 4) # MagicFoot THEN NoParse
    ELSE [ok |-> TRUE, llvm |-> l.v, triple |-> t.v, cpu |-> c.v, mode |-> IF mode = 0 THEN "single" ELSE "batch",
          types |-> types, obj |-> Sub(b, p3, os)]

-----------------------------------------------------------------------------
(* Edits at positions of the original, listed from the back to the front. *)
Edit(b, x) ==
    CASE x.k = "set" -> [i \in 1..Len(b) |-> IF i > x.p /\ i <= x.p + Len(x.v) THEN x.v[i - x.p] ELSE b[i]]
      [] x.k = "ins" -> SubSeq(b, 1, x.p) \o x.v \o SubSeq(b, x.p + 1, Len(b))
      [] x.k = "del" -> SubSeq(b, 1, x.p) \o SubSeq(b, x.p + 1 + x.n, Len(b))
      [] x.k = "cut" -> SubSeq(b, 1, x.p)
RECURSIVE Edits(_, _, _)
Edits(b, xs, i) == IF i > Len(xs) THEN b ELSE Edits(TLCEval(Edit(b, xs[i])), xs, i + 1)

\* bit k of a number below 8
RBit(x, k) == (x \div P2(k)) % 2 = 1
\* host: the parse of an artifact saved here.  relax: bits for llvm, triple, cpu
Foreign(a, host, relax) ==
    \/ ~RBit(relax, 0) /\ a.llvm # host.llvm
    \/ ~RBit(relax, 1) /\ a.triple # host.triple
    \/ ~RBit(relax, 2) /\ a.cpu # host.cpu
\* "no": must be refused; "yes": the artifact saved as o, so must be accepted;
\* "open": well-formed, but its object is not one that was saved with these entries
Verdict(a, g, host, relax, o) ==
    IF ~a.ok THEN "no"
    ELSE IF a.mode # Mode(g) \/ Foreign(a, host, relax) THEN "no"
    ELSE IF a.obj = o.obj /\ a.types = o.types /\ a.mode = o.mode THEN "yes"
    ELSE "open"
=============================================================================
