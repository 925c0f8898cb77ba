------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The wire format.  Encode(f) is the canonical encoding of frame f,       *)
(* Decode(b) the frame a byte string means (<<>>: none), Crc the checksum. *)
(*                                                                         *)
(* Frames are tuples: "N" SYN, "B" SYN-ACK, "A" ACK, "E" handshake error,  *)
(* "Q" disconnect, "q" disconnect-ack, "F" data, "Y" sync, "K" acks.       *)
(* 32-bit (and 20-bit) fields are pairs <<high 16 bits, low 16 bits>>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

MaxFrame == 1472
Pow(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] OTHER -> 256

-----------------------------------------------------------------------------
(* CRC-32 with polynomial 0x132C00699, reflected; initial and final complement *)
Poly == <<39264, 844>>                              \* 0x9960034C

CrcBit(c) ==
  LET s == <<c[1] \div 2, (c[1] % 2) * 32768 + c[2] \div 2>>
  IN IF c[2] % 2 = 1 THEN <<s[1] ^^ Poly[1], s[2] ^^ Poly[2]>> ELSE s

CrcByte(c, b) == CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(<<c[1], c[2] ^^ b>>))))))))

CrcPure(bytes) ==
  LET r == FoldLeft(CrcByte, <<65535, 65535>>, bytes) IN <<r[1] ^^ 65535, r[2] ^^ 65535>>

Crc(bytes) == CrcPure(bytes)                        \* evaluated by java/Codec.java; CodecMC compares the two

(* A linear code detects every error of weight 1..4 iff no sum of 1..4 distinct syndromes vanishes *)
SyndromesOk(s) == \* evaluated by java/Codec.java (69 million pairs); this is what it decides
  LET N == 1..Len(s)
      x(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
      zero == <<0, 0>>
  IN /\ \A i \in N : s[i] # zero
     /\ \A i, j \in N : i < j => s[i] # s[j]
     /\ \A i, j, k \in N : (i < j /\ k # i /\ k # j) => x(s[i], s[j]) # s[k]
     /\ \A i, j, k, l \in N : (i < j /\ k < l /\ {i, j} # {k, l}) => x(s[i], s[j]) # x(s[k], s[l])

-----------------------------------------------------------------------------
Hi(n) == n \div 256
Lo(n) == n % 256
B16(n) == <<Hi(n), Lo(n)>>
B32(p) == <<Hi(p[1]), Lo(p[1]), Hi(p[2]), Lo(p[2])>>
Seal(body) == body \o B32(Crc(body))

Datagram(d) ==
  LET ch == d[1]  sq == d[2]  wl == d[3]  cl == d[4]  fr == d[5]  la == d[6]  data == d[7]  n == Len(data) IN
  (IF la = 0 /\ fr = 0 /\ n < 64 /\ wl < 128 /\ cl < 256
   THEN <<((ch \div 16) % 2) * 64 + n, sq[1] * 16 + (ch % 16)>> \o B16(sq[2]) \o <<(ch \div 32) * 128 + wl, cl>>
   ELSE IF la = 0 /\ fr = 0 /\ n < 256
   THEN <<128 + ch, n, sq[1]>> \o B16(sq[2]) \o B16(wl) \o B16(cl)
   ELSE <<192 + ch>> \o B16(n) \o <<sq[1]>> \o B16(sq[2]) \o B16(wl) \o B16(cl) \o B16(fr) \o B16(la)) \o data

Opt32(o) == IF o = <<>> THEN <<0, 0, 0, 0>> ELSE B32(o)

Body(f) ==
  CASE f[1] = "N" -> <<0, f[2]>> \o B32(f[3]) \o B32(f[4]) \o B32(f[5]) \o B32(f[6]) \o [i \in 1..(MaxFrame - 22) |-> 0]
    [] f[1] = "B" -> <<1>> \o B32(f[2]) \o B32(f[3]) \o B32(f[4]) \o B32(f[5]) \o B32(f[6])
    [] f[1] = "A" -> <<2>> \o B32(f[2])
    [] f[1] = "E" -> <<3>> \o B32(f[2]) \o <<f[3]>>
    [] f[1] = "Q" -> <<4>>
    [] f[1] = "q" -> <<5>>
    [] f[1] = "F" -> <<10>> \o B32(f[2]) \o <<f[3] * 128 + Len(f[4])>> \o FoldLeft(LAMBDA a, d : a \o Datagram(d), <<>>, f[4])
    [] f[1] = "Y" -> <<11, (IF f[2] = <<>> THEN 0 ELSE 1) + (IF f[3] = <<>> THEN 0 ELSE 2)>> \o Opt32(f[2]) \o Opt32(f[3])
    [] f[1] = "K" -> <<12>> \o B32(f[2]) \o B32(f[3]) \o B16(Len(f[4]))
                     \o FoldLeft(LAMBDA a, g : a \o B32(g[1]) \o B32(g[2]) \o <<g[3]>>, <<>>, f[4])

Encode(f) == Seal(Body(f))

-----------------------------------------------------------------------------
P16(b, i) == b[i] * 256 + b[i + 1]
P32(b, i) == <<P16(b, i), P16(b, i + 2)>>

(* The datagram at position i of b (n is the end of the payload): <<datagram, next position>>, or <<>> *)
DgAt(b, i, n) ==
  LET room == n - i + 1 IN
  IF room < 6 THEN <<>>
  ELSE IF b[i] < 128 THEN
    LET len == b[i] % 64 IN
    IF room < 6 + len THEN <<>>
    ELSE <<<<(b[i + 4] \div 128) * 32 + (((b[i] \div 64) % 2) * 16) + (b[i + 1] % 16), <<b[i + 1] \div 16, P16(b, i + 2)>>, b[i + 4] % 128, b[i + 5], 0, 0,
             SubSeq(b, i + 6, i + 5 + len)>>, i + 6 + len>>
  ELSE IF b[i] < 192 THEN
    IF room < 9 THEN <<>> ELSE
    LET len == b[i + 1] IN
    IF room < 9 + len THEN <<>>
    ELSE <<<<b[i] % 64, <<b[i + 2] % 16, P16(b, i + 3)>>, P16(b, i + 5), P16(b, i + 7), 0, 0, SubSeq(b, i + 9, i + 8 + len)>>, i + 9 + len>>
  ELSE
    IF room < 14 THEN <<>> ELSE
    LET len == P16(b, i + 1) IN
    IF room < 14 + len THEN <<>>
    ELSE <<<<b[i] % 64, <<b[i + 3] % 16, P16(b, i + 4)>>, P16(b, i + 6), P16(b, i + 8), P16(b, i + 10), P16(b, i + 12),
             SubSeq(b, i + 14, i + 13 + len)>>, i + 14 + len>>

RECURSIVE Dgs(_, _, _, _, _)
Dgs(b, i, n, k, acc) ==       \* exactly k datagrams up to n
  IF k = 0 THEN (IF i = n + 1 THEN <<acc>> ELSE <<>>)
  ELSE LET d == DgAt(b, i, n) IN IF d = <<>> THEN <<>> ELSE Dgs(b, d[2], n, k - 1, Append(acc, d[1]))

Decode(b) ==
  LET L == Len(b)  n == L - 4 IN           \* the body is b[1..n]
  IF L < 5 THEN <<>>
  ELSE IF B32(Crc(SubSeq(b, 1, n))) # SubSeq(b, n + 1, L) THEN <<>>
  ELSE
  CASE b[1] = 0 -> IF L = MaxFrame THEN <<"N", b[2], P32(b, 3), P32(b, 7), P32(b, 11), P32(b, 15)>> ELSE <<>>
    [] b[1] = 1 -> IF n = 21 THEN <<"B", P32(b, 2), P32(b, 6), P32(b, 10), P32(b, 14), P32(b, 18)>> ELSE <<>>
    [] b[1] = 2 -> IF n = 5 THEN <<"A", P32(b, 2)>> ELSE <<>>
    [] b[1] = 3 -> IF n = 6 /\ b[6] <= 2 THEN <<"E", P32(b, 2), b[6]>> ELSE <<>>
    [] b[1] = 4 -> IF n = 1 THEN <<"Q">> ELSE <<>>
    [] b[1] = 5 -> IF n = 1 THEN <<"q">> ELSE <<>>
    [] b[1] = 10 -> IF n < 6 THEN <<>> ELSE
                    LET d == Dgs(b, 7, n, b[6] % 128, <<>>) IN
                    IF d = <<>> THEN <<>> ELSE <<"F", P32(b, 2), b[6] \div 128, d[1]>>
    [] b[1] = 11 -> IF n = 10 THEN <<"Y", IF b[2] % 2 = 1 THEN P32(b, 3) ELSE <<>>, IF (b[2] \div 2) % 2 = 1 THEN P32(b, 7) ELSE <<>>>> ELSE <<>>
    [] b[1] = 12 -> IF n < 11 THEN <<>> ELSE
                    LET k == P16(b, 10) IN
                    IF n # 11 + 9 * k THEN <<>>
                    ELSE <<"K", P32(b, 2), P32(b, 6),
                           [j \in 1..k |-> <<P32(b, 3 + 9 * j), P32(b, 7 + 9 * j), IF b[11 + 9 * j] = 0 THEN 0 ELSE 1>>]>>
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Judging recorded calls.  Byte strings whose only deviation from the canonical encoding lies in *)
(* bits without a meaning may be accepted (with that meaning) or rejected.                         *)
WStep(st, ev) ==
  LET B(s, c, what) == IF c THEN [s EXCEPT !.v = @ \cup {<<"C16", what>>}] ELSE s IN
  CASE ev.e = "W" -> B(B(st, ev.g # ev.f, <<"does not round-trip", ev.f[1]>>), Decode(ev.b) # ev.f, <<"written bytes mean something else", ev.f[1]>>)
    [] ev.e = "r" -> LET m == Decode(ev.b) IN
                     B(B(st, ev.g # <<>> /\ ev.g # m, <<IF m = <<>> THEN "malformed, but accepted" ELSE "misread", ev.b>>),
                       ev.g = <<>> /\ m # <<>> /\ Encode(m) = ev.b, <<"well-formed, but rejected", ev.b>>)
    [] ev.e = "x" -> B(st, ev.acc # <<>>, <<"bit errors accepted", ev.w, ev.acc>>)
    [] ev.e = "c" -> B(st, ev.s # Crc(ev.b), <<"checksum", ev.b>>)
    [] ev.e = "s" -> B(st, Len(ev.s) # 8 * MaxFrame \/ ~SyndromesOk(ev.s), <<"checksum misses errors of up to four bits">>)
    [] ev.e = "P" -> B(st, TRUE, <<"panic", ev.m>>)
    [] ev.e = "H" -> B(st, TRUE, <<"call does not return">>)
    [] OTHER -> st
=============================================================================
