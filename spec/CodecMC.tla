------------------------------ MODULE CodecMC ------------------------------
(* The wire format itself: every frame of a boundary-value domain survives Encode and Decode, no two *)
(* frames share an encoding, and damaged encodings are rejected.                                      *)
EXTENDS Codec

U == {<<0, 0>>, <<0, 1>>, <<32768, 0>>, <<65535, 65535>>}
S == {<<0, 0>>, <<1, 258>>, <<15, 65535>>}
Bytes(n) == [i \in 1..n |-> (i * 37) % 256]
D1 == { <<ch, sq, wl, cl, fl[1], fl[2], Bytes(n)>> : ch \in {0, 15, 16, 31, 32, 63}, sq \in S, wl \in {0, 127, 128, 65535},
        cl \in {0, 255, 256, 65535}, fl \in {<<0, 0>>, <<0, 1>>, <<1, 1>>, <<65535, 65535>>}, n \in {0, 1, 63, 64, 255, 256} }
D2 == { <<ch, <<15, 65535>>, wl, 0, 0, 0, Bytes(n)>> : ch \in {0, 63}, wl \in {127, 128}, n \in {0, 63, 64, 256} }
Frames ==
  { <<"N", v, a, b, c, d>> : v \in {0, 3, 255}, a \in U, b \in U, c \in U, d \in U }
  \cup { <<"B", a, b, c, d, e>> : a \in U, b \in U, c \in U, d \in U, e \in {<<0, 0>>, <<65535, 65535>>} }
  \cup { <<"A", a>> : a \in U } \cup { <<"E", a, x>> : a \in U, x \in 0..2 } \cup {<<"Q">>, <<"q">>}
  \cup { <<"F", a, n, <<>>>> : a \in U, n \in 0..1 }
  \cup { <<"F", <<1, 2>>, 1, <<d>>>> : d \in D1 }
  \cup { <<"F", <<1, 2>>, 0, <<d, e>>>> : d \in D2, e \in D2 }
  \cup { <<"F", <<0, 0>>, 0, [i \in 1..k |-> <<i % 64, <<0, i>>, 0, 0, 0, 0, <<>>>>]>> : k \in {2, 64, 126, 127} }
  \cup { <<"Y", a, b>> : a \in U \cup {<<>>}, b \in U \cup {<<>>} }
  \cup { <<"K", a, b, [i \in 1..k |-> <<<<i, i>>, <<0, i>>, i % 2>>]>> : a \in U, b \in S, k \in {0, 1, 2, 161} }

VARIABLES f, b
Init == f \in Frames /\ b = <<>>
Next == b = <<>> /\ b' = Encode(f) /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, b>>

Flip(s, p) == [s EXCEPT ![(p \div 8) + 1] = @ ^^ Pow(p % 8)]
RoundTrip == b # <<>> => Decode(b) = f /\ Len(b) <= MaxFrame + 5000
NoTrailing == b # <<>> /\ Len(b) < 200 => /\ Decode(SubSeq(b, 1, Len(b) - 1)) = <<>>
                                          /\ Decode(Append(b, 0)) = <<>>
                                          /\ Decode(Seal(Append(SubSeq(b, 1, Len(b) - 4), 0))) = <<>>
Damage == b # <<>> /\ Len(b) <= 30 => \A p \in 0..(8 * Len(b) - 1) : Decode(Flip(b, p)) = <<>>
CrcAgrees == b # <<>> /\ Len(b) <= 100 => Crc(b) = CrcPure(b)
Check == Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<4518, 62115>>          \* "123456789"
=============================================================================
