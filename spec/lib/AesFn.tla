------------------------------- MODULE AesFn --------------------------------
(* FIPS 197.  State bytes in input order: s[r,c] = block[r + 4c + 1]. *)
EXTENDS Bytes

XTime(a) == IF a >= 128 THEN XorByte((2*a) % 256, 27) ELSE 2*a
GMul(a, b) ==      \* multiplication in GF(2^8) mod x^8+x^4+x^3+x+1
  FoldLeft(LAMBDA acc, k : LET d == XTime(acc) IN IF Bit(b, k) = 1 THEN XorByte(d, a) ELSE d,
           0, <<7,6,5,4,3,2,1,0>>)
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : GMul(a, b) = 1
Affine(b) ==
  FoldLeft(LAMBDA acc, i :
     acc + 2^i * ((Bit(b, i) + Bit(b, (i+4)%8) + Bit(b, (i+5)%8) + Bit(b, (i+6)%8)
                   + Bit(b, (i+7)%8) + Bit(99, i)) % 2), 0, <<0,1,2,3,4,5,6,7>>)
SBox == TLCEval([a \in 0..255 |-> Affine(GInv(a))])
InvSBox == TLCEval([v \in 0..255 |-> CHOOSE a \in 0..255 : SBox[a] = v])

Rcon(i) == FoldLeft(LAMBDA acc, k : XTime(acc), 1, [k \in 1..(i-1) |-> k])

KeyWords(key) ==      \* expanded key as a sequence of 4-byte words
  LET Nk == Len(key) \div 4
      total == 4 * (Nk + 7)
  IN FoldLeft(LAMBDA w, i :
       LET prev == w[i]
           t == IF i % Nk = 0
                THEN XorSeq(<< SBox[prev[2]], SBox[prev[3]], SBox[prev[4]], SBox[prev[1]] >>,
                            << Rcon(i \div Nk), 0, 0, 0 >>)
                ELSE IF Nk > 6 /\ i % Nk = 4 THEN [j \in 1..4 |-> SBox[prev[j]]]
                ELSE prev
       IN Append(w, XorSeq(w[i - Nk + 1], t)),
       [i \in 1..Nk |-> SubSeq(key, 4*i - 3, 4*i)],
       [k \in 1..(total - Nk) |-> Nk + k - 1])

RoundKey(w, r) == w[4*r+1] \o w[4*r+2] \o w[4*r+3] \o w[4*r+4]

SubShift(s) == [i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4 IN
                 SBox[s[r + 4*((c + r) % 4) + 1]]]
InvSubShift(s) == [i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4 IN
                 InvSBox[s[r + 4*((c + 4 - r) % 4) + 1]]]
MixWith(s, m) == [i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4
       g(k) == GMul(m[((k + 4 - r) % 4) + 1], s[k + 4*c + 1])
       IN XorByte(XorByte(g(0), g(1)), XorByte(g(2), g(3)))]

AesEnc(key, blk) ==
  LET w == TLCEval(KeyWords(key))
      Nr == Len(key) \div 4 + 6
      s1 == FoldLeft(LAMBDA s, r : XorSeq(MixWith(SubShift(s), <<2,3,1,1>>), RoundKey(w, r)),
                     XorSeq(blk, RoundKey(w, 0)), [r \in 1..(Nr-1) |-> r])
  IN XorSeq(SubShift(s1), RoundKey(w, Nr))

AesDec(key, blk) ==
  LET w == TLCEval(KeyWords(key))
      Nr == Len(key) \div 4 + 6
      s1 == FoldLeft(LAMBDA s, r : MixWith(XorSeq(InvSubShift(s), RoundKey(w, Nr - r)), <<14,11,13,9>>),
                     XorSeq(blk, RoundKey(w, Nr)), [r \in 1..(Nr-1) |-> r])
  IN XorSeq(InvSubShift(s1), RoundKey(w, 0))
=============================================================================
