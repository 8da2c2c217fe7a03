------------------------------- MODULE Keccak -------------------------------
(* FIPS 202 (Keccak-f[1600], the sponge, SHA-3, SHAKE) and SP 800-185
   (left_encode, encode_string, bytepad, cSHAKE), transcribed.  The permutation
   is written at the level of the standard's bit array A[x,y,z]. *)
EXTENDS Bytes

(* ---- the state as a function 0..1599 -> {0,1}; bit index 64(5y+x)+z ---- *)
BIx(x, y, z) == 64*(5*y + x) + z

Xor2(a, b) == (a + b) % 2

Theta(A) ==
  LET C == TLCEval([k \in 0..319 |-> LET x == k \div 64  z == k % 64 IN
             (A[BIx(x,0,z)] + A[BIx(x,1,z)] + A[BIx(x,2,z)] + A[BIx(x,3,z)] + A[BIx(x,4,z)]) % 2])
      D == TLCEval([k \in 0..319 |-> LET x == k \div 64  z == k % 64 IN
             Xor2(C[64*((x+4)%5) + z], C[64*((x+1)%5) + ((z+63)%64)])])
  IN  TLCEval([i \in 0..1599 |-> LET x == (i \div 64) % 5  z == i % 64 IN
             Xor2(A[i], D[64*x + z])])

(* rotation offsets r[x,y] of the rho step, by the (x,y) -> (y,2x+3y) walk *)
RhoOff ==
  LET w[t \in 0..24] == IF t = 0 THEN <<1, 0>> ELSE
                        LET q == w[t-1] IN << q[2], (2*q[1] + 3*q[2]) % 5 >>
  IN TLCEval([k \in 0..24 |->
       LET x == k % 5  y == k \div 5 IN
       IF k = 0 THEN 0
       ELSE LET t == CHOOSE t \in 0..23 : w[t] = <<x, y>>
            IN  (((t+1)*(t+2)) \div 2) % 64])

RhoPi(A, off) ==   \* pi(rho(A)): A''[x,y] = A'[(x+3y) mod 5, x]
  TLCEval([i \in 0..1599 |->
     LET z == i % 64  x == (i \div 64) % 5  y == i \div 320
         sx == (x + 3*y) % 5   sy == x
         o == off[5*sy + sx]
     IN A[BIx(sx, sy, (z + 64 - o) % 64)]])

Chi(A) == TLCEval([i \in 0..1599 |->
     LET z == i % 64  x == (i \div 64) % 5  y == i \div 320 IN
     Xor2(A[i], (1 - A[BIx((x+1)%5, y, z)]) * A[BIx((x+2)%5, y, z)])])

(* rc(t): the LFSR x^8+x^6+x^5+x^4+1 of FIPS 202, algorithm 5 *)
RcBits ==
  LET s[t \in 0..255] ==
        IF t = 0 THEN <<1,0,0,0,0,0,0,0>>
        ELSE LET R == <<0>> \o s[t-1] IN     \* nine bits R[1..9] = R[0..8] of the standard
             << Xor2(R[1],R[9]), R[2], R[3], R[4], Xor2(R[5],R[9]), Xor2(R[6],R[9]),
                Xor2(R[7],R[9]), R[8] >>
  IN  TLCEval([t \in 0..255 |-> s[t][1]])

Iota(A, ir, rc) ==
  TLCEval([i \in 0..1599 |->
     IF i \in {0, 1, 3, 7, 15, 31, 63}
     THEN LET j == CHOOSE j \in 0..6 : 2^j - 1 = i IN Xor2(A[i], rc[(j + 7*ir) % 255])
     ELSE A[i]])

KeccakFBits(A0) ==
  LET off == RhoOff  rc == RcBits IN
  FoldLeft(LAMBDA A, ir : Iota(Chi(RhoPi(Theta(A), off)), ir, rc), A0, [k \in 1..24 |-> k-1])

(* on 200-byte strings *)
KeccakF(s) ==
  LET A == KeccakFBits(TLCEval([i \in 0..1599 |-> Bit(s[(i \div 8) + 1], i % 8)]))
  IN  [k \in 1..200 |->
         FoldLeft(LAMBDA acc, b : acc + A[8*(k-1) + b] * 2^b, 0, <<0,1,2,3,4,5,6,7>>)]

(* ---- sponge ---- *)
Zero200 == [i \in 1..200 |-> 0]

AbsorbBlock(S, blk) == KeccakF(XorSeq(S, blk \o Zeros(200 - Len(blk))))

(* the same block k times *)
AbsorbRepeat(S, blk, k) == FoldLeft(LAMBDA st, i : AbsorbBlock(st, blk), S, [i \in 1..k |-> i])

(* pad10*1 with the domain separation bits already in sfx; at least one byte *)
Padding(sfx, used, rate) ==
  IF used = rate - 1 THEN << sfx + 128 >>
  ELSE <<sfx>> \o Zeros(rate - used - 2) \o <<128>>

AbsorbAll(S, data, rate) ==        \* Len(data) is a multiple of rate
  FoldLeft(LAMBDA st, k : AbsorbBlock(st, SubSeq(data, k*rate + 1, (k+1)*rate)),
           S, [k \in 1..(Len(data) \div rate) |-> k-1])

(* first n bytes of the output stream of the state S reached after padding *)
Squeeze(S, n, rate) ==
  LET step(acc, k) == IF k = 0 THEN << Take(S, rate), S >>
                      ELSE LET s2 == KeccakF(acc[2]) IN << acc[1] \o Take(s2, rate), s2 >>
      blocks == (n + rate - 1) \div rate
  IN  IF n = 0 THEN <<>>
      ELSE Take(FoldLeft(step, << <<>>, S >>, [k \in 1..blocks |-> k-1])[1], n)

Sponge(rate, sfx, msg, n) ==
  LET padded == msg \o Padding(sfx, Len(msg) % rate, rate)
  IN  Squeeze(AbsorbAll(Zero200, padded, rate), n, rate)

(* ---- messages of any size: what has been absorbed is << state, bytes of the last, incomplete
   block >> ---- *)
SpEmpty == << Zero200, << >> >>
SpAdd(rate, m, d) ==
  LET t == m[2] \o d
      k == Len(t) \div rate
  IN  << AbsorbAll(m[1], SubSeq(t, 1, k * rate), rate), SubSeq(t, k * rate + 1, Len(t)) >>
(* k > 0 copies of d, whose length is the rate *)
SpRepeat(rate, m, d, k) ==
  LET u == rate - Len(m[2])
  IN  << AbsorbRepeat(AbsorbBlock(m[1], m[2] \o Take(d, u)), Drop(d, u) \o Take(d, u), k - 1), Drop(d, u) >>
SpFill(rate, m) == IF m[2] = << >> THEN m ELSE SpAdd(rate, m, Zeros(rate - Len(m[2])))
SpOut(rate, sfx, m, n) ==
  Squeeze(AbsorbBlock(m[1], m[2] \o Padding(sfx, Len(m[2]), rate)), n, rate)

(* n bytes from an offset: the blocks before it are passed over (absorbing zeros is permuting) *)
SpOutAt(rate, sfx, m, from, n) ==
  LET st == AbsorbBlock(m[1], m[2] \o Padding(sfx, Len(m[2]), rate))
      k == from \div rate
      at == IF k = 0 THEN st ELSE AbsorbRepeat(st, Zeros(rate), k)
  IN  Drop(Squeeze(at, (from % rate) + n, rate), from % rate)

(* ---- SP 800-185 ---- *)
LeftEncode(v) ==      \* v < 2^31
  LET b == << (v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256 >>
      n == IF v >= 16777216 THEN 4 ELSE IF v >= 65536 THEN 3 ELSE IF v >= 256 THEN 2 ELSE 1
  IN  <<n>> \o SubSeq(b, 5 - n, 4)

(* LeftEncode(8 * n), for n < 2^31 *)
LeftEncodeBits(n) ==
  LET b == << n \div 536870912, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, 8 * (n % 32) >>
      k == IF n >= 536870912 THEN 5 ELSE IF n >= 2097152 THEN 4 ELSE IF n >= 8192 THEN 3 ELSE IF n >= 32 THEN 2 ELSE 1
  IN  <<k>> \o SubSeq(b, 6 - k, 5)

EncodeString(s) == LeftEncode(8 * Len(s)) \o s

BytePad(x, w) == LET z == LeftEncode(w) \o x IN z \o Zeros((w - (Len(z) % w)) % w)

(* the algorithms by name *)
Rate(alg) == CASE alg = "SHA3-224" -> 144 [] alg = "SHA3-256" -> 136
               [] alg = "SHA3-384" -> 104 [] alg = "SHA3-512" -> 72
               [] alg \in {"SHAKE128", "cSHAKE128"} -> 168
               [] alg \in {"SHAKE256", "cSHAKE256"} -> 136
DigestSize(alg) == CASE alg = "SHA3-224" -> 28 [] alg = "SHA3-256" -> 32
               [] alg = "SHA3-384" -> 48 [] alg = "SHA3-512" -> 64
               [] OTHER -> 0

IsC(alg, N, S) == alg \in {"cSHAKE128", "cSHAKE256"} /\ (N # <<>> \/ S # <<>>)

Suffix(alg, N, S) ==
  CASE alg \in {"SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512"} -> 6
    [] IsC(alg, N, S) -> 4
    [] OTHER -> 31

(* what is absorbed in front of the message *)
Prefix(alg, N, S) == IF IsC(alg, N, S)
                     THEN BytePad(EncodeString(N) \o EncodeString(S), Rate(alg)) ELSE <<>>

(* first n output bytes of algorithm alg, customised by N and S, on msg *)
HashOut(alg, N, S, msg, n) == Sponge(Rate(alg), Suffix(alg, N, S), Prefix(alg, N, S) \o msg, n)

SHAKE128(msg, n) == Sponge(168, 31, msg, n)
SHAKE256(msg, n) == Sponge(136, 31, msg, n)
=============================================================================
