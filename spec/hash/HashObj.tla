------------------------------- MODULE HashObj -------------------------------
(* Streaming hash objects (SHA-3, SHAKE, cSHAKE, SM3): what a sequence of calls on
   a set of objects means.  The module is parameterised by the hash function, so
   that one text serves three uses:
     MC_HashObj    exhaustive model checking, symbolic messages and outputs
     HashGen       generation of call histories (messages are only lengths)
     HashTrace,
     SM3Trace      validation of traces of the real code (bytes, real functions) *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS
  Nothing(_),         \* Nothing(cfg): the empty message
  Absorb(_, _, _),    \* Absorb(cfg, m, d): message m followed by d
  Out(_, _, _, _),    \* Out(cfg, m, from, n): n output bytes for m, from offset `from'
  Cat(_, _),          \* concatenation of output strings
  LenOf(_)            \* length of an input

VARIABLES
  obj,     \* live objects: name -> [cfg, m, phase, off]
  reply    \* outcome of the last call

hvars == << obj, reply >>

(* cfg: [alg, N, S, xof, size, block] *)
Fresh(cfg) == [cfg |-> cfg, m |-> Nothing(cfg), phase |-> "absorbing", off |-> 0]

HInit == obj = << >> /\ reply = [call |-> "none"]

New(o, cfg) ==
  /\ obj' = (o :> Fresh(cfg)) @@ obj
  /\ reply' = [call |-> "new"]

(* everything is absorbed, or (once output was read) nothing and an error *)
Write(o, d) ==
  IF obj[o].phase = "absorbing"
  THEN /\ obj' = [obj EXCEPT ![o].m = Absorb(obj[o].cfg, @, d)]
       /\ reply' = [call |-> "write", n |-> LenOf(d), err |-> FALSE]
  ELSE /\ UNCHANGED obj
       /\ reply' = [call |-> "write", n |-> 0, err |-> TRUE]

(* the digest is appended to `in'; the object stays as it is *)
Sum(o, in) ==
  /\ UNCHANGED obj
  /\ reply' = [call |-> "sum", out |-> Cat(in, Out(obj[o].cfg, obj[o].m, 0, obj[o].cfg.size))]

(* named deviation (known finding sm3-sum-in): the argument of Sum is hashed after the
   message and only the 32 digest bytes are returned *)
SumHashesIn(o, in) ==
  /\ UNCHANGED obj
  /\ reply' = [call |-> "sum",
               out |-> Out(obj[o].cfg, Absorb(obj[o].cfg, obj[o].m, in), 0, obj[o].cfg.size)]

Read(o, n) ==
  /\ obj' = [obj EXCEPT ![o].phase = "squeezing", ![o].off = @ + n]
  /\ reply' = [call |-> "read", n |-> n, err |-> FALSE,
               out |-> Out(obj[o].cfg, obj[o].m, obj[o].off, n)]

Clone(o, q) ==
  /\ obj' = (q :> obj[o]) @@ obj
  /\ reply' = [call |-> "clone"]

Reset(o) ==
  /\ obj' = [obj EXCEPT ![o] = Fresh(@.cfg)]
  /\ reply' = [call |-> "reset"]

Sizes(o) ==
  /\ UNCHANGED obj
  /\ reply' = [call |-> "sizes", size |-> obj[o].cfg.size, bs |-> obj[o].cfg.block]
=============================================================================
