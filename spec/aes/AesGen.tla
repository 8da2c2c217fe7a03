-------------------------------- MODULE AesGen --------------------------------
(* Histories for AES objects; keys and blocks are tokens that are filled in later:
   kcls/bcls choose the class of the value ("rand", "zero", "ones", "bit"). *)
EXTENDS AesObj, GenKit
CONSTANTS Objs, Kinds, KeyLens, Classes, Shorts
GEnc(k, b) == 0
GDec(k, b) == 0
GValid(k) == k \in {16, 24, 32}
gvars == << aes, reply, hist >>
Init == AInit /\ hist = << >>
GNew(o) == o \notin DOMAIN aes /\ \E k \in Kinds : New(o, k) /\ Log([op |-> "a.new", o |-> o, kind |-> k])
GKey(o) == \E n \in KeyLens, c \in Classes : SetKey(o, n) /\ Log([op |-> "a.key", o |-> o, keylen |-> n, cls |-> c])
GCrypt(o) == \E d \in {"enc", "dec"}, c \in Classes, s \in {TRUE, FALSE}, x \in {0, 5} :
   Crypt(o, d, 0) /\ Log([op |-> "a.crypt", o |-> o, dir |-> d, cls |-> c, same |-> s, srclen |-> 16 + x, dlen |-> 16 + 2*x])
GShort(o) == \E d \in {"enc", "dec"}, s \in Shorts, t \in Shorts \cup {16} :
   aes[o].set /\ Refuse(o) /\ Log([op |-> "a.crypt", o |-> o, dir |-> d, cls |-> "rand", same |-> FALSE,
                     srclen |-> s, dlen |-> t])
GShort2(o) == \E d \in {"enc", "dec"}, t \in Shorts :
   aes[o].set /\ Refuse(o) /\ Log([op |-> "a.crypt", o |-> o, dir |-> d, cls |-> "rand", same |-> FALSE,
                     srclen |-> 16, dlen |-> t])
Next ==
  \/ \E o \in Objs : GNew(o)
  \/ \E o \in DOMAIN aes : GKey(o)
  \/ \E o \in DOMAIN aes : GKey(o)
  \/ \E o \in DOMAIN aes : GCrypt(o)
  \/ \E o \in DOMAIN aes : GCrypt(o)
  \/ \E o \in DOMAIN aes : GCrypt(o)
  \/ \E o \in DOMAIN aes : GShort(o) \/ GShort2(o)
Spec == Init /\ [][Next]_gvars
ShapeView == << [o \in DOMAIN aes |-> aes[o]], reply.call >>
=============================================================================
