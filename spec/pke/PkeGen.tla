--------------------------------- MODULE PkeGen ---------------------------------
(* Histories over PKE objects.  Key pairs are given: private key p belongs to PubOf[p]. *)
EXTENDS PkeObj, GenKit, FiniteSets, Integers
CONSTANTS Prvs, Pubs, Singles, Multis, Room, Ops, CtNames, Muts, Texts, Seeds
gvars == << keys, reply, pkes, pcts, hist >>
Tok(n, t) == [n |-> n, t |-> t]
GLen(x) == x.n
GCut(x, i, j) == x
GBlank(n) == Tok(n, "blank")
GAct(q, p) == Tok(64, "act")
GValid(q) == TRUE
GGenFn(x) == << x, "whole" >>
GUnknown == Tok(0, "unknown")
GMask(a, b) == Tok(16, "mask")
GOver(a, b) == Tok(64, "part")
Has(o) == Ops \cap o # {}
Objs == Singles \cup Multis
Init == CInit /\ PInit /\ hist = << >>
Missing == ((Prvs \cup Pubs) \ DOMAIN keys) \cup (Objs \ DOMAIN pkes)
GMake == LET o == CHOOSE x \in Missing : TRUE IN
  \/ o \in Prvs /\ NewKey(o, "prv") /\ UNCHANGED << pkes, pcts >> /\ Log([op |-> "s.prv", o |-> o])
  \/ o \in Pubs /\ NewKey(o, "pub") /\ UNCHANGED << pkes, pcts >> /\ Log([op |-> "s.pub", o |-> o])
  \/ o \in Singles /\ NewPke(o, 0) /\ Log([op |-> "p.new", o |-> o, n |-> 0])
  \/ o \in Multis /\ NewPke(o, Room) /\ Log([op |-> "p.new", o |-> o, n |-> Room])
GSeed == \E s \in Seeds : Seed /\ Log([op |-> "p.seed", s |-> s])
GAlloc(o) == NewPke(o, IF o \in Multis THEN Room ELSE 0) /\ Log([op |-> "p.new", o |-> o, n |-> IF o \in Multis THEN Room ELSE 0, again |-> TRUE])
GEnc(o) == \E q \in Pubs, c \in CtNames, t \in Texts :
  Enc(o, q, Tok(37, "prv"), c, Tok(16, t), Tok(64, "eph"), << >>) /\ Log([op |-> "p.enc", o |-> o, pub |-> q, c |-> c, text |-> t])
GDec(o) == \E p \in Prvs, c \in DOMAIN pcts : Dec(o, p, c) /\ Log([op |-> "p.dec", o |-> o, prv |-> p, c |-> c])
GMEnc(o) == \E n \in 0..Room : \E qs \in [1..n -> Pubs], t \in Texts :
  /\ o \in Multis
  /\ MEnc(o, qs, [i \in 1..n |-> Tok(37, "prv")], Tok(16, t), Tok(64, "eph"), << >>)
  /\ Log([op |-> "p.menc", o |-> o, pubs |-> qs, text |-> t])
GTake(o) == \E i \in DOMAIN pkes[o].parts, c \in CtNames :
  /\ pkes[o].c0.t # "blank" /\ pkes[o].parts[i].t # "blank"
  /\ TakePart(o, i, c) /\ Log([op |-> "p.take", o |-> o, i |-> i, c |-> c])
GMut == \E c \in DOMAIN pcts, m \in Muts :
  SetCt(c, pcts[c].u, pcts[c].v) /\ Log([op |-> "p.mut", c |-> c, cls |-> m])
(* keys change *)
GRekey == \E p \in Prvs : Import(p, Tok(37, "key")) /\ UNCHANGED << pkes, pcts >> /\ Log([op |-> "s.imp", o |-> p])
GRepub == \E p \in Prvs, q \in Pubs : PublicKey(p, q) /\ UNCHANGED << pkes, pcts >> /\ Log([op |-> "s.pubgen", prv |-> p, pub |-> q])
GMove == \E q, r \in Pubs : q # r /\ Import(q, keys[r].val) /\ UNCHANGED << pkes, pcts >> /\ Log([op |-> "s.move", o |-> q, from |-> r])
Full == Missing = {}
Next == \/ Missing # {} /\ GMake
        \/ Full /\ Has({"seed"}) /\ GSeed
        \/ Full /\ Has({"alloc"}) /\ \E o \in Objs : GAlloc(o)
        \/ Full /\ Has({"enc"}) /\ \E o \in Objs : GEnc(o)
        \/ Full /\ Has({"enc"}) /\ \E o \in Objs : GDec(o)
        \/ Full /\ Has({"dec"}) /\ \E o \in Objs : GDec(o)
        \/ Full /\ Has({"menc"}) /\ \E o \in Objs : GMEnc(o)
        \/ Full /\ Has({"take"}) /\ \E o \in Objs : GTake(o)
        \/ Full /\ Has({"mut"}) /\ GMut
        \/ Full /\ Has({"rekey"}) /\ (GRekey \/ GRepub \/ GMove)
Spec == Init /\ [][Next]_gvars
(* what matters for the next call: who was used last and how, what there is to decrypt *)
Last == IF hist = << >> THEN "none" ELSE hist[Len(hist)].op
Shape == << keys, pkes, pcts, Last >>
=============================================================================
