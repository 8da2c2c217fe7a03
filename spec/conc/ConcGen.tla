-------------------------------- MODULE ConcGen --------------------------------
(* Programs for threads that use objects of their own and shared keys, and the order in which
   they run.  An entry of the history is a call of a thread, or the thread going on after one
   of its reads from its generator ("go"); the others may run in between. *)
EXTENDS GenKit, FiniteSets, Integers
CONSTANTS Threads,       \* 1..n
          Subjects,      \* what threads may be about
          Fields, Algs,
          Alike,         \* all threads are about the same thing
          Turns          \* calls in turn, without "go" entries (free running threads)
VARIABLES dom, own, left
gvars == << dom, own, left, hist >>
Op(k, x) == [k |-> k, x |-> x]
Lens == {0, 1, 71, 135, 136, 137, 168, 400, 3000}
(* objects a thread has: "h", "x" (an extensible one), "d", "ct", "mct", "pct", "prv" *)
HashMenu(o) ==
  { Op("new", a) : a \in Algs }
  \cup (IF "h" \in o THEN { Op("write", n) : n \in Lens } \cup { Op("out", n) : n \in {0, 1, 32, 200} } \cup { Op("reset", 0) } ELSE {})
  \cup (IF "x" \in o THEN { Op("clone", 0), Op("clone", 1) } ELSE {})
Sm3Menu(o) == { Op("new", "SM3") }
  \cup (IF "h" \in o THEN { Op("write", n) : n \in Lens } \cup { Op("out", n) : n \in {0, 1} } \cup { Op("reset", 0) } ELSE {})
DrbgMenu(o) == { Op("dnew", 0) }
  \cup (IF "d" \in o THEN { Op("dgen", n) : n \in {0, 1, 16, 33, 300} } \cup { Op("dreseed", n) : n \in {0, 48} } ELSE {})
SidhMenu(o) ==
  { Op("pubgen", v) : v \in {"A", "B", "S"} } \cup { Op("derive", v) : v \in {"A", "B"} }
  \cup { Op("enc", m) : m \in {"sidh", "mkem"} } \cup { Op("menc", n) : n \in 1..3 }
  \cup { Op("exp", 0), Op("gen", "A"), Op("gen", "S") }
  \cup (IF "ct" \in o THEN { Op("dec", m) : m \in {"sidh", "mkem"} } ELSE {})
  \cup (IF "mct" \in o THEN { Op("mdec", 0) } ELSE {})
CsidhMenu(o) ==
  { Op("spubgen", 0), Op("sval", 0), Op("sderive", 0), Op("sderive", 1), Op("sexp", 0), Op("sgen", 0), Op("penc", 0), Op("pmenc", 2) }
  \cup (IF "pct" \in o THEN { Op("pdec", 0) } ELSE {})
Menu(d, o) == CASE d = "hash" -> HashMenu(o) [] d = "sm3" -> Sm3Menu(o) [] d = "drbg" -> DrbgMenu(o)
                [] d = "csidh" -> CsidhMenu(o) [] OTHER -> SidhMenu(o)
Gains(o, c) == CASE c.k = "new" -> IF c.x \in {"SHAKE128", "SHAKE256", "cSHAKE128", "cSHAKE256"} THEN {"h", "x"} ELSE {"h"}
                 [] c.k = "dnew" -> {"d"} [] c.k = "enc" -> o \cup {"ct"} [] c.k = "menc" -> o \cup {"mct"}
                 [] c.k = "penc" -> o \cup {"pct"} [] OTHER -> o
(* reads from the generator the thread's calls make (about: the order goes on in turn) *)
Reads(c) == CASE c.k \in {"enc", "menc", "gen"} -> 1 [] c.k \in {"spubgen", "sval", "sderive", "sgen"} -> 3
              [] c.k \in {"dgen", "dreseed", "dnew"} -> 2 [] OTHER -> 0
Subjects2 == { IF s = "sidh" THEN f ELSE s : s \in Subjects, f \in Fields }
N == Cardinality(Threads)
Init == dom = << >> /\ own = [t \in Threads |-> {}] /\ left = [t \in Threads |-> 0] /\ hist = << >>
About == \E d \in (IF Alike /\ dom # << >> THEN { dom[1] } ELSE Subjects2) :
  dom' = Append(dom, d) /\ Log([about |-> d]) /\ UNCHANGED << own, left >>
Calls(t) == /\ left[t] = 0
            /\ \E c \in Menu(dom[t], own[t]) :
                 /\ own' = [own EXCEPT ![t] = Gains(@, c)]
                 /\ left' = [left EXCEPT ![t] = IF Turns THEN 0 ELSE Reads(c)]
                 /\ Log([t |-> t, c |-> c])
Goes(t) == /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED own /\ Log([t |-> t, c |-> Op("go", 0)])
Next == IF Len(dom) < N THEN About
        ELSE /\ UNCHANGED dom
             /\ IF Turns THEN Calls((Len(hist) % N) + 1)
                ELSE \E t \in Threads : Calls(t) \/ Goes(t)
Spec == Init /\ [][Next]_gvars
=============================================================================
