------------------------------- MODULE TraceKit -------------------------------
(* Plumbing shared by the trace specifications.
   TRACE  NDJSON file, one event per line; scripts start with a "begin" event
   OPTS   JSON file: the aspects this run judges besides values, the tags of the known
          findings *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

VARIABLE l            \* next event

Log == ndJsonDeserialize(IOEnv.TRACE)
Opts == JsonDeserialize(IOEnv.OPTS)
Aspects == {Opts.aspects[i] : i \in 1..Len(Opts.aspects)}
KnownTags == {Opts.known[i] : i \in 1..Len(Opts.known)}

Ev == Log[l]

(* got is what the implementation did, want what the specification prescribes *)
Chk(what, got, want) ==
  IF got = want THEN TRUE
  ELSE PrintT("MISMATCH " \o what \o ", expected " \o ToString(want)) /\ FALSE
(* only judged when the run is about this aspect *)
Sees(aspect, what, got, want) == IF aspect \in Aspects THEN Chk(what, got, want) ELSE TRUE
Watch(aspect) == aspect \in Aspects

(* a known finding was observed *)
Known(tag) == tag \in KnownTags /\ PrintT(<< "KNOWN", tag >>)

(* every event: no call panics unless the specification says so (op names listed in
   MayPanic handle it themselves), and the frame holds *)
Consume ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  \* a call that did not return, or ended the process, is never accepted
  /\ Chk("answered", Ev.op \in {"hang", "crash"}, FALSE)
  /\ IF Ev.op = "begin" THEN TRUE
     ELSE /\ Sees("frame", "frame", Ev.fr, << >>)
          \* outputs that were written beyond their documented region
          /\ Sees("over", "written beyond the output", Ev.over, 0)
NoPanic == IF Ev.op = "begin" THEN TRUE ELSE Chk("panic", Ev.pan, FALSE)

Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
