------------------------------ MODULE Scenario -------------------------------
(***************************************************************************)
(* Events in the form in which sessions are executed and recorded, for     *)
(* the models MC_... which generate behaviours of System to be executed on *)
(* the real library and judged by Trace.  The harness adds how arguments   *)
(* are written down in Python.                                             *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

Reset == [ev |-> "reset"]
Freq(b, n, a) == [n |-> n, b |-> b, a |-> a]
DayF == Freq("D", 1, 0)
NoAm == [k |-> <<>>, v |-> <<>>]
Truthy == <<"n:1", "n:8", "s:A", "s:B", "n:2", "n:3", "n:4", "n:5", "n:6", "n:7", "n:15/2">>

(* layouts: explicit marks, calendar periods, computed marks *)
MarksOrg(pts, elems) == [k |-> "marks", pts |-> pts, each |-> DayF, how |-> "none", at |-> <<>>,
                         st |-> [rp |-> "", e |-> elems]]
EachOrg(g, elems) == [k |-> "marker", each |-> g, how |-> "none", at |-> <<>>,
                      st |-> [rp |-> "", e |-> elems]]
AtOrg(g, how, at, elems) == [k |-> "marker", each |-> g, how |-> how, at |-> at,
                             st |-> [rp |-> "", e |-> elems]]
WithRp(og, id) == [og EXCEPT !.st = [rp |-> id, e |-> <<>>]]
Lab(x) == [k |-> "lab", v |-> x]
Pat(x) == [k |-> "pat", v |-> x]
RpEl(x) == [k |-> "rp", v |-> x]
OrgEl(x) == [k |-> "org", v |-> x]

Build(b, sid, q, f, s, e, org, deflab, am, ref, wts, on) ==
    [ev |-> "build", b |-> b, sid |-> sid, q |-> q, f |-> f, s |-> s, e |-> e, org |-> org,
     deflab |-> deflab, am |-> am, ref |-> ref, wts |-> wts, on |-> on, name |-> "on_duty",
     mode |-> "plain", twin |-> "", tag |-> ""]
Rp(id, labels) == [ev |-> "rp", id |-> id, labels |-> labels]
AddSch(b, sid, name, on) == [ev |-> "add", b |-> b, sid |-> sid, name |-> name, on |-> on]
DropSch(b, sid) == [ev |-> "drop", b |-> b, sid |-> sid]
Q(op, b, kind, iv, s, x, a) ==
    [ev |-> "q", op |-> op, b |-> b, o |-> [iv |-> iv, s |-> s, kind |-> kind, via |-> <<>>],
     x |-> x, a |-> a]
VoidQ(op, b, via, s, x, a) ==
    [ev |-> "q", op |-> op, b |-> b, o |-> [iv |-> <<>>, s |-> s, kind |-> "ivl", via |-> via],
     x |-> x, a |-> a]

(* the elements of a set in some order *)
Seqn(S) == SetToSeq(S)

Emit(events) == PrintT("SCN " \o ToJson(events))
Env(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
Thorough == Env("TIER", "quick") = "thorough"
===============================================================================
