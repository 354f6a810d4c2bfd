-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of a recorded session of the real library against System.    *)
(* Every line of the trace is an event: a transition of System with its    *)
(* arguments and the observed result r.  Each step takes the transition,   *)
(* judges the result and goes on, so the verdict is total: every event     *)
(* that disagrees with the specification is printed as a BAD line naming   *)
(* the clause; the number of judgements per clause and outcome is printed  *)
(* at the end with DONE.                                                   *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

VARIABLES i, sys, cov

Trace == ndJsonDeserialize(IOEnv.TRACE)

vars == <<i, sys, cov>>

(* --- agreement of an observed result with an expected outcome ------------- *)
Agrees(exp, r) == IF exp.k = "exc" THEN r.k = "exc" /\ r.e \in exp.es
                  ELSE r.k = exp.v.k /\ r = exp.v

Judge1(clause, exp, r) ==
    IF Agrees(exp, r) THEN {} ELSE { [c |-> clause, x |-> exp] }

Fail(clause, x) == { [c |-> clause, x |-> x] }

FirstDiff(s, t) == IF Len(s) # Len(t) THEN <<Len(s), Len(t)>>
                   ELSE <<CHOOSE k \in DOMAIN s : s[k] # t[k]>>
Same(clause, want, got) ==
    IF want = got THEN {}
    ELSE Fail(clause, LET d == FirstDiff(want, got)
                      IN IF Len(d) = 2 THEN [at |-> 0, want |-> d[1], got |-> d[2]]
                         ELSE [at |-> d[1], want |-> want[d[1]], got |-> got[d[1]]])

(* --- the observed board as such --------------------------------------------- *)
Observed(e) == [q |-> e.q, S |-> e.r.S, E |-> e.r.E, D |-> e.r.D, L |-> e.r.L,
                ref |-> e.ref, wts |-> e.wts, num |-> e.num]

(* consecutive, non-empty, ordered: queries can be judged against it *)
WellFormed(o) == /\ Len(o.S) > 0
                 /\ Len(o.E) = Len(o.S) /\ Len(o.D) = Len(o.S) /\ Len(o.L) = Len(o.S)
                 /\ \A n \in DOMAIN o.S : o.S[n] < o.E[n]
                 /\ \A n \in 2 .. Len(o.S) : o.S[n] = o.E[n - 1]

(* the frame *)
JFrame(e) ==
    LET fr == BuildFrame(e) IN
    IF fr.n = 0 THEN IF e.r.k = "exc" /\ e.r.e = "VoidIntervalError" THEN {}
                     ELSE Fail("frame-void", "VoidIntervalError")
    ELSE IF e.r.k = "exc" THEN {}
    ELSE (IF e.r.st = FrameStart(fr) THEN {} ELSE Fail("frame-start", FrameStart(fr)))
         \cup (IF e.r.en = FrameEndx(fr) THEN {} ELSE Fail("frame-end", FrameEndx(fr)))
         \cup (IF e.r.S # <<>> /\ e.r.S[1] = FrameStart(fr) THEN {}
               ELSE Fail("frame-first", FrameStart(fr)))
         \cup (IF e.r.E # <<>> /\ Last(e.r.E) = FrameEndx(fr) THEN {}
               ELSE Fail("frame-last", FrameEndx(fr)))

(* reference times, with the parts of a tick in them: an end is the last instant of the tick *)
RefSeq(e, o) == [ n \in DOMAIN o.S |-> IF e.ref = "end" THEN <<o.E[n], 1>> ELSE <<o.S[n], 0>> ]

(* the partition: whole base units without gaps; attributes agree *)
JPart(e) ==
    LET fr == BuildFrame(e)
        o  == e.r
        U  == { UStart(fr, n) : n \in 0 .. fr.n }
    IN  IF o.k = "exc" \/ fr.n = 0 THEN {}
        ELSE (IF WellFormed(o) THEN {} ELSE Fail("part-chain", ""))
             \cup (IF o.S # <<>> /\ o.S[1] = o.st /\ o.E # <<>> /\ Last(o.E) = o.en THEN {}
                   ELSE Fail("part-cover", ""))
             \cup (IF o.len = Len(o.S) THEN {} ELSE Fail("part-len", Len(o.S)))
             \cup (IF \A n \in DOMAIN o.S : o.S[n] \in U /\ o.E[n] \in U THEN {}
                   ELSE Fail("part-units", ""))
             \cup (IF \A n \in DOMAIN o.S : o.S[n] \in U =>
                        o.D[n] >= 1 /\ UnitAt(fr, o.S[n]) + o.D[n] <= fr.n
                        /\ UStart(fr, UnitAt(fr, o.S[n]) + o.D[n]) = o.E[n]
                   THEN {} ELSE Fail("part-duration", ""))
             \cup Same("part-ref", RefSeq(e, o), o.R)

JLayout(e, out) ==
    LET r == e.r IN
    IF out = Void THEN {}
    ELSE IF out.k = "exc"
    THEN IF r.k = "exc" /\ r.e \in out.es THEN {} ELSE Fail("layout-accepts", out.es)
    ELSE IF r.k = "exc"
    THEN IF r.e \in out.may THEN {} ELSE Fail("layout-raises", out.may)
    ELSE Same("layout-cuts", out.v.S, r.S) \cup Same("layout-ends", out.v.E, r.E)
         \cup Same("layout-durations", out.v.D, r.D) \cup Same("layout-labels", out.v.L, r.L)

JDuty(e) == IF e.r.k = "exc" THEN {}
            ELSE Same("duty-default", OnSeq(e.r, e.on), e.r.on)
                 \cup (IF e.r.sch = e.name THEN {} ELSE Fail("duty-name", e.name))

(* what was passed in is left alone *)
JArgs(e) == IF e.r.k = "exc" \/ e.r.args THEN {} ELSE Fail("args-changed", "")

(* the same beginning, end, number and references of workshifts as of another board *)
JSpan(clause, e, t) ==
    IF e.r.st = t.S[1] /\ e.r.en = Last(t.E) /\ e.r.len = Len(t.S) /\ e.r.R = RefSeq(e, t)
       /\ e.r.sch = e.name
    THEN {} ELSE Fail(clause, "")

(* amendments relative to the same board without them *)
JAmend(e, t) ==
    LET r == e.r IN
    IF AmendErr(t, e.am.k)
    THEN IF r.k = "exc" /\ r.e = "KeyError" THEN {} ELSE Fail("amend-accepts", "KeyError")
    ELSE IF r.k = "exc" THEN Fail("amend-raises", "")
    ELSE Same("amend-cuts", t.S, r.S) \cup Same("amend-ends", t.E, r.E)
         \cup Same("amend-durations", t.D, r.D)
         \cup Same("amend-labels", AmendLabels(t, e.am.k, e.am.v), r.L)
         \cup Same("amend-duty", [ n \in DOMAIN t.S |-> \E j \in DOMAIN e.on :
                                     e.on[j] = AmendLabels(t, e.am.k, e.am.v)[n] ], r.on)
         \cup JSpan("amend-span", e, t)

(* the same board made once more *)
JTwin(e, t) ==
    IF e.r.k = "exc" THEN Fail("rebuild-raises", "")
    ELSE Same("rebuild-cuts", t.S, e.r.S) \cup Same("rebuild-ends", t.E, e.r.E)
         \cup Same("rebuild-durations", t.D, e.r.D) \cup Same("rebuild-labels", t.L, e.r.L)
         \cup JSpan("rebuild-span", e, t) \cup Same("rebuild-duty", OnSeq(t, e.on), e.r.on)

(* a board made by running the text form of another one: the very layout the text shows,
   judged as if it had been built from its parts                                     *)
JText(e, out) ==
    { [c |-> "text-" \o x.c, x |-> x.x] : x \in JFrame(e) \cup JPart(e) \cup JLayout(e, out)
                                              \cup JDuty(e) }

(* --- calendars ---------------------------------------------------------------- *)
H == INSTANCE Holidays

AsFn(pairs) == [ d \in { pairs[n][1] : n \in DOMAIN pairs } |->
                 pairs[CHOOSE n \in DOMAIN pairs : pairs[n][1] = d][2] ]
Pairs(f) == { <<d, f[d]>> : d \in DOMAIN f }
SortedPairs(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1])
SameDays(clause, want, got) ==
    IF want = got THEN {}
    ELSE Fail(clause, [want |-> SortedPairs(Pairs(want) \ Pairs(got)),
                       got  |-> SortedPairs(Pairs(got) \ Pairs(want))])

(* a full calendar with some options: e.c, e.o (own calendars: their week and
   amendments are given), observed as its range and exceptions from the week    *)
CalRangeOf(e) == IF e.c = "own" THEN <<e.d0, e.d1>> ELSE H!CalRange(e.c)
CalWeek(e)    == IF e.c = "own" THEN e.wk ELSE H!Weekly8x5
CalAm(e)      == IF e.c = "own" THEN AsFn(e.am) ELSE H!CalDays(e.c, e.o)
JCal(e) ==
    LET d  == CalRangeOf(e)
        wk == CalWeek(e)
        ex == TLCEval(H!Exceptions(CalAm(e), wk, d[1], d[2]))
    IN IF e.r.k = "exc" THEN Fail("cal-raises", "")
       ELSE IF e.r.d0 # d[1] \/ e.r.d1 # d[2] THEN Fail("cal-span", d)
       ELSE SameDays("cal-days", ex, AsFn(e.r.ex))
            \cup (IF e.r.on THEN {} ELSE Fail("cal-duty", ""))
            \cup (IF e.r.args THEN {} ELSE Fail("cal-args", ""))
            \cup LET w == H!Hours([l \in DOMAIN e.num |-> e.num[l][1]], AsFn(e.r.ex), wk, d[1], d[2])
                 IN IF e.r.work = w THEN {} ELSE Fail("cal-work", w)

(* the customized calendar e relative to the full one t: bounds are days or
   absent; dup - two custom amendments of one day                                *)
Bound(x, dflt) == IF x = <<>> THEN dflt ELSE x[1]
JCustom(e, t) ==
    LET d0 == Bound(e.cs, t.d0)
        d1 == Bound(e.ce, t.d1)
        ca == AsFn(e.ca)
        clash == \E m, n \in DOMAIN e.ca : m # n /\ e.ca[m][1] = e.ca[n][1]
                                         /\ e.ca[m][1] >= d0 /\ e.ca[m][1] <= d1
        ex == TLCEval(H!Custom(t.ex, ca, t.wk, e.mode, d0, d1))
        raised(n) == IF e.r.k = "exc" /\ e.r.e = n THEN {} ELSE Fail("custom-rejects", n)
    IN IF d0 < t.d0 \/ d0 > t.d1 \/ d1 < t.d0 \/ d1 > t.d1 THEN raised("OutOfBoundsError")
       ELSE IF d0 > d1 THEN raised("VoidIntervalError")
       ELSE IF clash /\ e.mode = "only" THEN raised("KeyError")
       ELSE IF e.r.k = "exc" THEN Fail("custom-raises", "")
       ELSE IF e.r.d0 # d0 \/ e.r.d1 # d1 THEN Fail("custom-span", <<d0, d1>>)
       ELSE SameDays("custom-days", ex, AsFn(e.r.ex))
            \cup (IF e.r.on THEN {} ELSE Fail("custom-duty", ""))
            \cup (IF e.r.args THEN {} ELSE Fail("custom-args", ""))

(* helpers: [k |-> "map", v |-> pairs] sorted by day *)
MapView(f) == [k |-> "map", v |-> SortedPairs(Pairs(f))]
HelpOutcome(e) ==
    CASE e.fn = "nth" ->
           LET err == H!NthErr(e.year, e.dates, e.errors)
           IN IF err # "" THEN Exc({err}) ELSE Ok(MapView(H!NthDays(e.year, e.dates, e.label)))
      [] e.fn = "easter" -> Ok(MapView(H!EasterDays(e.kind, e.year, e.shifts, e.label)))
      [] e.fn = "extend" -> Ok(MapView(H!Extend(AsFn(e.am), e.how, e.lab, e.wend)))
JHelp(e) == Judge1("help-" \o e.fn, HelpOutcome(e),
                   IF e.r.k = "exc" THEN e.r ELSE [k |-> e.r.k, v |-> e.r.v])
            \cup (IF e.r.k = "exc" \/ e.r.args THEN {} ELSE Fail("help-args", ""))

HasBoard(e) == e.b \in DOMAIN sys.bd
HasObj(e)   == HasBoard(e) /\ e.o.s \in DOMAIN sys.ob /\ (e.x = "" \/ e.x \in DOMAIN sys.ob)

IsObjOp(op) == op \in {"iview", "nth", "count", "list", "len", "dur", "work", "overlap",
                       "portion", "cper"}

(* --- one event: <<failures, next state, clause for coverage, outcome>> -------- *)
Skipped == [f |-> {}, n |-> sys, c |-> "skipped", o |-> ""]
OutName(r) == IF r.k = "exc" THEN r.e ELSE "ok"

Step(e) ==
    CASE e.ev = "reset" -> [f |-> {}, n |-> Empty, c |-> "reset", o |-> ""]
      [] e.ev = "rp" -> [f |-> {}, n |-> NewRp(sys, e.id, e.labels), c |-> "rp", o |-> ""]
      [] e.ev = "rpnext" ->
           IF e.id \notin DOMAIN sys.rp THEN Skipped
           ELSE [f |-> Judge1("rp-next", RpOutcome(sys, e.id), e.r),
                 n |-> RpNext(sys, e.id), c |-> "rp-next", o |-> OutName(e.r)]
      [] e.ev = "build" ->
           LET twin == e.twin # "" /\ e.twin \in DOMAIN sys.bd
               skip == e.mode # "plain" /\ ~twin
               out  == TLCEval(BuildOutcome(sys, e))
               f    == JArgs(e) \cup
                       IF skip THEN {}
                       ELSE IF e.mode = "amend" THEN JAmend(e, sys.bd[e.twin])
                       ELSE IF e.mode = "rebuild" THEN JTwin(e, sys.bd[e.twin])
                       ELSE IF e.mode = "text" THEN JText(e, out)
                       ELSE JFrame(e) \cup JPart(e) \cup JLayout(e, out) \cup JDuty(e)
               enter == e.r.k = "board" /\ WellFormed(e.r)
           IN [f |-> f,
               n |-> IF enter
                     THEN BuildNext(sys, e.b, e.sid, e.name, e.r.on, Observed(e),
                                    IF e.mode = "plain" /\ IsOk(out) THEN out.rp
                                    ELSE [x \in DOMAIN sys.rp |-> sys.rp[x].pos])
                     ELSE sys,
               c |-> IF skip THEN "skipped" ELSE "build-" \o e.mode \o e.tag, o |-> OutName(e.r)]
      [] e.ev = "reject" ->        \* an unacceptable argument
           [f |-> IF e.r.k = "exc" /\ e.r.e = RejectErr(e.what) THEN {}
                  ELSE Fail("reject-" \o e.what, RejectErr(e.what)),
            n |-> sys, c |-> "reject-" \o e.what, o |-> OutName(e.r)]
      [] e.ev = "add" ->
           IF ~HasBoard(e) THEN Skipped
           ELSE LET out == AddOutcome(sys, e.b, e.name)
                    good == IsOk(out) /\ e.r.k = "sched"
                    want == OnSeq(sys.bd[e.b], e.on)
                IN [f |-> IF good
                          THEN (IF e.r.name = e.name THEN {} ELSE Fail("sched-add", e.name))
                               \cup Same("duty-added", want, e.r.on)
                          ELSE Judge1("sched-add",
                                      IF IsOk(out) THEN Ok([k |-> "sched"]) ELSE out, e.r),
                    n |-> IF good /\ Len(e.r.on) = Len(want)
                          THEN AddNext(sys, e.b, e.sid, e.name, e.r.on) ELSE sys,
                    c |-> "sched-add", o |-> OutName(e.r)]
      [] e.ev = "drop" ->
           IF ~HasBoard(e) \/ e.sid \notin DOMAIN sys.ob THEN Skipped
           ELSE LET out == DropOutcome(sys, e.b, e.sid)
                    v   == IF IsOk(out) THEN Ok([k |-> "none"]) ELSE out
                IN [f |-> Judge1("sched-drop", v, e.r),
                    n |-> IF IsOk(out) /\ e.r.k # "exc" THEN DropNext(sys, e.b, e.sid) ELSE sys,
                    c |-> "sched-drop", o |-> OutName(e.r)]
      [] e.ev = "q" ->
           IF ~HasObj(e) THEN Skipped
           ELSE LET c == IF IsObjOp(e.op) /\ e.o.iv = <<>> THEN "void-" \o e.op ELSE e.op
                IN [f |-> Judge1(c, QueryOutcome(sys, e), e.r),
                    n |-> sys, c |-> c, o |-> OutName(e.r)]
      [] e.ev = "iter" ->
           IF ~HasObj(e) THEN Skipped
           ELSE [f |-> {}, n |-> IterNext(sys, e), c |-> "iter", o |-> ""]
      [] e.ev = "next" ->
           IF e.id \notin DOMAIN sys.it THEN Skipped
           ELSE [f |-> Judge1("next", NextOutcome(sys, e.id), e.r),
                 n |-> AdvanceNext(sys, e.id), c |-> "next", o |-> OutName(e.r)]
      [] e.ev = "table" ->
           IF ~HasBoard(e) THEN Skipped
           ELSE [f |-> Judge1("table", TableOutcome(sys, e.b, e.lo, e.hi), e.r),
                 n |-> sys, c |-> "table", o |-> OutName(e.r)]
      [] e.ev = "snap" ->
           IF ~HasBoard(e) THEN Skipped
           ELSE [f |-> Judge1("snap", Ok(SnapView(sys, e.b)), e.r),
                 n |-> sys, c |-> "snap", o |-> OutName(e.r)]
      [] e.ev = "text" ->          \* text forms
           IF ~HasBoard(e) \/ e.o.s \notin DOMAIN sys.ob THEN Skipped
           ELSE [f |-> Judge1("text", TextOutcome(sys, e.b, e.o, e.dflt), e.r),
                 n |-> sys, c |-> "text", o |-> OutName(e.r)]
      [] e.ev = "cal" ->
           [f |-> JCal(e),
            n |-> IF e.r.k = "exc" THEN sys
                  ELSE [sys EXCEPT !.cl = Put(@, e.id, [d0 |-> e.r.d0, d1 |-> e.r.d1,
                                                        wk |-> CalWeek(e), ex |-> AsFn(e.r.ex)])],
            c |-> "cal-" \o e.c, o |-> OutName(e.r)]
      [] e.ev = "custom" ->
           IF e.twin \notin DOMAIN sys.cl THEN Skipped
           ELSE [f |-> JCustom(e, sys.cl[e.twin]), n |-> sys,
                 c |-> "custom-" \o e.c \o "-" \o e.mode, o |-> OutName(e.r)]
      [] e.ev = "help" ->
           [f |-> JHelp(e), n |-> sys, c |-> "help-" \o e.fn, o |-> OutName(e.r)]
      [] e.ev = "same" ->          \* two observations which have to be equal
           [f |-> IF e.r = e.want THEN {} ELSE Fail("same-" \o e.what, e.want),
            n |-> sys, c |-> "same-" \o e.what, o |-> "ok"]

Bump(f, k) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + 1] ELSE Put(f, k, 1)

Report(fails, n) == \A x \in fails : PrintT("BAD " \o ToJson([i |-> n, c |-> x.c, x |-> x.x]))

Init == i = 1 /\ sys = Empty /\ cov = Fn0
Next == /\ i <= Len(Trace)
        /\ LET st == TLCEval(Step(Trace[i])) IN
           /\ Report(st.f, i)
           /\ sys' = st.n
           /\ cov' = Bump(cov, st.c \o "/" \o st.o)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars

Finished == i <= Len(Trace) \/ PrintT("DONE " \o ToJson([n |-> Len(Trace), cov |-> cov]))
===============================================================================
