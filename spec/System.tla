------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* The library as a state machine.  The state of a session is              *)
(*   rp  remembering patterns: id -> [labels, pos], pos = labels handed out*)
(*   bd  timeboards: id -> board (see Queries)                             *)
(*   ob  schedule objects ever made: id -> [b, name, on]                   *)
(*   sc  registries: board id -> (name -> schedule id)                     *)
(*   it  running iterations: id -> [b, todo, sid]                          *)
(*   cl  full calendars made: id -> [d0, d1, wk, ex] (see Holidays)        *)
(* Transitions: making a remembering pattern, building a timeboard, adding *)
(* and dropping schedules, starting and advancing iterations, queries.     *)
(* A query never changes the state.  Each transition is given as a pair of *)
(* operators: its outcome and the state after it.                          *)
(***************************************************************************)
EXTENDS Layout, Queries

Fn0 == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Empty == [rp |-> Fn0, bd |-> Fn0, ob |-> Fn0, sc |-> Fn0, it |-> Fn0,
          cl |-> Fn0]

(* --- how workshifts and intervals look from outside ------------------------ *)
RefView(b, p) == IF b.ref = "end" THEN <<b.E[p], 1>> ELSE <<b.S[p], 0>>
WsView(sys, bid, sid, p) ==
    LET b == sys.bd[bid] IN
    [k |-> "ws", s |-> b.S[p], e |-> b.E[p], d |-> b.D[p], r |-> RefView(b, p),
     l |-> b.L[p], on |-> sys.ob[sid].on[p], sch |-> sys.ob[sid].name]
IvlView(sys, bid, sid, iv) ==
    LET b == sys.bd[bid] IN
    IF iv = <<>> THEN [k |-> "void", len |-> 0, sch |-> sys.ob[sid].name]
    ELSE [k |-> "ivl", s |-> b.S[iv[1]], e |-> b.E[iv[2]],
          len |-> iv[2] - iv[1] + 1, sch |-> sys.ob[sid].name]
IntView(n)   == [k |-> "int", v |-> n]
RatView(r)   == [k |-> "rat", v |-> r]
BoolView(x)  == [k |-> "bool", v |-> x]
WsList(sys, bid, sid, ps) == [k |-> "list", v |-> [ i \in DOMAIN ps |-> WsView(sys, bid, sid, ps[i]) ]]

Lift(r, f(_)) == IF IsOk(r) THEN Ok(f(r.v)) ELSE r

(* --- remembering patterns ---------------------------------------------------- *)
NewRp(sys, id, labels) == [sys EXCEPT !.rp = Put(@, id, [labels |-> labels, pos |-> 0])]
(* the user takes a label *)
RpOutcome(sys, id) ==
    LET p == sys.rp[id]
    IN IF p.labels = <<>> THEN Exc({"StopIteration"})
       ELSE Ok([k |-> "lab", v |-> p.labels[(p.pos % Len(p.labels)) + 1],
                len |-> Len(p.labels), truth |-> TRUE])
RpNext(sys, id) == [sys EXCEPT !.rp[id].pos = @ + 1]

(* --- building a timeboard ------------------------------------------------------
   e: [q, f, s, e, org, deflab, am |-> [k, v], ref, wts, on |-> on-duty labels]   *)
BuildFrame(e) == MkFrame(e.q, e.f, e.s, e.e)
BuildLayout(sys, e) ==
    Layout(BuildFrame(e), [x \in DOMAIN sys.rp |-> sys.rp[x].labels],
           [x \in DOMAIN sys.rp |-> sys.rp[x].pos], e.deflab, e.org)

BoardOf(fr, ws, e) ==
    LET n == Len(ws)
        nx(i) == IF i < n THEN ws[i + 1].u ELSE fr.n
        b0 == [q |-> e.q,
               S |-> [ i \in 1 .. n |-> UStart(fr, ws[i].u) ],
               E |-> [ i \in 1 .. n |-> UStart(fr, nx(i)) ],
               D |-> [ i \in 1 .. n |-> nx(i) - ws[i].u ],
               L |-> [ i \in 1 .. n |-> ws[i].l ],
               ref |-> e.ref, wts |-> e.wts]
    IN b0

(* [k |-> "ok", v |-> board, rp |-> positions, may |-> errors] or exc *)
BuildOutcome(sys, e) ==
    LET fr == BuildFrame(e)
        ly == BuildLayout(sys, e)
        b0 == BoardOf(fr, ly.ws, e)
    IN  IF fr.n = 0 THEN Void
        ELSE IF ly.must # {} THEN Exc(ly.must \cup ly.may)
        ELSE IF AmendErr(b0, e.am.k) THEN Exc({"KeyError"} \cup ly.may)
        ELSE [k |-> "ok", v |-> [b0 EXCEPT !.L = AmendLabels(b0, e.am.k, e.am.v)],
              rp |-> ly.rp, may |-> ly.may]

OnSeq(b, onset) == [ i \in 1 .. N(b) |-> \E j \in DOMAIN onset : onset[j] = b.L[i] ]

(* a board is entered into the state with the duty of its default schedule *)
BuildNext(sys, bid, sid, name, on, b, rp1) ==
    [sys EXCEPT !.bd = Put(@, bid, b),
                !.ob = Put(@, sid, [b |-> bid, name |-> name, on |-> on]),
                !.sc = Put(@, bid, name :> sid),
                !.rp = [x \in DOMAIN @ |-> [labels |-> @[x].labels, pos |-> rp1[x]]]]

(* --- schedules -------------------------------------------------------------------- *)
AddOutcome(sys, bid, name) ==
    IF name \in DOMAIN sys.sc[bid] THEN Exc({"KeyError"}) ELSE Ok(name)
AddNext(sys, bid, sid, name, on) ==
    [sys EXCEPT !.ob = Put(@, sid, [b |-> bid, name |-> name, on |-> on]),
                !.sc[bid] = Put(@, name, sid)]
(* a schedule is dropped by its name *)
DropOutcome(sys, bid, sid) ==
    IF sys.ob[sid].name \in DOMAIN sys.sc[bid] THEN Ok(sys.ob[sid].name)
    ELSE Exc({"KeyError"})
DropNext(sys, bid, sid) == [sys EXCEPT !.sc[bid] = Del(@, sys.ob[sid].name)]

(* --- queries -------------------------------------------------------------------------
   e: [op, b, o |-> [iv, s], x, a]: the board, the object (workshift p as <<p, p>>,
   interval or <<>>) with its attached schedule, the schedule given in the call ("" if
   none), arguments.  The outcome has the view of the result.                           *)
Eff(e) == IF e.x # "" THEN e.x ELSE e.o.s

PeriodOf(q, t, g) == LET o == Ord(q, g.b, g.a, t)
                     IN <<Start(q, g.b, g.a, o), Start(q, g.b, g.a, o + g.n)>>

QueryOutcome(sys, e) ==
    LET b   == sys.bd[e.b]
        a   == e.a
        op  == e.op
        sid == Eff(e)
        on  == sys.ob[sid].on
        ws(p)  == WsView(sys, e.b, sid, p)
        ivl(v) == IvlView(sys, e.b, sid, v)
    IN CASE op \in {"locate", "call1"} -> Lift(GetWs(b, a.t), ws)
         [] op = "view"  -> Ok(ws(e.o.iv[1]))
         [] op = "iview" -> Ok(ivl(e.o.iv))
         [] op = "roll"  -> Lift(Roll(b, on, e.o.iv[1], a.n, a.duty, a.fwd), ws)
         [] op = "duty"  -> Ok(BoolView(on[e.o.iv[1]] = a.on))
         \* a schedule as such: its name and the positions on and off duty in it
         [] op = "sched" ->
              LET s == sys.ob[e.o.s]
                  P(d) == SetToSortSeq({ p \in DOMAIN s.on : s.on[p] = d }, <)
              IN Ok([k |-> "sched", name |-> s.name, n |-> N(b), on |-> P(TRUE), off |-> P(FALSE)])
         [] op = "schws" -> Ok([k |-> "schws", l |-> b.L[e.o.iv[1]],
                                on |-> sys.ob[e.o.s].on[e.o.iv[1]]])
         \* the selector of the default schedule put to the label of a workshift
         [] op = "select" -> Ok(BoolView(sys.ob[e.dflt].on[e.o.iv[1]]))
         [] op = "wswork" ->
              Lift(Worktime(b, on, a.duty, e.o.iv, b.num, 4), IntView)
         [] op = "wsat"  -> IF a.p >= 1 /\ a.p <= N(b) THEN Ok(ws(a.p)) ELSE OOB
         [] op = "ivlpts" -> Lift(IvlPoints(b, a.t0, a.t1, a.closed), ivl)
         [] op = "ivllen" -> Lift(IvlLength(b, a.t, a.n, a.closed), ivl)
         [] op = "ivlper" ->
              LET pe == PeriodOf(b.q, a.t, a.g)
              IN Lift(IvlPeriod(b, pe[1], pe[2], a.clip, a.closed), ivl)
         [] op = "ivlpos" ->
              IF ~In(b, a.p0) \/ ~In(b, a.p1) THEN OOB
              ELSE IF a.p0 > a.p1 THEN Void ELSE Ok(ivl(<<a.p0, a.p1>>))
         [] op = "nth"   -> IF e.o.iv = <<>> THEN OOB
                            ELSE Lift(Nth(on, a.duty, e.o.iv, a.n), ws)
         [] op = "count" -> IF e.o.iv = <<>> THEN Ok(IntView(0))
                            ELSE Lift(Count(on, a.duty, e.o.iv), IntView)
         [] op = "list"  -> IF e.o.iv = <<>> THEN Ok(WsList(sys, e.b, sid, <<>>))
                            ELSE Lift(Listing(on, a.duty, e.o.iv),
                                      LAMBDA m : WsList(sys, e.b, sid, m))
         [] op = "len"   -> Ok(IntView(IF e.o.iv = <<>> THEN 0
                                       ELSE e.o.iv[2] - e.o.iv[1] + 1))
         [] op = "dur"   -> IF e.o.iv = <<>> THEN Ok(IntView(0))
                            ELSE Lift(Duration(b, on, a.duty, e.o.iv), IntView)
         [] op = "work"  -> IF e.o.iv = <<>> THEN Ok(IntView(0))
                            ELSE Lift(Worktime(b, on, a.duty, e.o.iv, b.num, 4), IntView)
         [] op = "overlap" -> Ok(ivl(OverlapV(e.o.iv, a.jv)))
         [] op = "portion" ->
              IF e.o.iv = <<>> THEN Ok(RatView(<<0, 1>>))
              ELSE LET p == Portion(on, a.duty, e.o.iv, a.jv)
                   IN Lift(p, RatView)
         [] op = "cper"  -> IF e.o.iv = <<>> THEN Ok(RatView(<<0, 1>>))
                            ELSE Lift(CountPeriods(b, on, e.o.iv, a.g, a.duty), RatView)
         [] op = "bounds" -> Ok([k |-> "ivl", s |-> T0(b), e |-> T1(b), len |-> N(b),
                                 sch |-> sys.ob[sid].name])

(* --- iterations ------------------------------------------------------------------------ *)
IterNext(sys, e) ==
    LET m == Members(sys.ob[Eff(e)].on, e.a.duty, e.o.iv)
    IN [sys EXCEPT !.it = Put(@, e.a.id, [b |-> e.b, todo |-> m, s |-> Eff(e)])]
NextOutcome(sys, id) ==
    LET h == sys.it[id]
    IN IF h.todo = <<>> THEN Exc({"StopIteration"})
       ELSE Ok(WsView(sys, h.b, h.s, Head(h.todo)))
AdvanceNext(sys, id) ==
    [sys EXCEPT !.it[id].todo = IF @ = <<>> THEN <<>> ELSE Tail(@)]

(* --- tables: rows of the workshifts lo..hi with the duty under each schedule ------------ *)
TableView(sys, bid, lo, hi) ==
    LET b == sys.bd[bid]
        names == DOMAIN sys.sc[bid]
    IN [k |-> "df",
        rows |-> [ i \in 1 .. (hi - lo + 1) |->
                   LET p == lo + i - 1 IN
                   [n |-> p, s |-> b.S[p], e |-> b.E[p], d |-> b.D[p],
                    r |-> RefView(b, p), l |-> b.L[p],
                    duty |-> [ m \in names |-> sys.ob[sys.sc[bid][m]].on[p] ]]]]
TableOutcome(sys, bid, lo, hi) ==
    IF ~In(sys.bd[bid], lo) \/ ~In(sys.bd[bid], hi) THEN Exc({"AssertionError", "OutOfBoundsError", "IndexError", "ValueError"})
    ELSE Ok(TableView(sys, bid, lo, hi))

(* --- text forms of objects: position, schedule unless it is called as the default one,
   duration and the first base unit of workshifts; tables below are as above              *)
TextOutcome(sys, bid, o, dflt) ==
    LET b == sys.bd[bid]
        sch == IF sys.ob[o.s].name = sys.ob[dflt].name THEN <<>> ELSE <<sys.ob[o.s].name>>
        ok == TRUE
        at(p) == <<b.D[p], ok, b.S[p]>>
        i == o.iv[1]
        j == o.iv[2]
    IN IF o.iv = <<>> THEN Ok([k |-> "text", void |-> sch])
       ELSE Ok([k |-> "text", tables |-> <<ok, ok, ok, ok, ok>>,
                ws |-> [loc |-> i - 1, sch |-> sch, at |-> at(i)],
                ivl |-> [loc |-> <<i - 1, j - 1>>, sch |-> sch, from |-> at(i), to |-> at(j),
                         len |-> j - i + 1],
                tb |-> <<ok, b.S[1], b.E[Len(b.E)]>>])

(* --- unacceptable arguments: what is wrong -> the error ------------------------------------ *)
RejectErr(what) ==
    CASE what \in {"org-both",            \* organizer with marker and marks
                   "org-neither",         \* organizer with neither of them
                   "worktime-source",     \* neither 'duration' nor 'labels'
                   "closed",              \* not one of '00', '01', '10', '11'
                   "selector",            \* a selector which raises this error itself
                   "duty"}                \* an unknown duty
           -> "ValueError"
      [] what \in {"org-structure",       \* a structure which is not iterable
                   "layout",              \* a layout neither iterable nor an organizer
                   "amendments",          \* amendments which are not a dictionary
                   "length-period",       \* both length and period of an interval
                   "length",              \* a length which is not an integer
                   "interval-ref",        \* a reference neither a pair, a period nor none
                   "bounds",              \* interval positions which are not a sequence
                   "bound",               \* ... of integers or workshifts
                   "operand",             \* adding to workshifts what is not an integer
                   "location",            \* workshift position which is not an integer
                   "schedule"}            \* a schedule which is not a schedule
           -> "TypeError"
      [] what = "bounds-short" -> "IndexError"     \* less than two positions
      [] what \in {"count-period",        \* periods which cannot be counted
                   "base-freq",           \* base units which are not calendar periods
                   "marker-freq",         \* partitioning by what is not a calendar period
                   "grouping"}            \* periods not made up of whole base units
           -> "UnacceptablePeriodError"
      [] what \in {"location-out",        \* positions outside of the board
                   "location-negative"}
           -> "OutOfBoundsError"
      [] what = "zero-length" -> "VoidIntervalError"

(* --- the same board looked at again -------------------------------------------------------- *)
SnapView(sys, bid) ==
    LET b == sys.bd[bid] IN
    [k |-> "snap", S |-> b.S, E |-> b.E, D |-> b.D, L |-> b.L,
     on |-> [ m \in DOMAIN sys.sc[bid] |-> sys.ob[sys.sc[bid][m]].on ]]
==============================================================================
