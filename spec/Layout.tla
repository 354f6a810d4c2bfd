------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How a timeboard is made: the frame of base units, the markup of the     *)
(* frame into spans (calendar periods, computed marks, explicit marks),    *)
(* the labelling of spans by a structure of labels, patterns, remembering  *)
(* patterns and nested organizers, and the amendments of single labels.    *)
(*                                                                         *)
(* A frame is [q, f, t, n]: ticks per day, base unit frequency, any tick   *)
(* within the first base unit (start of it) and the number of base units.  *)
(* Base units are numbered from 0.                                         *)
(*                                                                         *)
(* An organizer is a record                                                *)
(*   [k |-> "marks",  pts |-> ticks, st |-> structure]                     *)
(*   [k |-> "marker", each |-> freq, how |-> how, at |-> ..., st |-> ...]  *)
(* how: "none"  marks at the starts of the calendar periods `each`         *)
(*      "start" offsets [mo, d, t] (months, days, ticks) from the start    *)
(*      "west", "orth"  offsets from Easter                                *)
(*      "nth"   [month, week, weekday, shift]                              *)
(*      "pts"   the points a user-defined function returns                 *)
(* A structure is [rp |-> id of a remembering pattern or "", e |-> elems], *)
(* an element [k |-> "lab" | "pat" | "rp" | "org", v |-> ...].             *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, FiniteSetsExt, SequencesExt, TLC

(* --- frame --------------------------------------------------------------- *)
MkFrame(q, f, s, e) ==
    LET o0 == Ord(q, f.b, f.a, s)
        o1 == Ord(q, f.b, f.a, e)
    IN  [q |-> q, f |-> f, o0 |-> o0,
         n |-> IF o1 < o0 THEN 0 ELSE (o1 - o0) \div f.n + 1]

UStart(fr, i) == Start(fr.q, fr.f.b, fr.f.a, fr.o0 + i * fr.f.n)
FrameStart(fr) == UStart(fr, 0)
FrameEndx(fr)  == UStart(fr, fr.n)
InFrame(fr, t) == t >= FrameStart(fr) /\ t < FrameEndx(fr)
UnitAt(fr, t)  == (Ord(fr.q, fr.f.b, fr.f.a, t) - fr.o0) \div fr.f.n

(* --- which calendar periods a frame may be grouped by ---------------------
   Never accept a grouping in which a base unit could belong to two periods. *)
Groupable(f, g) ==
    IF Divides(f.b, f.a, g.b, g.a) /\ f.n = 1 /\ g.n = 1 THEN TRUE
    ELSE IF f.n = 1 /\ g.n = 1 THEN FALSE
    ELSE IF f.b = g.b /\ f.a = g.a THEN (g.n % f.n) = 0
    ELSE f.n = 1 /\ Divides(f.b, f.a, g.b, g.a)

(* --- marks ---------------------------------------------------------------- *)
AddOff(q, t, o) == (AddMonths(t \div q, o.mo) + o.d) * q + (t % q) + o.t

BaseFloor(fr, t) == FloorTo(fr.q, fr.f.b, fr.f.a, t)

(* the marks sought in the single period p of frequency g: a set of ticks    *)
PeriodMarks(fr, m, p) ==
    LET q == fr.q
        g == m.each
        s == Start(q, g.b, g.a, p)
        e == Start(q, g.b, g.a, p + 1)
        Yr == YearOf((e - 1) \div q)
    IN  CASE m.how = "start" ->
               { r \in { BaseFloor(fr, AddOff(q, s, m.at[i])) :
                         i \in { j \in DOMAIN m.at :
                                 AddOff(q, 1461 * q, m.at[j]) >= 1461 * q } } :
                 r < e }
          [] m.how \in {"west", "orth"} ->
               LET z == Easter(m.how, Yr) * q
               IN  IF z < s \/ z >= e THEN {}
                   ELSE UNION { LET o == m.at[i]
                                    r == BaseFloor(fr, AddOff(q, z, o))
                                    future == AddOff(q, 1461 * q, o) >= 1461 * q
                                IN IF (future /\ r < e) \/ (~future /\ r >= s)
                                   THEN {r} ELSE {} : i \in DOMAIN m.at }
          [] m.how = "nth" ->
               UNION { LET a  == m.at[i]
                           mi == MonthIdx(s \div q) + a.month - 1
                       IN IF MonthStart(mi) * q >= e THEN {}
                          ELSE { (d + a.shift) * q :
                                 d \in { x \in NthWeekday(mi, a.weekday, a.week) :
                                         (x + a.shift) * q >= s /\
                                         (x + a.shift) * q < e } }
                     : i \in DOMAIN m.at }

LastOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* lower bound of the lengths of the period of this frequency, in ticks:
   a mark is certain to be looked for in the period preceding the one which
   contains the start of the span if the start is not further from the
   beginning of its period than that                                        *)
SureDist(q, g) == CASE g.b = "A" -> 365 * q [] g.b = "Q" -> 92 * q
                    [] g.b = "M" -> 31 * q  [] g.b = "W" -> 7 * q
                    [] OTHER -> SubDayTicks(q, g.b)

(* --- partitioning a span [first, last] of base units ----------------------
   The result: cuts - the set of units (first excluded) where sub-spans start;
   skip - how many base units of the first sub-span's period are missing at
   the left; sure - FALSE if that number may be reported as unknown;
   err - the frame cannot be grouped by such periods.                       *)
Cuts(fr, first, last, marks) ==
    { u \in { UnitAt(fr, t) : t \in { x \in marks : InFrame(fr, x) } } :
      u > first /\ u <= last }

Partition(fr, first, last, og) ==
    LET q  == fr.q
        s  == UStart(fr, first)
        ex == UStart(fr, last + 1)
        OrdF(t) == Ord(q, fr.f.b, fr.f.a, t)
    IN
    IF og.k = "marks"
    THEN [cuts |-> Cuts(fr, first, last, {og.pts[i] : i \in DOMAIN og.pts}),
          skip |-> 0, sure |-> TRUE, err |-> FALSE]
    ELSE IF ~Groupable(fr.f, og.each)
    THEN [cuts |-> {}, skip |-> 0, sure |-> TRUE, err |-> TRUE]
    ELSE IF og.how = "none"
    THEN LET g  == og.each
             p0 == Ord(q, g.b, g.a, s)
             p1 == Ord(q, g.b, g.a, ex - 1)
             b0 == Start(q, g.b, g.a, p0)
         IN [cuts |-> Cuts(fr, first, last,
                           { Start(q, g.b, g.a, p0 + k * g.n) :
                             k \in 0 .. ((p1 - p0) \div g.n) }),
             skip |-> OrdF(s) - OrdF(b0), sure |-> TRUE, err |-> FALSE]
    ELSE IF og.how = "pts"
    THEN LET ms   == {og.at[i] : i \in DOMAIN og.at}
             prev == { x \in ms : x <= s }
         IN [cuts |-> Cuts(fr, first, last, ms),
             skip |-> IF prev = {} THEN 0 ELSE OrdF(s) - OrdF(LastOf(prev)),
             sure |-> prev # {}, err |-> FALSE]
    ELSE LET g   == og.each
             p0  == Ord(q, g.b, g.a, s)
             p1  == Ord(q, g.b, g.a, ex - 1)
             now == { x \in PeriodMarks(fr, og, p0) : x <= s }
             bef == PeriodMarks(fr, og, p0 - 1)
             old == UNION { PeriodMarks(fr, og, p0 - k) : k \in 2 .. 12 }
             prev == IF now # {} THEN now ELSE IF bef # {} THEN bef ELSE old
             ms  == UNION { PeriodMarks(fr, og, p) : p \in p0 .. p1 }
         IN [cuts |-> Cuts(fr, first, last, ms),
             skip |-> IF prev = {} THEN 0 ELSE OrdF(s) - OrdF(LastOf(prev)),
             sure |-> \/ now # {}
                      \/ bef # {} /\ s - SureDist(q, g) < Start(q, g.b, g.a, p0),
             err |-> FALSE]

(* --- organizing ------------------------------------------------------------
   acc = [ws, rp, must, may]: the workshifts made so far as a sequence of
   [u |-> first unit, l |-> label]; rp: position of each remembering pattern;
   must: errors one of which has to be raised; may: errors which are allowed. *)
SpanWs(n, first, f(_)) == [ k \in 1 .. n |-> [u |-> first + k - 1, l |-> f(k - 1)] ]

RECURSIVE Organize(_, _, _, _, _, _, _)
Organize(fr, rps, deflab, og, first, last, acc) ==
    LET pt    == Partition(fr, first, last, og)
        cuts  == SetToSortSeq(pt.cuts, <)
        heads == <<first>> \o cuts
        tails == Append([ i \in DOMAIN cuts |-> cuts[i] - 1 ], last)
        e     == og.st.e
        usesrp == og.st.rp # ""
        Step(a, i) ==
            LET f == heads[i]
                l == tails[i]
                n == l - f + 1
                skip == IF i = 1 THEN pt.skip ELSE 0
                sure == i # 1 \/ pt.sure
                el == IF usesrp
                      THEN [k |-> "lab",
                            v |-> rps[og.st.rp][(a.rp[og.st.rp] % Len(rps[og.st.rp])) + 1]]
                      ELSE e[((i - 1) % Len(e)) + 1]
                rp1 == IF usesrp THEN [a.rp EXCEPT ![og.st.rp] = @ + 1] ELSE a.rp
            IN  CASE el.k = "lab" ->
                       [a EXCEPT !.ws = Append(@, [u |-> f, l |-> el.v]), !.rp = rp1]
                  [] el.k = "pat" ->
                       [a EXCEPT
                          !.ws = @ \o SpanWs(n, f, LAMBDA j :
                                      IF el.v = <<>> THEN deflab
                                      ELSE el.v[((skip + j) % Len(el.v)) + 1]),
                          !.may = IF sure THEN @ ELSE @ \cup {"OutOfBoundsError"},
                          !.rp = rp1]
                  [] el.k = "rp" ->
                       LET lab == rps[el.v]
                           c   == a.rp[el.v]
                       IN [a EXCEPT
                          !.ws = @ \o SpanWs(n, f, LAMBDA j :
                                      IF lab = <<>> THEN deflab
                                      ELSE lab[((c + skip + j) % Len(lab)) + 1]),
                          !.may = IF sure THEN @ ELSE @ \cup {"OutOfBoundsError"},
                          !.rp = [rp1 EXCEPT ![el.v] = @ + skip + n]]
                  [] el.k = "org" ->
                       Organize(fr, rps, deflab, el.v, f, l, [a EXCEPT !.rp = rp1])
    IN  IF pt.err THEN [acc EXCEPT !.must = @ \cup {"UnacceptablePeriodError"}]
        ELSE IF ~usesrp /\ e = <<>>
        THEN [acc EXCEPT !.ws = @ \o SpanWs(last - first + 1, first, LAMBDA j : deflab)]
        ELSE FoldLeftDomain(Step, acc, heads)

(* the workshifts of a freshly organized board *)
Layout(fr, rps, rppos, deflab, og) ==
    Organize(fr, rps, deflab, og, 0, fr.n - 1,
             [ws |-> <<>>, rp |-> rppos, must |-> {}, may |-> {}])
=============================================================================
