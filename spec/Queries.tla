------------------------------ MODULE Queries -------------------------------
(***************************************************************************)
(* Calculations on a timeboard.  A board is a record                       *)
(*   q    ticks per day                                                    *)
(*   S, E the first tick and the tick after the last of each workshift     *)
(*   D    durations in base units,  L  labels                              *)
(*   ref  "start" | "end",  wts  "duration" | "labels"                     *)
(* Workshifts are numbered from 1 here (the library counts from 0).        *)
(* Position 0 means "before the board", N(b) + 1 "after the board".        *)
(* A duty view is a sequence of BOOLEAN, one per workshift (on duty).      *)
(* Outcomes: [k |-> "ok", v |-> value] | [k |-> "exc", es |-> {names}].    *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, FiniteSetsExt, SequencesExt, TLC

N(b)  == Len(b.S)
T0(b) == b.S[1]
T1(b) == b.E[N(b)]

Ok(v)   == [k |-> "ok", v |-> v]
Exc(es) == [k |-> "exc", es |-> es]
OOB     == Exc({"OutOfBoundsError"})
Partial == Exc({"PartialOutOfBoundsError"})
Void    == Exc({"VoidIntervalError"})
IsOk(r) == r.k = "ok"

(* the workshift in force at t *)
Locate(b, t) ==
    IF t < T0(b) THEN 0
    ELSE IF t >= T1(b) THEN N(b) + 1
    ELSE CHOOSE i \in 1 .. N(b) : b.S[i] <= t /\ t < b.E[i]

In(b, p) == p >= 1 /\ p <= N(b)
Where(b, p) == IF p < 1 THEN -1 ELSE IF p > N(b) THEN 1 ELSE 0

GetWs(b, t) == LET p == Locate(b, t) IN IF In(b, p) THEN Ok(p) ELSE OOB

(* reference time of workshift i belongs to [s, e) *)
RefIn(b, i, s, e) == IF b.ref = "end" THEN b.E[i] > s /\ b.E[i] <= e
                                      ELSE b.S[i] >= s /\ b.S[i] < e
(* a tick of the reference time *)
RefTick(b, i) == IF b.ref = "end" THEN b.E[i] - 1 ELSE b.S[i]

(* --- duty ----------------------------------------------------------------- *)
Match(on, duty, i) == CASE duty = "on" -> on[i] [] duty = "off" -> ~on[i]
                        [] duty = "any" -> TRUE
Between(on, duty, lo, hi) == SelectSeq([ i \in 1 .. (hi - lo + 1) |-> lo + i - 1 ],
                                       LAMBDA i : Match(on, duty, i))
Duties == {"on", "off", "any"}
BadDuty == Exc({"ValueError"})

(* --- moving from workshift to workshift ----------------------------------- *)
Resolve(on, loc, duty) ==
    CASE duty = "same" -> IF on[loc] THEN "on" ELSE "off"
      [] duty = "alt"  -> IF on[loc] THEN "off" ELSE "on"
      [] OTHER         -> duty

Roll(b, on, loc, steps, duty, forward) ==
    IF duty \notin Duties \cup {"same", "alt"} THEN BadDuty
    ELSE LET d   == Resolve(on, loc, duty)
             idx == Between(on, d, 1, N(b))
             ge  == { j \in DOMAIN idx : idx[j] >= loc }
             le  == { j \in DOMAIN idx : idx[j] <= loc }
             k   == IF forward THEN Min(ge) + steps ELSE Max(le) - steps
         IN IF (forward /\ ge = {}) \/ (~forward /\ le = {}) THEN OOB
            ELSE IF k \in DOMAIN idx THEN Ok(idx[k]) ELSE OOB

(* --- intervals -------------------------------------------------------------
   A value is <<lo, hi>>, lo <= hi.                                          *)
Head0(closed) == closed \in {"00", "01"}     \* the first workshift is left out
Tail0(closed) == closed \in {"00", "10"}
Strip(lo, hi, dropHead, dropTail) ==
    LET l == IF dropHead THEN lo + 1 ELSE lo
        h == IF dropTail THEN hi - 1 ELSE hi
    IN  IF l <= h THEN Ok(<<l, h>>) ELSE Void

FromPositions(b, p0, p1, closed) ==
    IF In(b, p0) /\ In(b, p1) THEN Strip(p0, p1, Head0(closed), Tail0(closed))
    ELSE IF Where(b, p0) > Where(b, p1) THEN Void
    ELSE IF Where(b, p0) = Where(b, p1) THEN OOB
    ELSE Partial

(* x, y: sequences of zero (an open end) or one tick *)
IvlPoints(b, x, y, closed) ==
    FromPositions(b, IF x = <<>> THEN 1 ELSE Locate(b, x[1]),
                     IF y = <<>> THEN N(b) ELSE Locate(b, y[1]), closed)

IvlLength(b, t, n, closed) ==
    IF n = 0 THEN Void
    ELSE LET p == Locate(b, t)
             o == IF n > 0 THEN p + n - 1 ELSE p + n + 1
         IN IF ~In(b, p) THEN OOB
            ELSE IF ~In(b, o) THEN Partial
            ELSE Strip(Min2(p, o), Max2(p, o), Head0(closed), Tail0(closed))

(* the workshifts whose reference time is within the calendar period [s, e)  *)
IvlPeriod(b, s, e, clip, closed) ==
    LET left  == s < T0(b)
        right == e > T1(b)
        out   == e <= T0(b) \/ s >= T1(b)
        mem   == { i \in 1 .. N(b) : RefIn(b, i, s, e) }
    IN  IF out THEN OOB
        ELSE IF mem = {} THEN (IF left \/ right THEN OOB ELSE Void)
        ELSE IF ~clip /\ (left \/ right) THEN Partial
        ELSE Strip(Min(mem), Max(mem), Head0(closed) /\ ~left,
                                       Tail0(closed) /\ ~right)

(* --- inside an interval --------------------------------------------------- *)
Members(on, duty, iv) == Between(on, duty, iv[1], iv[2])

Nth(on, duty, iv, n) ==
    IF duty \notin Duties THEN BadDuty
    ELSE LET m == Members(on, duty, iv)
             k == IF n >= 0 THEN n + 1 ELSE Len(m) + n + 1
         IN IF k \in DOMAIN m THEN Ok(m[k]) ELSE OOB

Count(on, duty, iv) == IF duty \notin Duties THEN BadDuty
                       ELSE Ok(Len(Members(on, duty, iv)))

Listing(on, duty, iv) == IF duty \notin Duties THEN BadDuty
                         ELSE Ok(Members(on, duty, iv))

SumOver(seq, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, seq)

Duration(b, on, duty, iv) ==
    IF duty \notin Duties THEN BadDuty
    ELSE Ok(SumOver(Members(on, duty, iv), LAMBDA i : b.D[i]))

(* num: label -> sequence of zero (not a number) or one scaled integer *)
Worktime(b, on, duty, iv, num, scale) ==
    IF duty \notin Duties THEN BadDuty
    ELSE IF b.wts = "duration"
    THEN Ok(scale * SumOver(Members(on, duty, iv), LAMBDA i : b.D[i]))
    ELSE LET m == Members(on, duty, iv)
         IN IF \E j \in DOMAIN m : num[b.L[m[j]]] = <<>> THEN Exc({"TypeError"})
            ELSE Ok(SumOver(m, LAMBDA i : num[b.L[i]][1]))

(* --- two intervals --------------------------------------------------------- *)
Overlap(iv, jv) == LET lo == Max2(iv[1], jv[1])
                       hi == Min2(iv[2], jv[2])
                   IN  IF lo <= hi THEN Ok(<<lo, hi>>) ELSE Ok(<<>>)

RECURSIVE Gcd(_, _)
Gcd(a, c) == IF c = 0 THEN a ELSE Gcd(c, a % c)
Norm(r) == IF r[1] = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(r[1], r[2]) IN <<r[1] \div g, r[2] \div g>>
Add(r, s) == Norm(<<r[1] * s[2] + s[1] * r[2], r[2] * s[2]>>)
Ratio(a, c) == IF a = 0 THEN <<0, 1>> ELSE Norm(<<a, c>>)

(* iv, jv may be <<>>, the void interval *)
MembersV(on, duty, iv) == IF iv = <<>> THEN <<>> ELSE Members(on, duty, iv)
OverlapV(iv, jv) == IF iv = <<>> \/ jv = <<>> THEN <<>> ELSE Overlap(iv, jv).v

Portion(on, duty, iv, jv) ==
    IF duty \notin Duties THEN BadDuty
    ELSE Ok(Ratio(Len(MembersV(on, duty, OverlapV(iv, jv))),
                  Len(MembersV(on, duty, jv))))

(* --- counting calendar periods ---------------------------------------------- *)
CountPeriods(b, on, iv, g, duty) ==
    LET q   == b.q
        p0  == Ord(q, g.b, g.a, b.S[iv[1]])
        p1  == Ord(q, g.b, g.a, b.E[iv[2]] - 1)
        m   == Members(on, duty, iv)
        Pof(i) == Ord(q, g.b, g.a, RefTick(b, i))
        Piv(p) == IvlPeriod(b, Start(q, g.b, g.a, p), Start(q, g.b, g.a, p + 1),
                            FALSE, "11")
        short == \E p \in p0 .. p1 : Piv(p) = Void
        ends  == { Pof(Head(m)), Pof(Last(m)) }
        errs  == UNION { IF IsOk(Piv(p)) THEN {} ELSE Piv(p).es : p \in ends }
        Share(p) == LET r == Piv(p)
                        w == IF IsOk(r) THEN Members(on, duty, r.v) ELSE <<>>
                        c == SelectSeq(m, LAMBDA i : Pof(i) = p)
                    IN Ratio(Len(c), Len(w))
    IN  IF duty \notin Duties THEN BadDuty
        ELSE IF m = <<>> THEN Ok(<<0, 1>>)
        ELSE IF short
             THEN Exc({"UnacceptablePeriodError"} \cup (errs \ {"VoidIntervalError"}))
        ELSE IF errs # {} THEN Exc(errs)
        ELSE Ok(FoldLeft(LAMBDA a, p : Add(a, Share(p)), <<0, 1>>,
                         SetToSortSeq({ Pof(m[j]) : j \in DOMAIN m }, <)))

(* --- amendments ---------------------------------------------------------------
   keys: ticks, vals: labels (parallel sequences)                              *)
AmendErr(b, keys) == \E i, j \in DOMAIN keys : i < j /\
                       In(b, Locate(b, keys[i])) /\
                       Locate(b, keys[i]) = Locate(b, keys[j])
AmendLabels(b, keys, vals) ==
    LET at == { <<Locate(b, keys[i]), i>> : i \in DOMAIN keys }
    IN [ n \in 1 .. N(b) |->
           IF \E a \in at : a[1] = n
           THEN vals[(CHOOSE a \in at : a[1] = n)[2]] ELSE b.L[n] ]
=============================================================================
