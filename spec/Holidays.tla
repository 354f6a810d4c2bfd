------------------------------ MODULE Holidays ------------------------------
(***************************************************************************)
(* Preconfigured calendars: helpers which find dates, the rules of the     *)
(* US, UK and RU 8x5 calendars, and customization of a calendar.           *)
(* Amendments are functions from day numbers to labels.                    *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

NoDays == [d \in {} |-> ""]
All(days, l) == [d \in days |-> l]
Over(f, g) == f @@ g                        \* f prevails
Days(f, keep(_)) == [d \in { x \in DOMAIN f : keep(x) } |-> f[d]]

(* --- n-th weekdays: dates is a sequence of [m, w, n, sh] --------------------
   The tuples are dealt with in their order, the first bad one is reported.   *)
NthGood(t) == t.m \in 1 .. 12 /\ t.w \in 1 .. 7 /\ t.n \in ((1 .. 5) \cup (-5 .. -1))
NthOf(y, t) == NthWeekday(y * 12 + t.m - 1, t.w, t.n)
NthErr(y, dates, errors) ==
    LET bad == { i \in DOMAIN dates : \/ ~NthGood(dates[i])
                                      \/ errors = "raise" /\ NthOf(y, dates[i]) = {} }
    IN IF bad = {} THEN ""
       ELSE IF NthGood(dates[Min(bad)]) THEN "OutOfBoundsError" ELSE "AssertionError"
NthDays(y, dates, label) ==
    All(UNION { { d + dates[i].sh : d \in NthOf(y, dates[i]) } : i \in DOMAIN dates }, label)

(* --- Easter: days at the given distances ------------------------------------ *)
EasterDays(kind, y, shifts, label) ==
    All({ Easter(kind, y) + shifts[i] : i \in DOMAIN shifts }, label)

(* --- days off instead of holidays on a weekend -------------------------------
   wend: the weekdays (Monday = 0) of the weekend in their order; label <<>>:
   take the one of the holiday.  Holidays are processed in the order of date.   *)
RECURSIVE Free(_, _, _, _)
Free(am, d, step, wend) ==       \* the first weekday not taken
    IF d \in DOMAIN am \/ \E i \in DOMAIN wend : wend[i] = Weekday(d)
    THEN Free(am, d + step, step, wend) ELSE d

Extend(am, how, label, wend) ==
    LET One(a, d) ==
            LET at == { i \in DOMAIN wend : wend[i] = Weekday(d) }
                i  == Min(at)
                back == how = "previous" \/ (how = "nearest" /\ i - 1 < Len(wend) \div 2)
                new == IF back THEN Free(a, d - i, -1, wend)
                       ELSE Free(a, d + (Len(wend) - i + 1), 1, wend)
            IN IF at = {} THEN a
               ELSE (new :> (IF label = <<>> THEN am[d] ELSE label[1])) @@ a
    IN FoldLeft(One, am, SetToSortSeq(DOMAIN am, <))

(* --- the three calendars ------------------------------------------------------ *)
Off == "n:0"
SatSun == <<5, 6>>
Weekly8x5 == <<"n:8", "n:8", "n:8", "n:8", "n:8", "n:0", "n:0">>
Mmdd(y, md) == DayOf(y, md \div 100, md % 100)
Nth(m, w, n, sh) == [m |-> m, w |-> w, n |-> n, sh |-> sh]

CalRange(c) == CASE c = "us" -> <<DayOf(2000, 1, 1), DayOf(2020, 12, 31)>>
                 [] c = "uk" -> <<DayOf(2000, 1, 1), DayOf(2020, 12, 31)>>
                 [] c = "ru" -> <<DayOf(2005, 1, 1), DayOf(2021, 12, 31)>>

(* US federal holidays, Black Friday; on a Saturday: observed on the day before, *)
(* on a Sunday: on the day after                                                  *)
UsFixed == [new_year |-> 101, independence |-> 704, veterans |-> 1111, christmas |-> 1225]
UsFloat == [mlk |-> Nth(1, 1, 3, 0), presidents |-> Nth(2, 1, 3, 0),
            memorial |-> Nth(5, 1, -1, 0), labor |-> Nth(9, 1, 1, 0),
            columbus |-> Nth(10, 1, 2, 0), thanksgiving |-> Nth(11, 4, 4, 0),
            black_friday |-> Nth(11, 4, 4, 1)]
UsDays(y0, y1, skip, long) ==
    LET ys    == y0 .. y1
        fixed == { Mmdd(y, UsFixed[h]) : y \in ys, h \in DOMAIN UsFixed \ skip }
        next  == IF "new_year" \in skip THEN {} ELSE { Mmdd(y1 + 1, 101) }
        a     == IF long THEN Extend(All(fixed \cup next, Off), "nearest", <<>>, SatSun)
                 ELSE All(fixed, Off)
        float == UNION { NthOf(y, UsFloat[h]) : y \in ys, h \in {"mlk", "presidents",
                     "memorial", "labor", "columbus", "thanksgiving"} \ skip }
        bf    == IF "black_friday" \in skip THEN {}
                 ELSE UNION { { d + 1 : d \in NthOf(y, UsFloat["thanksgiving"]) } : y \in ys }
        xmas  == IF "xmas_additional_day" \in skip THEN {}
                 ELSE { DayOf(2018, 12, 24), DayOf(2018, 12, 26) }
        one   == IF "one_off" \in skip THEN {} ELSE { DayOf(2018, 12, 5) }
    IN DOMAIN a \cup float \cup bf \cup xmas \cup one

(* UK bank holidays; on a weekend: observed on the next working day *)
UkFixed == [new_year |-> 101, new_year2 |-> 102, st_patricks |-> 317, orangemens |-> 712,
            st_andrews |-> 1130, christmas |-> 1225, boxing |-> 1226]
UkNot == [england |-> {"new_year2", "st_patricks", "orangemens", "st_andrews"},
          scotland |-> {"st_patricks", "orangemens", "easter_monday"},
          northern_ireland |-> {"new_year2", "st_andrews"}]
UkDays(y0, y1, country, unobserved, long) ==
    LET skip  == unobserved \cup UkNot[country]
        ys    == y0 .. y1
        has(h) == h \notin skip
        fixed == { Mmdd(y, UkFixed[h]) : y \in ys, h \in DOMAIN UkFixed \ skip }
        a     == IF long THEN DOMAIN Extend(All(fixed, Off), "next", <<>>, SatSun) ELSE fixed
        may   == IF has("early_may")
                 THEN UNION { NthOf(y, Nth(5, 1, 1, 0)) : y \in ys \ {2020} }
                      \cup { DayOf(2020, 5, 8) }
                 ELSE {}
        spring == IF has("spring")
                  THEN UNION { NthOf(y, Nth(5, 1, -1, 0)) : y \in ys \ {2002, 2012} } ELSE {}
        summer == IF has("summer")
                  THEN UNION { NthOf(y, Nth(8, 1, IF country = "scotland" THEN 1 ELSE -1, 0))
                               : y \in ys }
                  ELSE {}
        gf    == IF has("good_friday") THEN { EasterWestern(y) - 2 : y \in ys } ELSE {}
        em    == IF has("easter_monday") THEN { EasterWestern(y) + 1 : y \in ys } ELSE {}
        royal == IF has("royal") THEN { DayOf(2002, 6, 3), DayOf(2002, 6, 4), DayOf(2011, 4, 29),
                                        DayOf(2012, 6, 4), DayOf(2012, 6, 5) } ELSE {}
    IN a \cup may \cup spring \cup summer \cup gf \cup em \cup royal

(* RU: public holidays and the yearly decrees about days moved (off), working
   weekends (on) and shortened eves                                             *)
RuFixed == {101, 102, 103, 104, 105, 106, 107, 223, 308, 501, 509, 612, 1104}
RuTable == <<
    [y |-> 2005, off |-> {110, 307, 502, 510, 613},
     eve |-> {222, 305, 1103}, on |-> {514}],
    [y |-> 2006, off |-> {109, 224, 508, 1106},
     eve |-> {222, 307, 506, 1103}, on |-> {226}],
    [y |-> 2007, off |-> {108, 430, 611, 1105, 1231},
     eve |-> {222, 307, 428, 508, 609, 1229}, on |-> {}],
    [y |-> 2008, off |-> {108, 225, 310, 502, 613, 1103},
     eve |-> {222, 307, 430, 508, 611, 1101, 1231}, on |-> {504, 607}],
    [y |-> 2009, off |-> {108, 109, 309, 511},
     eve |-> {430, 508, 611, 1103, 1231}, on |-> {111}],
    [y |-> 2010, off |-> {108, 222, 503, 510, 614, 1105},
     eve |-> {227, 430, 611, 1103, 1231}, on |-> {1113}],
    [y |-> 2011, off |-> {110, 307, 502, 613},
     eve |-> {222, 305, 1103}, on |-> {}],
    [y |-> 2012, off |-> {109, 309, 430, 507, 508, 611, 1105, 1231},
     eve |-> {222, 307, 428, 512, 609, 1229}, on |-> {311, 505}],
    [y |-> 2013, off |-> {108, 502, 503, 510},
     eve |-> {222, 307, 430, 508, 611, 1231}, on |-> {}],
    [y |-> 2014, off |-> {108, 310, 502, 613, 1103},
     eve |-> {224, 307, 430, 508, 611, 1231}, on |-> {}],
    [y |-> 2015, off |-> {108, 109, 309, 504, 511},
     eve |-> {430, 508, 611, 1103, 1231}, on |-> {}],
    [y |-> 2016, off |-> {108, 222, 307, 502, 503, 613},
     eve |-> {220, 1103}, on |-> {}],
    [y |-> 2017, off |-> {224, 508, 1106},
     eve |-> {222, 307, 1103}, on |-> {}],
    [y |-> 2018, off |-> {108, 309, 430, 502, 611, 1105, 1231},
     eve |-> {222, 307, 428, 508, 609, 1229}, on |-> {}],
    [y |-> 2019, off |-> {108, 502, 503, 510},
     eve |-> {222, 307, 430, 508, 611, 1231}, on |-> {}],
    [y |-> 2020, off |-> {108, 224, 309, 504, 505, 511},
     eve |-> {430, 508, 611, 1103, 1231}, on |-> {}],
    [y |-> 2021, off |-> {108, 222, 503, 510, 614, 1105, 1231},
     eve |-> {220, 430, 611, 1103}, on |-> {}]
>>
RuDays(y0, y1, workdec31, shorteves) ==
    LET of(f(_)) == UNION { { Mmdd(RuTable[i].y, md) : md \in f(RuTable[i]) } : i \in DOMAIN RuTable }
        off == of(LAMBDA r : r.off)
        eve == of(LAMBDA r : r.eve)
        on  == of(LAMBDA r : r.on)
        pub == { Mmdd(y, md) : y \in y0 .. y1,
                               md \in RuFixed \cup (IF workdec31 THEN {} ELSE {1231}) }
    IN All(pub \cup off, Off) @@ All(eve, IF shorteves THEN "n:7" ELSE "n:8") @@ All(on, "n:8")

(* the amendments of a full calendar; o has its options *)
CalDays(c, o) ==
    LET r  == CalRange(c)
        y0 == YearOf(r[1])
        y1 == YearOf(r[2])
        skip == { o.skip[i] : i \in DOMAIN o.skip }
    IN CASE c = "us" -> All(UsDays(y0, y1, skip, o.long), Off)
         [] c = "uk" -> All(UkDays(y0, y1, o.country, skip, o.long), Off)
         [] c = "ru" -> RuDays(y0, y1, o.dec31, o.eves)

(* --- calendars by day --------------------------------------------------------- *)
(* the days of d0 .. d1 whose labels differ from those of the week wk *)
Exceptions(am, wk, d0, d1) ==
    Days(am, LAMBDA d : d >= d0 /\ d <= d1 /\ am[d] # wk[Weekday(d) + 1])

(* customization: full - the exceptions of the whole calendar with the same
   options; custom - function day -> label                                        *)
Custom(full, custom, wk, mode, d0, d1) ==
    CASE mode = "plain" -> Exceptions(custom @@ full, wk, d0, d1)
      [] mode = "only"  -> Exceptions(custom, wk, d0, d1)
      [] mode = "none"  -> NoDays

(* the labels (hours) of the days d0 .. d1 added up *)
RECURSIVE SumWeek(_, _, _, _)
SumWeek(hours, wk, d, d1) == IF d > d1 THEN 0
                             ELSE hours[wk[Weekday(d) + 1]] + SumWeek(hours, wk, d + 1, d1)
Hours(hours, ex, wk, d0, d1) ==
    LET n    == d1 - d0 + 1
        week == SumWeek(hours, wk, 0, 6)
        rest == SumWeek(hours, wk, d0 + (n \div 7) * 7, d1)
    IN (n \div 7) * week + rest +
       FoldFunctionOnSet(+, 0, [d \in DOMAIN ex |-> hours[ex[d]] - hours[wk[Weekday(d) + 1]]],
                         DOMAIN ex)
===============================================================================
