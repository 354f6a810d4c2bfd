----------------------------- MODULE MC_Holidays -----------------------------
(***************************************************************************)
(* Calendars: all options of the preconfigured ones (P18), helpers for     *)
(* small sets of days (P19), all customizations of small calendars (P20).  *)
(* Laws are invariants, among them figures which are known from other      *)
(* sources than the rules: official yearly norms of working hours, dates   *)
(* of Easter, numbers of holidays.                                         *)
(***************************************************************************)
EXTENDS Scenario

GROUP == Env("GROUP", "P18")
H == INSTANCE Holidays
VARIABLE c
Few(quick, deep) == IF Thorough THEN deep ELSE quick

(* --- P18 --------------------------------------------------------------------- *)
UsNames == {"new_year", "mlk", "presidents", "memorial", "independence", "labor", "columbus",
            "veterans", "thanksgiving", "black_friday", "christmas", "xmas_additional_day", "one_off"}
UkNames == {"new_year", "new_year2", "st_patricks", "good_friday", "easter_monday", "early_may",
            "spring", "summer", "orangemens", "st_andrews", "christmas", "boxing", "royal"}
Countries == {"england", "scotland", "northern_ireland"}
One(S) == {<<>>} \cup { <<x>> : x \in S }
Two(S) == { <<p[1], p[2]>> : p \in { p \in S \X S : p[1] # p[2] } }
Skips(S) == Few(One(S), One(S) \cup { Seqn(x) : x \in { x \in SUBSET S : Cardinality(x) = 2 } } \cup {Seqn(S)})
C18 == { [c |-> "us", o |-> [skip |-> s, long |-> l]] : s \in Skips(UsNames), l \in BOOLEAN }
       \cup { [c |-> "uk", o |-> [skip |-> s, long |-> l, country |-> k]] :
              s \in Skips(UkNames), l \in BOOLEAN, k \in Countries }
       \cup { [c |-> "ru", o |-> [dec31 |-> d, eves |-> e]] : d \in BOOLEAN, e \in BOOLEAN }
Num == ("n:0" :> 0) @@ ("n:7" :> 28) @@ ("n:8" :> 32)
Ex(x) == LET r == H!CalRange(x.c) IN H!Exceptions(H!CalDays(x.c, x.o), H!Weekly8x5, r[1], r[2])
InYear(ex, y) == { d \in DOMAIN ex : YearOf(d) = y }
Hrs(ex, y) == H!Hours(Num, [d \in InYear(ex, y) |-> ex[d]], H!Weekly8x5, DayOf(y, 1, 1), DayOf(y, 12, 31)) \div 4
(* official norms of working time, hours a year at 40 hours a week *)
RuNorm == <<1981, 1980, 1986, 1993, 1987, 1987, 1981, 1986, 1970, 1970, 1971, 1974, 1973, 1970,
            1970, 1979, 1972>>
Ru0 == c.c = "ru" /\ c.o.dec31 /\ c.o.eves
(* weekdays off in a year *)
UkCount(y) == IF y \in {2002, 2011, 2012} THEN 9 ELSE 8
Skipped == IF c.c = "ru" THEN {} ELSE { c.o.skip[i] : i \in DOMAIN c.o.skip }
Law18 ==
    LET ex == TLCEval(Ex(c)) IN
    /\ Ru0 => \A y \in 2005 .. 2021 : Hrs(ex, y) = RuNorm[y - 2004]
    /\ c.c = "ru" => \A d \in DOMAIN ex : ex[d] \in {"n:0", "n:7", "n:8"}
    /\ c.c # "ru" => \A d \in DOMAIN ex : ex[d] = "n:0" /\ Weekday(d) \in 0 .. 4
    \* every holiday of the year is a working day off, wherever it is
    /\ (c.c = "uk" /\ c.o.country = "england" /\ c.o.long /\ Skipped = {}) =>
         \A y \in 2000 .. 2020 : Cardinality(InYear(ex, y)) = UkCount(y)
    /\ (c.c = "uk" /\ c.o.country = "northern_ireland" /\ c.o.long /\ Skipped = {}) =>
         \A y \in 2000 .. 2020 : Cardinality(InYear(ex, y)) = UkCount(y) + 2
    /\ (c.c = "uk" /\ c.o.country = "scotland" /\ c.o.long /\ Skipped = {}) =>
         \A y \in 2000 .. 2020 : Cardinality(InYear(ex, y)) = UkCount(y) + 1
    \* eleven holidays in the US; three one-off days in December 2018; a New Year on
    \* Saturday is taken in the year before
    /\ (c.c = "us" /\ c.o.long /\ Skipped = {}) =>
         \A y \in 2000 .. 2020 : Cardinality(InYear(ex, y)) =
           11 + (IF y = 2018 THEN 3 ELSE 0)
              - (IF Weekday(DayOf(y, 1, 1)) = 5 THEN 1 ELSE 0)
              + (IF Weekday(DayOf(y + 1, 1, 1)) = 5 THEN 1 ELSE 0)
    \* not observing something brings working days back, its own only
    /\ (c.c # "ru" /\ ~c.o.long /\ Len(c.o.skip) = 1) =>
         LET full == Ex([c EXCEPT !.o.skip = <<>>]) IN
         /\ DOMAIN ex \subseteq DOMAIN full
         /\ c.o.skip[1] \notin {"royal", "one_off", "xmas_additional_day"} =>
              \A y \in 2000 .. 2020 : Cardinality(InYear(full, y) \ InYear(ex, y)) <= 1

CalEv(id, k, o) == [ev |-> "cal", id |-> id, c |-> k, o |-> o]
S18 == <<Reset, CalEv("c1", c.c, c.o)>>

(* --- P19 --------------------------------------------------------------------------- *)
W0 == DayOf(2004, 2, 23)                      \* a Monday
Wends == Few({<<5, 6>>, <<4, 5>>, <<5, 6, 0>>}, {<<5, 6>>, <<4, 5>>, <<5, 6, 0>>, <<6>>, <<4, 5, 6, 0>>, <<>>})
ExtEv(S, how, lab, we) ==
    [ev |-> "help", fn |-> "extend", am |-> Seqn({ <<d, IF d % 2 = 0 THEN "n:0" ELSE "s:x">> : d \in S }),
     how |-> how, lab |-> lab, wend |-> we]
Hows == {"previous", "next", "nearest"}
C19 == { [fn |-> "extend", S |-> S, wend |-> w] :
           S \in { S \in SUBSET { W0 + i : i \in 2 .. 10 } : Cardinality(S) <= Few(4, 9) }, w \in Wends }
       \cup { [fn |-> "nth", m |-> m, y |-> y] : m \in 1 .. 12, y \in Few({2003, 2004}, 2001 .. 2028) }
       \cup { [fn |-> "easter", y |-> y] : y \in Few({ 1990 + 3 * i : i \in 0 .. 20 }, 1700 .. 2199) }
Known == [west |-> ((2008 :> 323) @@ (2011 :> 424) @@ (2017 :> 416) @@ (2018 :> 401) @@ (2024 :> 331)
                    @@ (1961 :> 402) @@ (2038 :> 425) @@ (1818 :> 322) @@ (1943 :> 425)),
          orth |-> ((2008 :> 427) @@ (2011 :> 424) @@ (2017 :> 416) @@ (2018 :> 408) @@ (2024 :> 505)
                    @@ (2013 :> 505) @@ (2010 :> 404) @@ (1983 :> 508))]
Law19 ==
    CASE c.fn = "extend" ->
           \A how \in Hows :
             LET am == [ d \in c.S |-> "n:0" ]
                 r  == H!Extend(am, how, <<>>, c.wend)
                 we(d) == \E i \in DOMAIN c.wend : c.wend[i] = Weekday(d)
                 new == DOMAIN r \ c.S IN
             /\ c.S \subseteq DOMAIN r
             /\ Cardinality(new) = Cardinality({ d \in c.S : we(d) })
             \* the nearest in the direction: no free day is passed by
             /\ \A d \in new : ~we(d)
             /\ how = "next" => \A d \in new : \E h \in c.S : h < d /\ we(h)
                                   /\ \A x \in h .. d : x \in DOMAIN r \/ we(x)
             /\ how = "previous" => \A d \in new : \E h \in c.S : d < h /\ we(h)
                                   /\ \A x \in d .. h : x \in DOMAIN r \/ we(x)
             /\ how = "nearest" => \A d \in new : \E h \in c.S : we(h)
                                   /\ \A x \in Min2(d, h) .. Max2(d, h) : x \in DOMAIN r \/ we(x)
      [] c.fn = "nth" -> \A w \in 1 .. 7 :
             LET at(n) == NthWeekday(c.y * 12 + c.m - 1, w, n)
                 all == UNION { at(n) : n \in 1 .. 5 } IN
             /\ all = UNION { at(n) : n \in -5 .. -1 }
             /\ all = { d \in DayOf(c.y, c.m, 1) .. DayOf(c.y, c.m, MonthLen(c.y * 12 + c.m - 1)) :
                        Weekday(d) = w - 1 }
             /\ \A n \in 1 .. 5 : at(n) = at(n - 1 - Cardinality(all)) \/ Cardinality(all) < n
      [] c.fn = "easter" ->
             \A k \in {"west", "orth"} :
               LET e == Easter(k, c.y) IN
               /\ Weekday(e) = 6 /\ YearOf(e) = c.y
               /\ \A y \in DOMAIN Known[k] :
                    LET z == Civil(Easter(k, y)) IN z.m * 100 + z.d = Known[k][y]
               /\ Easter("orth", c.y) >= Easter("west", c.y)
S19 == <<Reset>> \o
    CASE c.fn = "extend" -> Seqn({ ExtEv(c.S, h, l, c.wend) : h \in Hows, l \in {<<>>, <<"n:8">>} })
      [] c.fn = "nth" ->
           Seqn({ [ev |-> "help", fn |-> "nth", year |-> c.y, errors |-> e, label |-> "n:0",
                   dates |-> <<[m |-> c.m, w |-> w, n |-> n, sh |-> sh]>>] :
                  w \in 1 .. 7, n \in {1, 2, 3, 4, 5, -1, -2, -3, -4, -5}, e \in {"ignore", "raise"}, sh \in {0} })
      [] c.fn = "easter" ->
           Seqn({ [ev |-> "help", fn |-> "easter", year |-> c.y, kind |-> k, label |-> "n:0", shifts |-> <<0, -2, 49>>] :
                  k \in {"west", "orth"} })

(* --- P20 ------------------------------------------------------------------------------- *)
K0 == DayOf(2004, 12, 28)
K1 == K0 + 8
OwnAm == << <<K0 - 1, "n:4">>, <<K0, "n:12">>, <<K0 + 3, "n:0">>, <<K0 + 4, "n:8">>, <<K1, "n:7">>, <<K1 + 1, "n:1">> >>
Bounds == {<<>>} \cup { <<d>> : d \in Few({K0 - 1, K0, K0 + 1, K0 + 3, K0 + 4, K1, K1 + 1}, (K0 - 2) .. (K1 + 2)) }
Own == Few({"over", "base"}, {"over", "base", "kw"})
Cas == { <<>>, << <<K0 + 3, "n:1">> >>, << <<K0, "n:8">>, <<K1, "n:0">>, <<K0 + 5, "n:4">> >>,
         << <<K0 - 1, "n:8">>, <<K0 + 4, "n:0">>, <<K1 + 3, "n:0">> >> }
C20 == [own : Own, mode : {"plain", "only", "none"}, ca : Cas]
Am(o) == IF o = "base" THEN <<>> ELSE OwnAm
Wk == <<"n:8", "n:8", "n:4", "n:8", "n:12", "n:0", "n:0">>
AsFn(pairs) == [ d \in { pairs[n][1] : n \in DOMAIN pairs } |->
                 pairs[CHOOSE n \in DOMAIN pairs : pairs[n][1] = d][2] ]
Law20 ==
    LET full == H!Exceptions(AsFn(Am(c.own)), Wk, K0, K1)
        lab(ex, d) == IF d \in DOMAIN ex THEN ex[d] ELSE Wk[Weekday(d) + 1]
    IN \A d0, d1 \in K0 .. K1 : d0 <= d1 =>
         LET ex == H!Custom(full, AsFn(c.ca), Wk, c.mode, d0, d1)
             wide == H!Custom(full, AsFn(c.ca), Wk, c.mode, K0, K1)
         IN \A d \in d0 .. d1 :
              /\ lab(ex, d) = lab(wide, d)         \* a restriction changes no day
              /\ d \notin DOMAIN AsFn(c.ca) =>
                   lab(ex, d) = IF c.mode = "plain" THEN lab(full, d) ELSE Wk[Weekday(d) + 1]
              /\ d \in DOMAIN AsFn(c.ca) =>
                   lab(ex, d) = IF c.mode = "none" THEN Wk[Weekday(d) + 1] ELSE AsFn(c.ca)[d]
S20 == LET base == [c |-> "own", own |-> c.own, wk |-> Wk, am |-> Am(c.own), d0 |-> K0, d1 |-> K1]
       IN <<Reset, [ev |-> "cal", id |-> "c1"] @@ base>>
          \o Seqn({ [ev |-> "custom", twin |-> "c1", mode |-> c.mode, cs |-> s, ce |-> e, ca |-> c.ca] @@ base :
                    s \in Bounds, e \in Bounds })

Init == c \in CASE GROUP = "P18" -> C18 [] GROUP = "P19" -> C19 [] GROUP = "P20" -> C20
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Laws == CASE GROUP = "P18" -> Law18 [] GROUP = "P19" -> Law19 [] GROUP = "P20" -> Law20
Session == Emit(CASE GROUP = "P18" -> S18 [] GROUP = "P19" -> S19 [] GROUP = "P20" -> S20)
==============================================================================
