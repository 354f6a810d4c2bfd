----------------------------- MODULE MC_Calendar -----------------------------
(***************************************************************************)
(* The calendar arithmetic everything else stands on, for each year of the *)
(* range of timestamps (whole years of them, 1679 .. 2260).  Laws are stated day by day, in     *)
(* terms of counting and of other algorithms than those of Calendar; each  *)
(* year is also a session of boards around that year's ends, made of all   *)
(* kinds of base units, and of boards cut by weekdays of months and Easter.*)
(***************************************************************************)
EXTENDS Scenario

GROUP == Env("GROUP", "P01")
VARIABLE y
q == 1440
Year0 == 1679
Year9 == 2260
Few(quick, deep) == IF Thorough THEN deep ELSE quick

(* --- civil calendar, counted ----------------------------------------------------- *)
Leap(x) == (x % 4) = 0 /\ ((x % 100) # 0 \/ (x % 400) = 0)
Len12(x) == <<31, IF Leap(x) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
LawDays ==
    /\ DayOf(2000, 1, 1) = 0 /\ Weekday(0) = 5
    /\ DayOf(y, 12, 31) + 1 = DayOf(y + 1, 1, 1)
    /\ \A m \in 1 .. 12 :
         LET mi == y * 12 + m - 1 IN
         /\ MonthLen(mi) = Len12(y)[m]
         /\ MonthStart(mi) = DayOf(y, m, 1)
         /\ m < 12 => DayOf(y, m, Len12(y)[m]) + 1 = DayOf(y, m + 1, 1)
         /\ \A d \in 1 .. Len12(y)[m] :
              LET x == DayOf(y, m, d) IN
              /\ x = DayOf(y, m, 1) + d - 1
              /\ Civil(x) = [y |-> y, m |-> m, d |-> d]
              /\ MonthIdx(x) = mi
              /\ Weekday(x + 1) = ((Weekday(x) + 1) % 7)
              \* months later the same day of month, or the last one
              /\ d \in {1, 28, 29, 30, 31} => \A k \in {-13, -1, 0, 1, 2, 11, 12} :
                   LET z == Civil(AddMonths(x, k)) IN
                   /\ z.y * 12 + z.m - 1 = mi + k
                   /\ z.d = Min2(d, Len12(z.y)[z.m])

(* --- weekdays of months ------------------------------------------------------------ *)
LawNth ==
    \A m \in 1 .. 12 : \A w \in 1 .. 7 :
      LET mi == y * 12 + m - 1
          all == { d \in MonthStart(mi) .. (MonthStart(mi + 1) - 1) : Weekday(d) = w - 1 }
          k == Cardinality(all)
      IN \A n \in 1 .. 5 :
           /\ NthWeekday(mi, w, n) = { d \in all : Cardinality({ x \in all : x <= d }) = n }
           /\ NthWeekday(mi, w, -n) = { d \in all : Cardinality({ x \in all : x >= d }) = n }

(* --- Easter by the tables of epacts -------------------------------------------------- *)
Moon(n) == IF n < 21 THEN n + 30 ELSE n
Clavius(x) ==
    LET g == (x % 19) + 1
        cc == x \div 100 + 1
        s == (3 * cc) \div 4 - 12
        l == (8 * cc + 5) \div 25 - 5
        dd == (5 * x) \div 4 - s - 10
        e0 == (11 * g + 20 + l - s) % 30
        e == IF (e0 = 25 /\ g > 11) \/ e0 = 24 THEN e0 + 1 ELSE e0
        n == Moon(44 - e)
    IN DayOf(x, 3, 1) + n + 7 - ((dd + n) % 7) - 1
Julian(x) ==          \* computed in the old calendar, which is 10 to 13 days late
    LET g == (x % 19) + 1
        n == Moon(44 - (((11 * g - 4) % 30) + 1))
        m == n + 7 - (((5 * x) \div 4 + n) % 7)
        late == IF x < 1700 THEN 10 ELSE IF x < 1800 THEN 11 ELSE IF x < 1900 THEN 12
                ELSE IF x < 2100 THEN 13 ELSE IF x < 2200 THEN 14 ELSE 15
    IN DayOf(x, 3, 1) + m - 1 + late
LawEaster ==
    /\ Easter("west", y) = Clavius(y)
    /\ Easter("orth", y) = Julian(y)
    /\ Weekday(Easter("west", y)) = 6 /\ Weekday(Easter("orth", y)) = 6
    /\ Easter("west", y) \in DayOf(y, 3, 22) .. DayOf(y, 4, 25)

(* --- periods: Start is the inverse of Ord, periods follow each other ------------------- *)
Kinds == { <<b, 0>> : b \in {"T", "H", "D", "M"} } \cup { <<"W", a>> : a \in 0 .. 6 }
         \cup { <<b, a>> : b \in {"Q", "A"}, a \in 1 .. 12 }
Places == UNION { { DayOf(y, m, d) * q + t : t \in {0, 1, 719, 1439} } : m \in 1 .. 12, d \in {1, 2, 17, 28} }
LawPeriods ==
    \A k \in Kinds : \A t \in Places :
      LET b == k[1]  a == k[2]
          o == Ord(q, b, a, t)
          s == Start(q, b, a, o)
          e == Start(q, b, a, o + 1) IN
      /\ s <= t /\ t < e
      /\ Ord(q, b, a, s) = o /\ Ord(q, b, a, e - 1) = o /\ Ord(q, b, a, e) = o + 1
      /\ FloorTo(q, b, a, t) = s
      /\ b = "W" => (Weekday((e - 1) \div q) = a /\ e - s = 7 * q)
      /\ b \in {"Q", "A"} => LET z == Civil((e - 1) \div q) IN
             IF b = "A" THEN z.m = a ELSE (z.m % 3) = (a % 3)
      /\ b = "Q" => MonthIdx(e \div q) = MonthIdx(s \div q) + 3
      /\ b = "A" => MonthIdx(e \div q) = MonthIdx(s \div q) + 12
      \* the same periods in finer ticks
      /\ (y \in 1970 .. 2030 /\ b # "T") =>
             Ord(86400, b, a, t * 60) = o /\ Start(86400, b, a, o) = s * 60

Checked == Few((y % 10) = 0 \/ (y % 19) = 0, TRUE)
Laws == LawEaster /\ (Checked => LawDays /\ LawNth /\ LawPeriods)

(* --- sessions ------------------------------------------------------------------------- *)
L(n) == "n:" \o ToString(n)
Plain == MarksOrg(<<>>, <<Pat(<<L(1), L(2), L(3)>>)>>)
Bld(b, f, s, e, org) == Build(b, b \o "s", q, f, s, e, org, "n:0", NoAm, "start", "duration", Truthy)
NewYear == DayOf(y, 1, 1) * q
Bases == << <<DayF, NewYear + 57 * q, NewYear + 60 * q>>,
            <<Freq("W", 1, y % 7), NewYear - 9 * q, NewYear + 8 * q>>,
            <<Freq("W", 1, (y + 3) % 7), NewYear + 300 * q - 1, NewYear + 340 * q>>,
            <<Freq("M", 1, 0), NewYear - 1, NewYear + 200 * q>>,
            <<Freq("Q", 1, (y % 12) + 1), NewYear + 40 * q, NewYear + 370 * q>>,
            <<Freq("A", 1, (y % 12) + 1), NewYear - 1, NewYear + 365 * q>>,
            <<Freq("A", 1, 12), NewYear - 1, NewYear>>,
            <<Freq("H", 1, 0), NewYear + 58 * q + 1380, NewYear + 59 * q + 61>>,
            <<Freq("T", 1, 0), NewYear - 2, NewYear + 1>>,
            <<Freq("M", 1 + (y % 7), 0), NewYear - 1, NewYear + 500 * q>>,
            <<Freq("D", 2 + (y % 30), 0), NewYear - 1, NewYear + 200 * q>> >>
S01 == [ i \in DOMAIN Bases |-> Bld("b" \o ToString(i), Bases[i][1], Bases[i][2],
                                    Min2(Bases[i][3], DayOf(2262, 2, 1) * q), Plain) ]
NthAt(m, w, d) == [month |-> m, week |-> w, weekday |-> d, shift |-> 0]
Off(d) == [mo |-> 0, d |-> d, t |-> 0]
Two == <<Lab(L(1)), Lab(L(2))>>
Ann == Freq("A", 1, 12)
Yr(og) == <<NewYear, NewYear + 360 * q, og>>
S05 == LET B == << Yr(AtOrg(Ann, "west", <<Off(0), Off(49)>>, Two)),
                   Yr(AtOrg(Ann, "orth", <<Off(0), Off(-2)>>, Two)),
                   Yr(AtOrg(Ann, "nth", [ i \in 1 .. 12 |-> NthAt(i, (((y + i) % 5) + 1) * (IF i % 2 = 0 THEN 1 ELSE -1),
                                                                  ((y + i) % 7) + 1) ], Two)) >>
       IN [ i \in DOMAIN B |-> Bld("b" \o ToString(i), DayF, B[i][1], B[i][2], B[i][3]) ]
Run == CASE GROUP = "P01" -> Few((y % 2) = 0, TRUE)
         [] OTHER -> Few(y \in 1905 .. 2090 /\ (y % 3) = 0, TRUE)
Session == Run => Emit(<<Reset>> \o (IF GROUP = "P01" THEN S01 ELSE S05))

\* decades are explored side by side
Init == y \in { Year0 + 10 * i : i \in 0 .. 58 }
Next == /\ y < Year9 /\ ((y + 1 - Year0) % 10) # 0
        /\ y' = y + 1
Spec == Init /\ [][Next]_y
===============================================================================
