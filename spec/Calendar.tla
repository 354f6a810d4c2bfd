------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Civil calendar arithmetic: days, months, weekdays, Easter, and the      *)
(* calendar periods (seconds ... years, anchored weeks/quarters/years)     *)
(* out of which base units, marker periods and interval periods are made.  *)
(*                                                                         *)
(* Time is an integer number of ticks since Sat 2000-01-01 00:00; a day    *)
(* has q ticks (1440 or 86400).  A point in time is represented by the     *)
(* tick it falls into, periods are half-open tick ranges [start, endx).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* --- days <-> civil dates (proleptic Gregorian) ------------------------- *)
DayOf(y, m, d) ==
    LET y1  == IF m <= 2 THEN y - 1 ELSE y
        era == y1 \div 400
        yoe == y1 - era * 400
        mp  == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 730425

Civil(day) ==
    LET z   == day + 730425
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        d   == doy - (153 * mp + 2) \div 5 + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  [y |-> y, m |-> m, d |-> d]

YearOf(day)  == Civil(day).y
Weekday(day) == (day + 5) % 7          \* Monday = 0 ... Sunday = 6

(* months are counted from year 0: mi = 12 * year + month - 1 *)
MonthIdx(day)   == LET c == Civil(day) IN c.y * 12 + c.m - 1
MonthStart(mi)  == DayOf(mi \div 12, (mi % 12) + 1, 1)
MonthLen(mi)    == MonthStart(mi + 1) - MonthStart(mi)
AddMonths(day, n) ==                   \* day of month clipped to month length
    LET c  == Civil(day)
        mi == c.y * 12 + c.m - 1 + n
    IN  MonthStart(mi) + Min2(c.d, MonthLen(mi)) - 1

(* n-th (n > 0) or n-th last (n < 0) weekday w (Monday = 1) of month mi;    *)
(* a set: empty if the month has no such day                               *)
NthWeekday(mi, w, n) ==
    LET f == MonthStart(mi)
        l == MonthStart(mi + 1) - 1
        d == IF n > 0 THEN f + ((w - 1 - Weekday(f)) % 7) + 7 * (n - 1)
                      ELSE l - ((Weekday(l) - (w - 1)) % 7) + 7 * (n + 1)
    IN  IF d >= f /\ d <= l THEN {d} ELSE {}

(* --- Easter -------------------------------------------------------------- *)
EasterWestern(y) ==
    LET a == y % 19
        b == y \div 100
        c == y % 100
        d == b \div 4
        e == b % 4
        f == (b + 8) \div 25
        g == (b - f + 1) \div 3
        h == (19 * a + b - d - g + 15) % 30
        i == c \div 4
        k == c % 4
        l == (32 + 2 * e + 2 * i - h - k) % 7
        m == (a + 11 * h + 22 * l) \div 451
        x == h + l - 7 * m + 114
    IN  DayOf(y, x \div 31, (x % 31) + 1)

EasterOrthodox(y) ==                   \* Gregorian date
    LET a == y % 4
        b == y % 7
        c == y % 19
        d == (19 * c + 15) % 30
        e == (2 * a + 4 * b - d + 34) % 7
        x == d + e + 114
    IN  DayOf(y, x \div 31, (x % 31) + 1) + (y \div 100) - (y \div 400) - 2

Easter(kind, y) == IF kind = "west" THEN EasterWestern(y) ELSE EasterOrthodox(y)

(* --- calendar periods ------------------------------------------------------
   A period frequency is [n, b, a]: n is the multiplier, b the letter, a the
   anchor: the last weekday of weeks (Sunday = 6), the last month of quarters
   and years (December = 12); 0 otherwise.
   Ord numbers the single periods, Start is the first tick of a period.     *)
WeekOff(a) == (((a + 1) % 7) - 5) % 7

SubDayTicks(q, b) == CASE b = "S" -> q \div 86400
                       [] b = "T" -> q \div 1440
                       [] b = "H" -> q \div 24
                       [] OTHER   -> q

Ord(q, b, a, t) ==
    CASE b \in {"S", "T", "H", "D"} -> t \div SubDayTicks(q, b)
      [] b = "W" -> (t \div q - WeekOff(a)) \div 7
      [] b = "M" -> MonthIdx(t \div q)
      [] b = "Q" -> (MonthIdx(t \div q) - (a % 3)) \div 3
      [] b = "A" -> (MonthIdx(t \div q) - (a % 12)) \div 12

Start(q, b, a, o) ==
    CASE b \in {"S", "T", "H", "D"} -> o * SubDayTicks(q, b)
      [] b = "W" -> (o * 7 + WeekOff(a)) * q
      [] b = "M" -> MonthStart(o) * q
      [] b = "Q" -> MonthStart(o * 3 + (a % 3)) * q
      [] b = "A" -> MonthStart(o * 12 + (a % 12)) * q

(* floor of t to the start of the single period containing it *)
FloorTo(q, b, a, t) == Start(q, b, a, Ord(q, b, a, t))

(* rank of frequency letters by length *)
Rank(b) == CASE b = "S" -> 1 [] b = "T" -> 2 [] b = "H" -> 3 [] b = "D" -> 4
             [] b = "W" -> 5 [] b = "M" -> 6 [] b = "Q" -> 7 [] b = "A" -> 8

(* every period of frequency (hb,ha) is a whole number of (lb,la) periods   *)
Divides(lb, la, hb, ha) ==
    CASE lb = hb  -> la = ha
      [] hb = "A" -> IF lb = "Q" THEN (la % 3) = (ha % 3)
                     ELSE lb \in {"S", "T", "H", "D", "M"}
      [] hb = "Q" -> lb \in {"S", "T", "H", "D", "M"}
      [] hb = "M" -> lb \in {"S", "T", "H", "D"}
      [] hb = "W" -> lb \in {"S", "T", "H", "D"}
      [] OTHER    -> lb \in {"S", "T", "H", "D"} /\ Rank(lb) <= Rank(hb)
=============================================================================
