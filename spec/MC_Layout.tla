------------------------------ MODULE MC_Layout ------------------------------
(***************************************************************************)
(* How boards are made, in small scopes: frames of every kind of base      *)
(* units, markers, computed marks, explicit marks, nested organizers,      *)
(* remembering patterns and amendments.  Each state is a session of one or *)
(* more boards; laws of the specification are invariants and the session   *)
(* is printed to be executed on the real library.                          *)
(***************************************************************************)
EXTENDS Scenario

GROUP == Env("GROUP", "P01")

VARIABLE c                 \* [f, s, e, org, am, rps, ref]
q == 1440

Day(y, m, d) == DayOf(y, m, d) * q
Conf(f, s, e, org) == [f |-> f, s |-> s, e |-> e, org |-> org, am |-> NoAm, rps |-> <<>>,
                       ref |-> "start"]
L(n) == "n:" \o ToString(n)
Few(quick, deep) == IF Thorough THEN deep ELSE quick

(* --- P01: frames ------------------------------------------------------------- *)
Plain == MarksOrg(<<>>, <<Pat(<<"n:1", "n:2", "n:3">>)>>)
Bases == { Freq("D", 1, 0), Freq("H", 1, 0), Freq("T", 1, 0), Freq("M", 1, 0), Freq("H", 8, 0),
           Freq("M", 2, 0), Freq("D", 3, 0), Freq("T", 90, 0), Freq("W", 2, 2), Freq("Q", 2, 5),
           Freq("A", 2, 12), Freq("H", 36, 0) }
         \cup { Freq("W", 1, a) : a \in 0 .. 6 }
         \cup { Freq("Q", 1, a) : a \in Few({1, 2, 3, 8, 12}, 1 .. 12) }
         \cup { Freq("A", 1, a) : a \in Few({1, 2, 6, 12}, 1 .. 12) }
Around == Few({Day(2004, 2, 28)}, {Day(2004, 2, 28), Day(1999, 12, 30), Day(1970, 1, 1), Day(2100, 2, 27)})
Edges(f, t) == LET o == Ord(q, f.b, f.a, t)
               IN { Start(q, f.b, f.a, o + k) + d : k \in 0 .. (f.n + 1), d \in {-1, 0, 1} }
C01 == UNION { UNION { LET E == Edges(f, t)
                           s == Start(q, f.b, f.a, Ord(q, f.b, f.a, t))
                       IN { Conf(f, x, y, Plain) : x \in {s - 1, s, s + 1}, y \in E }
                     : t \in Around } : f \in Bases }
Law01 == LET fr == MkFrame(q, c.f, c.s, c.e)
             o(t) == Ord(q, c.f.b, c.f.a, t) IN
    /\ (fr.n = 0) <=> (o(c.e) < o(c.s))
    /\ fr.n > 0 => /\ FrameStart(fr) <= c.s /\ c.s < UStart(fr, 1)
                   /\ UStart(fr, fr.n - 1) <= c.e /\ c.e < FrameEndx(fr)
                   /\ \A i \in 0 .. (fr.n - 1) : o(UStart(fr, i)) = o(c.s) + i * c.f.n
                                                 /\ UnitAt(fr, UStart(fr, i)) = i
                                                 /\ UnitAt(fr, UStart(fr, i + 1) - 1) = i

(* --- P02, P03: calendar periods ----------------------------------------------- *)
Structs == { <<Pat(<<L(1), L(2), L(3)>>)>>, <<Pat(<<L(1), L(2)>>), Lab(L(5))>>,
             <<Lab(L(1)), Lab(L(2))>>, <<Lab(L(1)), Pat(<<L(2), L(3)>>), Pat(<<>>)>>, <<>>,
             <<Pat(<<L(1), L(2), L(3), L(4), L(5)>>), Pat(<<L(6), L(7), L(8)>>)>> }
Eaches(b) ==
    CASE b = "D" -> { Freq("D", 1, 0), Freq("D", 2, 0), Freq("W", 2, 6), Freq("M", 1, 0),
                      Freq("M", 2, 0), Freq("Q", 1, 12), Freq("Q", 1, 10), Freq("A", 1, 12),
                      Freq("A", 1, 1) } \cup { Freq("W", 1, a) : a \in Few({6, 2}, 0 .. 6) }
      [] b = "H" -> { Freq("H", 5, 0), Freq("D", 1, 0), Freq("D", 2, 0), Freq("W", 1, 6) }
      [] b = "M" -> { Freq("M", 3, 0), Freq("Q", 1, 12), Freq("Q", 1, 1), Freq("A", 1, 12),
                      Freq("A", 1, 5), Freq("A", 2, 12) }
      [] b = "W" -> { Freq("W", 1, 6), Freq("W", 2, 6), Freq("W", 3, 6) }
      [] b = "Q" -> { Freq("Q", 1, 12), Freq("A", 1, 12), Freq("A", 1, 3), Freq("A", 1, 1) }
Starts(b) == CASE b = "D" -> { Day(2003, 12, 20) + i * q : i \in Few({0, 4, 9, 11, 12, 16}, 0 .. 24) }
               [] b = "H" -> { Day(2004, 2, 28) + i * 60 : i \in Few({0, 7, 23, 40}, 0 .. 30) }
               [] b = "M" -> { Day(2003, m, 1) : m \in Few({1, 3, 12}, 1 .. 12) }
               [] b = "W" -> { Day(2003, 12, 1) + i * 7 * q : i \in 0 .. 5 }
               [] b = "Q" -> { Day(2003, m, 1) : m \in {1, 4, 7, 10} }
Sizes == Few({1, 2, 9, 40}, {1, 2, 3, 8, 15, 40, 75})
Base(b) == Freq(b, 1, CASE b = "W" -> 6 [] b = "Q" -> 12 [] OTHER -> 0)
LastDay(b, s, n) ==         \* a tick in the n-th unit
    LET o == Ord(q, b, Base(b).a, s) IN Start(q, b, Base(b).a, o + n - 1)
C03 == UNION { { Conf(Base(b), s, LastDay(b, s, n), EachOrg(g, st)) :
                 s \in Starts(b), n \in Sizes, g \in Eaches(b), st \in Structs }
             : b \in {"D", "H", "M", "W", "Q"} }
UnitLabels(b) == FoldLeft(LAMBDA a, i : a \o [ j \in 1 .. b.D[i] |-> b.L[i] ], <<>>, [ i \in 1 .. N(b) |-> i ])
(* cuts where the calendar period changes; a pattern as though applied from the
   beginning of the period                                                      *)
Law03(b) ==
    LET fr == MkFrame(q, c.f, c.s, c.e)
        g  == c.org.each
        o(t) == Ord(q, g.b, g.a, t)
        st == c.org.st.e
        lb == UnitLabels(b)
        whole == BuildOutcome(Empty, Build("b", "s", q, c.f, Start(q, g.b, g.a, o(FrameStart(fr))),
                                           c.e, c.org, "n:0", NoAm, "start", "duration", <<>>)).v
        wl == UnitLabels(whole)
    IN /\ (st # <<>> /\ \A i \in DOMAIN st : st[i].k = "lab" /\ g.n = 1) =>
            \A i \in 1 .. N(b) : i > 1 => o(b.S[i]) # o(b.S[i - 1]) /\ o(b.E[i] - 1) = o(b.S[i])
       /\ Len(lb) = fr.n
       /\ \A i \in DOMAIN lb : lb[i] = wl[i + (Len(wl) - Len(lb))]

(* --- P04: offsets -------------------------------------------------------------- *)
Off(m, d, t) == [mo |-> m, d |-> d, t |-> t]
Offs(b, g) ==
    CASE b = "D" /\ g = "W" -> { Off(0, d, 0) : d \in 0 .. 7 } \cup {Off(0, 1, 720), Off(0, 6, 1439)}
      [] b = "D" /\ g = "M" -> { Off(0, d, 0) : d \in {0, 1, 14, 27, 28, 29, 30, 31} } \cup {Off(0, 28, 1439)}
      [] b = "D" /\ g = "Q" -> { Off(m, d, 0) : m \in 0 .. 3, d \in {0, 29, 30} }
      [] b = "D" /\ g = "A" -> { Off(m, d, 0) : m \in {0, 1, 2, 11, 12}, d \in {0, 28, 30} }
      [] b = "H" /\ g = "D" -> { Off(0, 0, t) : t \in {0, 60, 419, 420, 1380, 1439, 1440} }
      [] b = "H" /\ g = "W" -> { Off(0, d, t) : d \in {0, 3, 6}, t \in {0, 90, 1439} }
Ats(b, g) == { <<x>> : x \in Offs(b, g) }
             \cup { <<p[1], p[2]>> : p \in { p \in Offs(b, g) \X Offs(b, g) : p[1] # p[2] } }
Structs4 == { <<Lab(L(1)), Lab(L(2))>>, <<Pat(<<L(1), L(2), L(3), L(4), L(5)>>), Pat(<<L(6), L(7), L(8)>>)>> }
C04 == UNION { { Conf(Base(p[1]), s, LastDay(p[1], s, n),
                      AtOrg(Freq(p[2], 1, IF p[2] = "W" THEN 6 ELSE IF p[2] \in {"Q", "A"} THEN 12 ELSE 0),
                            "start", at, st)) :
                 s \in Few({ Day(2004, 2, 26), Day(2003, 12, 30) },
                           { Day(2004, 2, 1) + i * q : i \in 0 .. 31 }),
                 n \in IF p[2] = "A" THEN {400} ELSE IF p[2] = "Q" THEN {100} ELSE {40},
                 at \in Ats(p[1], p[2]), st \in Structs4 }
             : p \in { <<"D", "W">>, <<"D", "M">>, <<"D", "Q">>, <<"D", "A">>, <<"H", "D">>, <<"H", "W">> } }
CutsOf(at) == LET fr == MkFrame(q, c.f, c.s, c.e)
              IN Partition(fr, 0, fr.n - 1, [c.org EXCEPT !.at = at]).cuts
Law04 ==
    LET fr == MkFrame(q, c.f, c.s, c.e)
        g  == c.org.each
        at == c.org.at
        o(t) == Ord(q, g.b, g.a, t)
        per == o(FrameStart(fr)) .. o(FrameEndx(fr) - 1)
        hits == { UnitAt(fr, t) : t \in
                  { x \in { AddOff(q, Start(q, g.b, g.a, p), at[i]) : p \in per, i \in DOMAIN at } :
                    InFrame(fr, x) } }
        outs == { UnitAt(fr, t) : t \in
                  { x \in UNION { { AddOff(q, Start(q, g.b, g.a, p), at[i]) : i \in
                      { j \in DOMAIN at : AddOff(q, Start(q, g.b, g.a, p), at[j]) >= Start(q, g.b, g.a, p + 1) } }
                      : p \in per } : InFrame(fr, x) } }
        cuts == CutsOf(at)
    IN /\ cuts \subseteq hits
       /\ \A u \in hits \ outs : u > 0 => u \in cuts
       /\ cuts = UNION { CutsOf(<<at[i]>>) : i \in DOMAIN at }

(* --- P05: weekdays of months, Easter ------------------------------------------------ *)
NthAt(m, w, d, sh) == [month |-> m, week |-> w, weekday |-> d, shift |-> sh]
Weeks == {1, 2, 3, 4, 5, -1, -2, -3, -4, -5}
LL == <<Lab(L(1)), Lab(L(2)), Lab(L(3))>>
C05 == { Conf(DayF, Day(y, 1, 1), Day(y + 1, 1, 31),
              AtOrg(Freq("A", 1, 12), "nth", <<NthAt(m, w, d, 0)>>, LL)) :
           y \in Few({2003}, {2003, 2004}), m \in 1 .. 12, w \in Weeks, d \in 1 .. 7 }
       \cup { Conf(DayF, Day(2003, 3, 5), Day(2003, 8, 20),
                   AtOrg(Freq("M", 1, 0), "nth", <<NthAt(1, w, d, sh)>>, LL)) :
                w \in Weeks, d \in Few({1, 4, 7}, 1 .. 7), sh \in Few({0, 4, -5}, -8 .. 8) }
       \cup { Conf(DayF, Day(2003, 2, 10), Day(2004, 2, 20),
                   AtOrg(Freq("Q", 1, 12), "nth", <<NthAt(m, w, d, 0), NthAt(2, 3, 3, 0)>>, LL)) :
                m \in 1 .. 3, w \in Weeks, d \in {1, 7} }
       \cup { Conf(DayF, Day(y, 1, 1), Day(y + 2, 3, 1),
                   AtOrg(Freq("A", 1, 12), k, <<Off(0, d, 0)>>, LL)) :
                y \in Few({2003, 2016}, { 1900 + 4 * i : i \in 0 .. 40 }), k \in {"west", "orth"},
                d \in Few({-60, -2, 0, 1, 49, 60}, {-100, -60, -46, -3, -2, -1, 0, 1, 39, 49, 50, 60, 200}) }
Law05 ==
    LET g == c.org.each
        at == c.org.at
        fr == MkFrame(q, c.f, c.s, c.e)
        marks(a, p) == PeriodMarks(fr, [c.org EXCEPT !.at = <<a>>], p)
        per == Ord(q, g.b, g.a, c.s) .. Ord(q, g.b, g.a, c.e)
    IN IF c.org.how = "nth"
       THEN \A p \in per, i \in DOMAIN at :
              LET ms == marks(at[i], p) IN
              /\ Cardinality(ms) <= 1
              /\ \A t \in ms :
                   LET d == t \div q - at[i].shift
                       mi == MonthIdx(d) IN
                   /\ Weekday(d) = at[i].weekday - 1
                   /\ IF at[i].week > 0 THEN (Civil(d).d - 1) \div 7 = at[i].week - 1
                      ELSE (MonthLen(mi) - Civil(d).d) \div 7 = -at[i].week - 1
              /\ at[i].shift = 0 => (at[i].week \in {5, -5} \/ Cardinality(ms) = 1)
       ELSE \A p \in per, i \in DOMAIN at :
              LET ms == marks(at[i], p) IN
              \A t \in ms : /\ Weekday(t \div q - at[i].d) = 6
                            /\ LET e == Civil(t \div q - at[i].d) IN
                               e.m * 100 + e.d \in 322 .. 508

(* --- P06: explicit marks ---------------------------------------------------------------- *)
Ends06(f) == LET fr == MkFrame(q, f, Day(2004, 2, 28), Day(2004, 2, 28)) IN
             { UStart(fr, i) + d : i \in -1 .. 4, d \in {0, -1} } \cup { UStart(fr, 1) + 30 }
C06 == UNION { { Conf(f, Day(2004, 2, 28), UStart(MkFrame(q, f, Day(2004, 2, 28), Day(2004, 2, 28)), 2),
                      MarksOrg(ps, st)) :
                 ps \in {<<>>} \cup { <<x>> : x \in Ends06(f) } \cup { <<p[1], p[2]>> : p \in Ends06(f) \X Ends06(f) }
                        \cup Few({}, { <<p[1], p[2], p[3]>> : p \in Ends06(f) \X Ends06(f) \X Ends06(f) }),
                 st \in { <<Lab(L(1)), Lab(L(2))>>, <<Pat(<<L(1), L(2)>>), Lab(L(3)), Pat(<<L(4), L(5)>>)>> } }
             : f \in { DayF, Freq("H", 6, 0), Freq("M", 1, 0) } }
Law06(b) ==
    LET fr == MkFrame(q, c.f, c.s, c.e)
        P  == { c.org.pts[i] : i \in DOMAIN c.org.pts }
    IN \A u \in 1 .. (fr.n - 1) :
         (u \in Partition(fr, 0, fr.n - 1, c.org).cuts)
           <=> (\E t \in P : t >= UStart(fr, u) /\ t < UStart(fr, u + 1))

(* --- P07: nested organizers, remembering patterns ------------------------------------------ *)
Inner == { MarksOrg(<<Day(2004, 3, 2)>>, <<Pat(<<L(1), L(2)>>), Lab(L(3))>>),
           MarksOrg(<<Day(2004, 3, 2), Day(2004, 3, 6)>>, <<RpEl("r1")>>),
           WithRp(MarksOrg(<<Day(2004, 3, 1), Day(2004, 3, 2)>>, <<>>), "r1"),
           EachOrg(Freq("W", 1, 6), <<Pat(<<L(1), L(2), L(3)>>), RpEl("r1")>>),
           EachOrg(Freq("W", 1, 2), <<Lab(L(1)), Lab(L(2))>>),
           WithRp(EachOrg(Freq("M", 1, 0), <<>>), "r1"),
           AtOrg(Freq("W", 1, 6), "start", <<Off(0, 3, 0)>>, <<RpEl("r1"), Pat(<<L(4), L(5)>>)>>),
           EachOrg(Freq("M", 1, 0), <<OrgEl(EachOrg(Freq("W", 1, 6), <<Pat(<<L(1), L(2)>>)>>)), RpEl("r1")>>) }
Outer(a, b) ==
    { MarksOrg(<<Day(2004, 3, 3)>>, <<OrgEl(a), OrgEl(b)>>),
      EachOrg(Freq("W", 1, 6), <<OrgEl(a), RpEl("r1"), OrgEl(b)>>),
      EachOrg(Freq("M", 1, 0), <<OrgEl(a), OrgEl(b)>>),
      AtOrg(Freq("W", 1, 6), "start", <<Off(0, 1, 0), Off(0, 4, 0)>>, <<OrgEl(a), Lab(L(9)), OrgEl(b)>>) }
RpLabels == { <<L(11), L(12), L(13)>>, <<L(11)>> }
C07 == UNION { { [Conf(DayF, s, s + (n - 1) * q, og) EXCEPT !.rps = <<r>>] :
                 og \in Outer(p[1], p[2]), r \in RpLabels,
                 s \in Few({Day(2004, 2, 27)}, { Day(2004, 2, 26) + i * q : i \in 0 .. 7 }),
                 n \in Few({6, 12}, 1 .. 12) }
             : p \in Inner \X Inner }
State07 == IF c.rps = <<>> THEN Empty ELSE NewRp(Empty, "r1", c.rps[1])
(* the nested organizers alone on their spans; every label taken is a label used  *)
Law07 ==
    LET fr == MkFrame(q, c.f, c.s, c.e)
        pt == Partition(fr, 0, fr.n - 1, c.org)
        cs == SetToSortSeq(pt.cuts, <)
        out == BuildOutcome(State07, Build("b", "s", q, c.f, c.s, c.e, c.org, "n:0", NoAm, "start",
                                           "duration", <<>>))
        heads == <<0>> \o cs
        tails == cs \o <<fr.n>>
        Part(st, k) ==          \* made as a timeboard of its own, one after another
            LET el == c.org.st.e[((k - 1) % Len(c.org.st.e)) + 1]
                s0 == UStart(fr, heads[k])
                e0 == UStart(fr, tails[k]) - 1
                bo == BuildOutcome(st.sys, Build("b", "s", q, c.f, s0, e0,
                        IF el.k = "org" THEN el.v ELSE MarksOrg(<<>>, <<el>>), "n:0", NoAm, "start",
                        "duration", <<>>))
            IN [sys |-> [st.sys EXCEPT !.rp = [x \in DOMAIN @ |-> [labels |-> @[x].labels, pos |-> bo.rp[x]]]],
                l |-> st.l \o bo.v.L, s |-> st.s \o bo.v.S]
        all == FoldLeftDomain(Part, [sys |-> State07, l |-> <<>>, s |-> <<>>], heads)
        plain == \A i \in DOMAIN c.org.st.e : c.org.st.e[i].k = "org"
    IN /\ IsOk(out)
       /\ plain => all.l = out.v.L /\ all.s = out.v.S
                   /\ \A x \in DOMAIN out.rp : out.rp[x] = all.sys.rp[x].pos

(* --- P08: amendments ------------------------------------------------------------------------ *)
AmPts == { Day(2004, 2, 28) + d : d \in {-1, 0, 720, 1439, 1440, 2880, 2881, 5759, 5760} }
C08 == { [Conf(DayF, Day(2004, 2, 28), Day(2004, 3, 2), og) EXCEPT !.am = am] :
           og \in { MarksOrg(<<Day(2004, 2, 29)>>, <<Lab(L(1)), Pat(<<L(2), L(3)>>)>>),
                    MarksOrg(<<>>, <<Pat(<<L(1), L(2)>>)>>),
                    MarksOrg(<<Day(2004, 3, 1)>>, <<Lab(L(1)), Lab(L(2))>>) },
           am \in { [k |-> Seqn(K), v |-> [i \in 1 .. Cardinality(K) |-> L(20 + i)]] :
                    K \in Few({ X \in SUBSET AmPts : Cardinality(X) \in {1, 2, 9} }, SUBSET AmPts) } }
Law08 ==
    LET ev(am) == Build("b", "s", q, c.f, c.s, c.e, c.org, "n:0", am, "start", "duration", <<>>)
        out == BuildOutcome(Empty, ev(c.am))
        b   == BuildOutcome(Empty, ev(NoAm)).v
        K   == ToSet(c.am.k)
        hit(i) == { t \in K : b.S[i] <= t /\ t < b.E[i] }
    IN IF \E i \in 1 .. N(b) : Cardinality(hit(i)) > 1 THEN out.k = "exc" /\ out.es = {"KeyError"}
       ELSE /\ IsOk(out) /\ out.v.S = b.S /\ out.v.E = b.E /\ out.v.D = b.D
            /\ \A i \in 1 .. N(b) : IF hit(i) = {} THEN out.v.L[i] = b.L[i]
                                    ELSE \E j \in DOMAIN c.am.k : c.am.k[j] \in hit(i) /\ out.v.L[i] = c.am.v[j]

(* --- P23: which periods are made of whole base units ------------------------------------------- *)
Single == { Freq(x, 1, 0) : x \in {"T", "H", "D", "M"} } \cup { Freq("W", 1, a) : a \in 0 .. 6 }
          \cup { Freq(x, 1, a) : x \in {"Q", "A"}, a \in Few({1, 3, 6, 11, 12}, 1 .. 12) }
Multi == { Freq("D", 2, 0), Freq("D", 3, 0), Freq("D", 6, 0), Freq("D", 7, 0), Freq("H", 2, 0),
           Freq("H", 12, 0), Freq("H", 24, 0), Freq("M", 2, 0), Freq("M", 3, 0), Freq("M", 12, 0),
           Freq("W", 2, 6), Freq("W", 4, 6), Freq("Q", 2, 12), Freq("Q", 4, 12), Freq("A", 2, 12),
           Freq("T", 60, 0), Freq("T", 30, 0) }
Long(f) == CASE f.b = "T" -> 300 [] f.b = "H" -> 200 [] f.b = "D" -> 60 [] f.b = "W" -> 60
             [] f.b = "M" -> 40 [] OTHER -> 14
C23 == UNION { LET u == Freq(f.b, 1, f.a)
                   s == Day(2003, 12, 30)
                   o == Ord(q, f.b, f.a, s)
               IN { Conf(f, Start(q, f.b, f.a, o), Start(q, f.b, f.a, o + Long(f)), EachOrg(g, <<Lab(L(1)), Lab(L(2))>>)) :
                    g \in IF f.n = 1 THEN Single \cup Multi ELSE Single \cup Multi }
             : f \in Single \cup Few({Freq("D", 2, 0), Freq("M", 3, 0), Freq("H", 12, 0), Freq("W", 2, 6)}, Multi) }
(* over a long time: a base unit belongs to two periods or none does *)
Law23 ==
    LET f == c.f
        g == c.org.each
        o == Ord(q, f.b, f.a, c.s)
        k == IF Rank(f.b) <= 3 THEN 400 ELSE 1000
        one(u) == Ord(q, g.b, g.a, Start(q, f.b, f.a, u)) = Ord(q, g.b, g.a, Start(q, f.b, f.a, u + 1) - 1)
    IN /\ (f.n = 1 /\ g.n = 1 /\ f.b # g.b) =>
         (Groupable(f, g) <=> \A u \in o .. (o + k) : one(u))
       /\ f.b = g.b => (Groupable(f, g) <=> (f.a = g.a /\ (g.n % f.n) = 0))

(* --- all ---------------------------------------------------------------------------------------- *)
C02 == { [x EXCEPT !.ref = "end"] : x \in { y \in C03 : y.org.st.e # <<>> /\ y.org.st.e[1].k = "lab" } }
Configs == CASE GROUP = "P01" -> C01 [] GROUP = "P02" -> C02 [] GROUP = "P03" -> C03
             [] GROUP = "P04" -> C04 [] GROUP = "P05" -> C05 [] GROUP = "P06" -> C06
             [] GROUP = "P07" -> C07 [] GROUP = "P08" -> C08 [] GROUP = "P23" -> C23

Init == c \in Configs
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

EvBuild(b) == Build(b, b \o "s", q, c.f, c.s, c.e, c.org, "n:0", c.am, c.ref, "duration", Truthy)
Out == BuildOutcome(State07, EvBuild("b1"))

(* any board: the whole frame without gaps, and amendments, errors as specified *)
LawAll(b) ==
    LET fr == MkFrame(q, c.f, c.s, c.e) IN
    /\ b.S[1] = FrameStart(fr) /\ b.E[N(b)] = FrameEndx(fr)
    /\ \A i \in 1 .. N(b) : b.D[i] > 0 /\ b.S[i] < b.E[i] /\ (i > 1 => b.S[i] = b.E[i - 1])
    /\ SumOver([i \in 1 .. N(b) |-> i], LAMBDA i : b.D[i]) = fr.n

Laws == LET out == TLCEval(Out) IN
        /\ IsOk(out) => LawAll(out.v)
        /\ GROUP = "P01" => Law01
        /\ (GROUP = "P03" /\ IsOk(out)) => Law03(out.v)
        /\ GROUP = "P04" => Law04
        /\ GROUP = "P05" => Law05
        /\ GROUP = "P06" => Law06(out.v)
        /\ GROUP = "P07" => Law07
        /\ GROUP = "P08" => Law08
        /\ GROUP = "P23" => Law23

(* two boards one after the other from the same remembering pattern *)
Session == Emit(<<Reset>>
                \o (IF GROUP = "P08"
                    THEN <<[EvBuild("b1") EXCEPT !.am = NoAm],
                           [EvBuild("b2") EXCEPT !.mode = "amend", !.twin = "b1"]>>
                    ELSE IF c.rps = <<>> THEN <<EvBuild("b1")>>
                    ELSE <<Rp("r1", c.rps[1]), EvBuild("b1"), EvBuild("b2")>>))
==============================================================================
