----------------------------- MODULE MC_Queries ------------------------------
(***************************************************************************)
(* All boards made of a few base units cut into workshifts in every way,   *)
(* with every assignment of duty.  Laws which calculations have to obey    *)
(* are invariants; for each board a session with all queries of a group    *)
(* with small arguments is printed to be executed on the real library.     *)
(***************************************************************************)
EXTENDS Scenario

GROUP == Env("GROUP", "P11")
MaxU  == IF Thorough THEN 5 ELSE IF GROUP = "P17" THEN 3 ELSE 4

VARIABLE c

(* a configuration: number of units, where they are cut, labels, reference   *)
Cutsets(u) == SUBSET (1 .. (u - 1))
Kinds == IF GROUP \in {"P17", "P13"} THEN {"D", "H"} ELSE {"D"}
Labels == IF GROUP = "P15" THEN {"n:0", "n:8", "s:A"} ELSE {"n:0", "n:1"}
Wts == IF GROUP = "P15" THEN {"duration", "labels"} ELSE {"duration"}
LabelSets(n) == IF GROUP \in {"P10", "P12", "P13", "P22"}
                THEN {[i \in 1 .. n |-> "n:1"]} ELSE [1 .. n -> Labels]
Starts(k) == IF k = "D" THEN {DayOf(2000, 1, 29), DayOf(2002, 12, 30)}
             ELSE {2 * DayOf(2001, 6, 30), 2 * DayOf(2001, 6, 30) + 1}
Refs == IF GROUP \in {"P11", "P14", "P15", "P16"} THEN {"start"} ELSE {"start", "end"}

Init == \E k \in Kinds, u \in 1 .. MaxU :
          \E cuts \in Cutsets(u), s \in Starts(k), ref \in Refs, w \in Wts :
             /\ k = "D" /\ GROUP \in {"P11", "P14", "P15", "P16"} => s = DayOf(2000, 1, 29)
             /\ \E l \in LabelSets(Cardinality(cuts) + 1) :
                  c = [k |-> k, u |-> u, cuts |-> cuts, s |-> s, ref |-> ref, l |-> l, w |-> w]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

(* --- the board ------------------------------------------------------------- *)
q == 1440
Unit == IF c.k = "D" THEN 1440 ELSE 720
F0 == IF c.k = "D" THEN DayF ELSE Freq("H", 12, 0)
From == c.s * Unit
CutSeq == SetToSortSeq(c.cuts, <)
Org == MarksOrg([i \in DOMAIN CutSeq |-> From + CutSeq[i] * Unit],
                [i \in DOMAIN c.l |-> Lab(c.l[i])])
EvBuild == Build("b1", "s1", q, F0, From, From + c.u * Unit - 1, Org, "n:0", NoAm, c.ref, c.w, Truthy)
EvAdd == AddSch("b1", "s2", "odd", <<"n:0">>)
Out == BuildOutcome(Empty, EvBuild)
Bd == Out.v
Num == ("n:0" :> <<0>>) @@ ("n:1" :> <<4>>) @@ ("n:8" :> <<32>>) @@ ("s:A" :> <<>>)
On1 == OnSeq(Bd, EvBuild.on)
On2 == OnSeq(Bd, EvAdd.on)
Ws == 1 .. Len(c.l)
Ivs == { <<i, j>> \in Ws \X Ws : i <= j }
Steps == -(Len(c.l) + 1) .. (Len(c.l) + 1)
Duty3 == {"on", "off", "any"}
Duty5 == Duty3 \cup {"same", "alt"}
Closeds == {"11", "10", "01", "00"}
Points == UNION { {Bd.S[i], Bd.E[i] - 1} : i \in Ws } \cup {From - 1, From + c.u * Unit}
          \cup {From - 2 * Unit, From + (c.u + 1) * Unit}
Days0 == { From + d * Unit : d \in -9 .. (c.u + 9) }
Freqs == IF c.k = "D" THEN {DayF, Freq("D", 2, 0), Freq("W", 1, 6), Freq("W", 1, 2),
                            Freq("M", 1, 0), Freq("Q", 1, 12), Freq("A", 1, 12)}
         ELSE {Freq("H", 1, 0), Freq("H", 12, 0), DayF, Freq("D", 2, 0), Freq("M", 1, 0)}
CFreqs == IF c.k = "D" THEN {DayF, Freq("W", 1, 6), Freq("M", 1, 0), Freq("A", 1, 12)}
          ELSE {Freq("H", 1, 0), DayF, Freq("M", 1, 0)}
Schs == {"s1", "s2"}
OnOf(s) == IF s = "s1" THEN On1 ELSE On2

(* --- laws -------------------------------------------------------------------- *)
Val(r) == r.v
BoardLaw ==                                    \* P02: the whole frame, no gaps
    /\ IsOk(Out) /\ Out.may = {}
    /\ Len(Bd.S) = Len(c.l) /\ Bd.L = c.l
    /\ Bd.S[1] = From /\ Bd.E[Len(c.l)] = From + c.u * Unit
    /\ \A i \in Ws : Bd.E[i] - Bd.S[i] = Bd.D[i] * Unit /\ Bd.D[i] > 0
    /\ \A i \in Ws : i > 1 => Bd.S[i] = Bd.E[i - 1]

LocateLaw == \A t \in Points :
    LET r == GetWs(Bd, t) IN
    IF t >= From /\ t < From + c.u * Unit
    THEN IsOk(r) /\ Bd.S[r.v] <= t /\ t < Bd.E[r.v]
    ELSE r = OOB

RollLaw == \A s \in Schs, p \in Ws, n \in Steps, d \in Duty5, fw \in BOOLEAN :
    LET on == OnOf(s)
        r  == Roll(Bd, on, p, n, d, fw)
        dd == Resolve(on, p, d)
        at == Match(on, dd, p)
    IN /\ (d = "any" /\ n = 0) => r = Ok(p)
       /\ IsOk(r) => Match(on, dd, r.v)
       /\ (IsOk(r) /\ at) =>                    \* there and back
            Roll(Bd, on, r.v, n, dd, ~fw) = Ok(p)
       /\ (IsOk(r) /\ at /\ n >= 0) =>          \* exactly n steps
            Len(Members(on, dd, IF fw THEN <<p, r.v>> ELSE <<r.v, p>>)) = n + 1
       /\ at => r = Roll(Bd, on, p, -n, dd, ~fw)
       /\ (~at /\ n >= 0 /\ IsOk(r)) => (IF fw THEN r.v > p ELSE r.v < p)

IvlLaw ==
    /\ \A i, j \in Ws, cl \in Closeds :
         LET r == IvlPoints(Bd, <<Bd.S[i]>>, <<Bd.E[j] - 1>>, cl)
             k == (j - i + 1) - (IF cl = "11" THEN 0 ELSE IF cl = "00" THEN 2 ELSE 1)
         IN IF k <= 0 THEN r = Void
            ELSE /\ IsOk(r) /\ r.v[2] - r.v[1] + 1 = k
                 /\ r = IvlLength(Bd, Bd.S[i], j - i + 1, cl)
                 /\ r = IvlLength(Bd, Bd.S[j], -(j - i + 1), cl)
    /\ \A t \in Points : IvlPoints(Bd, <<t>>, <<t>>, "11") =
         (IF IsOk(GetWs(Bd, t)) THEN Ok(<<GetWs(Bd, t).v, GetWs(Bd, t).v>>) ELSE OOB)
    /\ IvlPoints(Bd, <<>>, <<>>, "11") = Ok(<<1, Len(c.l)>>)

PeriodLaw == \A g \in Freqs :
    LET per(t, clip) == LET pe == PeriodOf(q, t, g) IN IvlPeriod(Bd, pe[1], pe[2], clip, "11")
    IN /\ g.n = 1 =>
            \A i \in Ws : LET r == per(RefTick(Bd, i), TRUE)
                          IN IsOk(r) /\ r.v[1] <= i /\ i <= r.v[2]
       /\ g.n = 1 => \A i, j \in Ws :            \* periods do not share workshifts
            LET r == per(RefTick(Bd, i), TRUE).v
                s == per(RefTick(Bd, j), TRUE).v
            IN r = s \/ r[2] < s[1] \/ s[2] < r[1]
       /\ \A t \in Days0 : IsOk(per(t, FALSE)) => per(t, TRUE) = per(t, FALSE)
       /\ \A t \in Days0 : per(t, FALSE) = Partial => IsOk(per(t, TRUE))

ListLaw == \A s \in Schs, iv \in Ivs :
    LET on == OnOf(s)
        n(d) == Val(Count(on, d, iv))
    IN /\ n("any") = iv[2] - iv[1] + 1 /\ n("on") + n("off") = n("any")
       /\ \A d \in Duty3 :
            LET m == Val(Listing(on, d, iv)) IN
            /\ Len(m) = n(d)
            /\ \A k \in 0 .. 6 :
                 /\ Nth(on, d, iv, k) = (IF k < n(d) THEN Ok(m[k + 1]) ELSE OOB)
                 /\ k > 0 => Nth(on, d, iv, -k) = (IF k <= n(d) THEN Ok(m[n(d) - k + 1]) ELSE OOB)

SumLaw == \A s \in Schs, iv \in Ivs :
    LET on == OnOf(s)
        du(d, v) == Val(Duration(Bd, on, d, v))
        wk(d, v) == Worktime(Bd, on, d, v, Num, 4)
    IN /\ du("on", iv) + du("off", iv) = du("any", iv)
       /\ du("any", iv) * Unit = Bd.E[iv[2]] - Bd.S[iv[1]]
       /\ \A d \in Duty3, k \in Ws : (iv[1] <= k /\ k < iv[2]) =>
            LET a == <<iv[1], k>>
                z == <<k + 1, iv[2]>>
            IN /\ du(d, iv) = du(d, a) + du(d, z)
               /\ IF IsOk(wk(d, a)) /\ IsOk(wk(d, z))
                  THEN wk(d, iv) = Ok(Val(wk(d, a)) + Val(wk(d, z)))
                  ELSE ~IsOk(wk(d, iv))

PairLaw == \A i, j \in Ivs \cup {<<>>} :
    LET o == OverlapV(i, j) IN
    /\ o = OverlapV(j, i) /\ OverlapV(o, i) = o /\ OverlapV(i, i) = i
    /\ (i # <<>> /\ j # <<>>) =>
         ToSet(MembersV(On1, "any", o)) = ToSet(MembersV(On1, "any", i)) \cap ToSet(MembersV(On1, "any", j))
    /\ \A d \in Duty3 :
         LET r == Val(Portion(On1, d, i, j)) IN
         /\ r[1] >= 0 /\ r[1] <= r[2]
         /\ r[1] * Len(MembersV(On1, d, j)) = r[2] * Len(MembersV(On1, d, o))

PeriodCountLaw == \A g \in CFreqs, d \in Duty3, iv \in Ivs :
    LET n(v) == CountPeriods(Bd, On1, v, g, d) IN
    /\ IsOk(n(iv)) => \A k \in Ws : (iv[1] <= k /\ k < iv[2]) =>
         LET a == n(<<iv[1], k>>)
             z == n(<<k + 1, iv[2]>>)
         IN IsOk(a) /\ IsOk(z) => Add(a.v, z.v) = n(iv).v
    /\ \A i \in Ws :                             \* a whole period counts for 1
         LET pe == PeriodOf(q, RefTick(Bd, i), g)
             r  == IvlPeriod(Bd, pe[1], pe[2], FALSE, "11")
         IN (IsOk(r) /\ r.v = iv /\ Members(On1, d, iv) # <<>> /\ IsOk(n(iv)))
              => n(iv).v = <<1, 1>>

TableLaw ==
    LET sys == BuildNext(Empty, "b1", "s1", "on_duty", On1, Bd, Fn0)
        T(i, j) == TableOutcome(sys, "b1", i, j)
    IN \A i, j \in 0 .. (Len(c.l) + 1) : i <= j =>
         IF i \in Ws /\ j \in Ws
         THEN /\ Len(T(i, j).v.rows) = j - i + 1
              /\ \A k \in i .. (j - 1) : T(i, j).v.rows = T(i, k).v.rows \o T(k + 1, j).v.rows
              /\ \A k \in i .. j : LET r == T(i, j).v.rows[k - i + 1]
                                       w == WsView(sys, "b1", "s1", k)
                                   IN r.s = w.s /\ r.e = w.e /\ r.l = w.l /\ r.d = w.d /\ r.r = w.r
                                      /\ r.duty["on_duty"] = w.on
         ELSE ~IsOk(T(i, j))

Laws == /\ BoardLaw
        /\ GROUP = "P22" => TableLaw
        /\ GROUP = "P10" => LocateLaw
        /\ GROUP = "P11" => RollLaw
        /\ GROUP = "P12" => IvlLaw
        /\ GROUP = "P13" => PeriodLaw
        /\ GROUP = "P14" => ListLaw
        /\ GROUP = "P15" => SumLaw
        /\ GROUP = "P16" => PairLaw
        /\ GROUP = "P17" => PeriodCountLaw

(* --- sessions ------------------------------------------------------------------ *)
W(op, p, x, a) == Q(op, "b1", "ws", <<p, p>>, "s1", x, a)
V(op, iv, s, x, a) == Q(op, "b1", "ivl", iv, s, x, a)
B(op, x, a) == Q(op, "b1", "ivl", <<>>, "s1", x, a)
Opt(t) == IF t = 0 - 2000000000 THEN <<>> ELSE <<t>>
Ends == Points \cup {0 - 2000000000}
Xs == {"", "s2"}
Voids == IF Len(c.l) < 2 THEN {} ELSE {<<1, 1, 2, Len(c.l)>>, <<2, 2, 1, 1>>}
OneDuty == [duty |-> "on"]

Queries0 ==
    CASE GROUP = "P10" ->
           { B("locate", x, [t |-> t]) : t \in Points, x \in Xs }
           \cup { B("call1", "", [t |-> t]) : t \in Points }
           \cup { B("wsat", "", [p |-> p]) : p \in 1 .. (Len(c.l) + 2) }
      [] GROUP = "P11" ->
           { W("roll", p, x, [n |-> n, duty |-> d, fwd |-> fw]) :
                p \in Ws, n \in Steps, d \in Duty5, fw \in BOOLEAN, x \in Xs }
           \cup { W("roll", p, "", [n |-> n, duty |-> "on", fwd |-> fw, how |-> "op"]) :
                p \in Ws, n \in Steps, fw \in BOOLEAN }
      [] GROUP = "P12" ->
           { B("ivlpts", "", [t0 |-> Opt(t), t1 |-> Opt(u), closed |-> cl]) :
                t \in Ends, u \in Ends, cl \in Closeds }
           \cup { B("ivllen", "", [t |-> t, n |-> n, closed |-> cl]) :
                t \in Points, n \in Steps, cl \in Closeds }
           \cup { B("ivlpos", "s2", [p0 |-> i, p1 |-> j]) :
                i \in 0 .. (Len(c.l) + 1), j \in 0 .. (Len(c.l) + 1) }
           \cup { B("bounds", x, [how |-> h]) : x \in Xs, h \in {"get", "call", "none"} }
      [] GROUP = "P13" ->
           { B("ivlper", "", [t |-> t, g |-> g, clip |-> cp, closed |-> cl]) :
                t \in Days0, g \in Freqs, cp \in BOOLEAN, cl \in Closeds }
      [] GROUP = "P14" ->
           { V("nth", iv, "s1", x, [n |-> n, duty |-> d]) :
                iv \in Ivs, n \in Steps, d \in Duty3, x \in Xs }
           \cup { V(op, iv, s, "", [duty |-> d]) :
                op \in {"count", "list"}, iv \in Ivs, s \in Schs, d \in Duty3 }
           \cup { V("len", iv, "s1", "", [z |-> 0]) : iv \in Ivs }
      [] GROUP = "P15" ->
           { V(op, iv, "s1", x, [duty |-> d]) :
                op \in {"dur", "work"}, iv \in Ivs, x \in Xs, d \in Duty3 }
           \cup { W("wswork", p, x, [duty |-> d]) : p \in Ws, x \in Xs, d \in Duty3 }
      [] GROUP = "P16" ->
           { V("overlap", iv, "s2", x, [jv |-> jv, j |-> [iv |-> jv, s |-> "s1", kind |-> "ivl"]]) :
                iv \in Ivs, jv \in Ivs, x \in Xs }
           \cup { V("portion", iv, "s1", x, [jv |-> jv, duty |-> d,
                                             j |-> [iv |-> jv, s |-> "s1", kind |-> "ivl"]]) :
                iv \in Ivs, jv \in Ivs, x \in Xs, d \in Duty3 }
           \cup { VoidQ("overlap", "b1", v, "s1", x, [jv |-> jv, j |-> [iv |-> jv, s |-> "s1", kind |-> "ivl"]]) :
                v \in Voids, jv \in Ivs, x \in Xs }
           \cup { VoidQ("portion", "b1", v, "s1", x, [jv |-> jv, duty |-> d,
                                             j |-> [iv |-> jv, s |-> "s1", kind |-> "ivl"]]) :
                v \in Voids, jv \in Ivs, x \in Xs, d \in Duty3 }
           \cup { V(op, iv, "s1", x, [jv |-> <<>>, duty |-> d,
                                      j |-> [iv |-> <<>>, s |-> "s1", kind |-> "ivl", via |-> v]]) :
                op \in {"overlap", "portion"}, iv \in Ivs, v \in Voids, x \in Xs, d \in Duty3 }
           \cup { VoidQ(op, "b1", v, "s1", "", [duty |-> d, n |-> 0]) :
                op \in {"nth", "count", "list", "dur", "work", "iview", "len"}, v \in Voids, d \in Duty3 }
      [] GROUP = "P17" ->
           { V("cper", iv, "s1", x, [g |-> g, duty |-> d]) :
                iv \in Ivs, x \in Xs, g \in CFreqs, d \in Duty3 }

Tables == { [ev |-> "table", b |-> "b1", lo |-> i, hi |-> j, how |-> h] :
              i \in 0 .. (Len(c.l) + 2), j \in 0 .. (Len(c.l) + 2), h \in {"part", "ivl"} }
TableHow == { t \in Tables : t.lo <= t.hi /\ (t.how = "part" \/ (t.lo \in Ws /\ t.hi \in Ws)) }
            \cup { [ev |-> "table", b |-> "b1", lo |-> 1, hi |-> Len(c.l), how |-> h] : h \in {"all", "from", "to"} }
            \cup { [ev |-> "table", b |-> "b1", lo |-> i, hi |-> Len(c.l), how |-> "from"] : i \in Ws }
            \cup { [ev |-> "table", b |-> "b1", lo |-> 1, hi |-> i, how |-> "to"] : i \in Ws }
Texts == { [ev |-> "text", b |-> "b1", o |-> [iv |-> v, s |-> x, kind |-> "ivl", via |-> <<>>]] :
             v \in Ivs, x \in {"s1", "s2"} }
Asked == IF GROUP = "P22" THEN Seqn(TableHow) \o Seqn(Texts) ELSE Seqn(Queries0)
Session == Emit(<<Reset, EvBuild, EvAdd>> \o Asked)
===============================================================================
