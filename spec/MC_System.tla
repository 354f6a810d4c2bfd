------------------------------ MODULE MC_System ------------------------------
(***************************************************************************)
(* Sessions as behaviours of System: two timeboards made from one layout   *)
(* object; schedules are added and dropped, iterations run, questions are  *)
(* asked (some of them fail) and asked again, in every order up to a given *)
(* length.  What exists never changes; every full-length session is        *)
(* printed, followed by a look at everything, to be executed for real.     *)
(***************************************************************************)
EXTENDS Scenario

GROUP == Env("GROUP", "P09")
DEPTH == CASE GROUP = "P09" -> 4
           [] GROUP = "P14" -> IF Thorough THEN 6 ELSE 5
           [] GROUP = "P21" -> 3

VARIABLES sys, hist, n

vars == <<sys, hist, n>>
q == 1440
D0 == DayOf(2004, 2, 27) * q
TheOrg == [k |-> "marks", pts |-> <<D0 + 2 * q, D0 + 3 * q>>, each |-> DayF, how |-> "none", at |-> <<>>,
           st |-> [rp |-> "", e |-> <<Pat(<<"n:0", "n:8">>), Lab("n:4")>>], oid |-> "o1"]
Made(b, sid, days, ref, name) ==
    [Build(b, sid, q, DayF, D0, D0 + days * q - 1, TheOrg, "n:0", NoAm, ref, "labels", Truthy)
     EXCEPT !.name = name]
B1 == Made("b1", "d1", 5, "start", "on_duty")
B2 == Made("b2", "d2", 4, "end", "main")
Boards == {"b1", "b2"}
Enter(s, e) == LET o == BuildOutcome(s, e).v
               IN BuildNext(s, e.b, e.sid, e.name, OnSeq(o, e.on),
                            o @@ ("num" :> ("n:0" :> <<0>>)), Fn0)

Ons == IF n % 2 = 0 THEN [x |-> <<"n:8">>, on_duty |-> <<"n:4">>, main |-> <<>>, y |-> <<>>] ELSE
       [x |-> <<"n:0", "n:4">>, on_duty |-> <<>>, main |-> <<"n:8">>, y |-> <<"n:0", "n:4", "n:8">>]
Names == IF GROUP = "P09" THEN {"on_duty", "main", "x"} ELSE {"x"}
Sids(b) == { s \in DOMAIN sys.ob : sys.ob[s].b = b }
All(b) == IF b = "b1" THEN <<1, 4>> ELSE <<1, 3>>

Fresh(e, s) == s \o ToString(n)

Act(e, next) == /\ sys' = next
                /\ hist' = Append(hist, e)
                /\ n' = n + 1

NewSch == \E b \in Boards, m \in Names :
         LET sid == Fresh(0, "s")
             on  == OnSeq(sys.bd[b], Ons[m])
             e   == AddSch(b, sid, m, Ons[m])
         IN Act(e, IF IsOk(AddOutcome(sys, b, m)) THEN AddNext(sys, b, sid, m, on) ELSE sys)
OldSch == \E b \in Boards : \E s \in Sids(b) \ {"d1", "d2"} :
         Act(DropSch(b, s), IF IsOk(DropOutcome(sys, b, s)) THEN DropNext(sys, b, s) ELSE sys)
Iter == \E b \in {"b1"}, d \in {"on", "any"} : \E s \in Sids(b) :
         LET e == [ev |-> "iter", b |-> b, o |-> [iv |-> All(b), s |-> "d1", kind |-> "ivl", via |-> <<>>],
                   x |-> IF s = "d1" THEN "" ELSE s,
                   a |-> [id |-> Fresh(0, "i"), how |-> "ws", duty |-> d]]
         IN Act(e, IterNext(sys, e))
Advance == \E i \in DOMAIN sys.it : Act([ev |-> "next", id |-> i], AdvanceNext(sys, i))

Asked(b) ==
    { Q("roll", b, "ws", <<2, 2>>, s, "", [n |-> 1, duty |-> d, fwd |-> f]) :
        s \in Sids(b), d \in {"on", "alt"}, f \in BOOLEAN }
    \cup { Q("count", b, "ivl", All(b), s, "", [duty |-> "on"]) : s \in Sids(b) }
    \cup { Q("work", b, "ivl", All(b), s, "", [duty |-> "on"]) : s \in Sids(b) }
    \cup { Q("nth", b, "ivl", All(b), s, "", [n |-> -1, duty |-> "off"]) : s \in Sids(b) }
    \cup { Q("locate", b, "ivl", <<>>, s, s, [t |-> D0 + t]) : s \in Sids(b), t \in {1, 99 * 1440} }
    \cup { Q("ivlper", b, "ivl", <<>>, s, s, [t |-> D0, g |-> Freq("W", 1, 6), clip |-> cp, closed |-> "11"]) :
             s \in Sids(b), cp \in BOOLEAN }
    \cup { Q("cper", b, "ivl", <<2, 2>>, s, "", [g |-> DayF, duty |-> "any"]) : s \in Sids(b) }
Some(S) == IF GROUP = "P21" THEN S ELSE { x \in S : x.op \in {"roll", "count"} /\ x.o.s \notin {"d1", "d2"} }
Ask == \E b \in Boards : \E e \in Some(Asked(b)) :
         Act([e EXCEPT !.ev = "q"] @@ [qid |-> Fresh(0, "q")], sys)
(* an answer given before, asked for again *)
Again == \E i \in DOMAIN hist : hist[i].ev = "q" /\ "qid" \in DOMAIN hist[i] /\
           Act([ev |-> "same", what |-> "repeat", ref |-> hist[i].qid, q |-> hist[i]], sys)

Init == /\ sys = Enter(Enter(Empty, B1), B2)
        /\ hist = <<>> /\ n = 1
Next == /\ n <= DEPTH
        /\ CASE GROUP = "P09" -> NewSch \/ OldSch \/ Ask
             [] GROUP = "P14" -> NewSch \/ OldSch \/ Iter \/ Advance
             [] GROUP = "P21" -> NewSch \/ Ask \/ Again \/ Iter \/ Advance
Spec == Init /\ [][Next]_vars

(* --- what holds in every session ------------------------------------------------ *)
Registries == \A b \in Boards :
    /\ \A m \in DOMAIN sys.sc[b] : LET s == sys.sc[b][m] IN
         s \in DOMAIN sys.ob /\ sys.ob[s].b = b /\ sys.ob[s].name = m
    /\ \A s \in DOMAIN sys.ob : sys.ob[s].b = b => Len(sys.ob[s].on) = N(sys.bd[b])
    /\ (IF b = "b1" THEN "on_duty" ELSE "main") \in DOMAIN sys.sc[b]
Iterations == \A i \in DOMAIN sys.it :
    \E d \in Duties : IsSuffix(sys.it[i].todo, Members(sys.ob[sys.it[i].s].on, d, <<1, 4>>))
Inv == Registries /\ Iterations
(* boards and schedules are never changed; answers under a schedule stay *)
Forever == [][ /\ sys'.bd = sys.bd
               /\ \A s \in DOMAIN sys.ob : s \in DOMAIN sys'.ob /\ sys'.ob[s] = sys.ob[s]
               /\ \A e \in UNION { Asked(b) : b \in Boards } :
                    e.op # "work" => QueryOutcome(sys', e) = QueryOutcome(sys, e) ]_vars
(* only adding and dropping changes a registry, of one board by one name *)
OneName == [][ sys'.sc # sys.sc =>
                 /\ hist'[Len(hist')].ev \in {"add", "drop"}
                 /\ \A b \in Boards : b # hist'[Len(hist')].b => sys'.sc[b] = sys.sc[b] ]_vars

Probes == [ i \in 1 .. 2 |-> [ev |-> "snap", b |-> "b" \o ToString(i)] ]
          \o (IF GROUP = "P14" THEN <<>> ELSE
              Seqn({ [ev |-> "q", op |-> "list", b |-> sys.ob[s].b, x |-> "", a |-> [duty |-> "on"],
                      o |-> [iv |-> All(sys.ob[s].b), s |-> s, kind |-> "ivl", via |-> <<>>]] : s \in DOMAIN sys.ob }))
          \o (IF GROUP = "P09" THEN
              Seqn({ [ev |-> "q", op |-> "duty", b |-> sys.ob[s].b, x |-> "", a |-> [on |-> TRUE],
                      o |-> [iv |-> <<p, p>>, s |-> s, kind |-> "ws", via |-> <<>>]] : s \in DOMAIN sys.ob, p \in {1, 3} })
              \o Seqn({ [ev |-> "q", op |-> "sched", b |-> sys.ob[s].b, x |-> "", a |-> [z |-> 0],
                      o |-> [iv |-> <<1, 1>>, s |-> s, kind |-> "ws", via |-> <<>>]] : s \in DOMAIN sys.ob })
              ELSE <<>>)
          \o (IF GROUP = "P14" THEN
              FoldSet(LAMBDA i, a : a \o [ k \in 1 .. (Len(sys.it[i].todo) + 1) |-> [ev |-> "next", id |-> i] ],
                      <<>>, DOMAIN sys.it) ELSE <<>>)
          \o (IF GROUP = "P21" THEN
              LET asked == SelectSeq(hist, LAMBDA e : e.ev = "q")
              IN [ i \in DOMAIN asked |-> [ev |-> "same", what |-> "repeat", ref |-> asked[i].qid, q |-> asked[i]] ]
              ELSE <<>>)
Session == n <= DEPTH \/ Emit(<<Reset, B1, B2>> \o hist \o Probes)
==============================================================================
