----------------------------- MODULE Collector -----------------------------
(* collectItems: promises are handed in one by one; some calls complete a batch and are answered with the outcomes of that batch. *)
EXTENDS VUtil
CONSTANTS MaxItems
VARIABLES s, act
vars == <<s, act>>
(* cfg: total (0: none, finishing is asked for), restart, accum.  st[i]: the i-th promise is "p" pending, "ok", "err".  src[k]: which promise was handed in at call k *)
(* (the same one may be handed in again, and counts again).  first call of the open batch: base. *)
InitOf(cfg) == [cfg |-> cfg, st |-> <<>>, src |-> <<>>, base |-> 1, over |-> FALSE, waiting |-> <<>>, calls |-> 0, obs |-> <<>>]
Bad(w, x) == \E k \in Range(w.items) : x.st[x.src[k]] = "err"
Ans(w, x) == IF Bad(w, x) THEN [call |-> w.call, kind |-> "rej", items |-> <<>>] ELSE [call |-> w.call, kind |-> "done", items |-> w.items]
Ready(w, x) == Bad(w, x) \/ \A k \in Range(w.items) : x.st[x.src[k]] # "p"
Settled(x) ==
    LET rdy == SelectSeq(x.waiting, LAMBDA w : Ready(w, x))
    IN [x EXCEPT !.waiting = SelectSeq(@, LAMBDA w : ~Ready(w, x)), !.obs = @ \o [i \in 1..Len(rdy) |-> Ans(rdy[i], x)]]
(* one more call that accepts promise i (0: what it hands in is no promise, so nothing is accepted and no size is reached by it); fin: ask to finish (only without a size) *)
Give(x, i, fin) ==
    LET src == IF i = 0 THEN x.src ELSE Append(x.src, i)
        n   == Len(src)
        c   == x.calls + 1
        cnt == n - x.base + 1
        fire == ~x.over /\ (IF x.cfg.total = 0 THEN fin ELSE i # 0 /\ (IF x.cfg.accum THEN n ELSE cnt) % x.cfg.total = 0)
        items == [k \in 1..(IF x.cfg.accum THEN n ELSE cnt) |-> k + (IF x.cfg.accum THEN 0 ELSE x.base - 1)]
        y == [x EXCEPT !.src = src, !.calls = c, !.obs = <<>>]
    IN IF ~fire THEN [y EXCEPT !.obs = <<[call |-> c, kind |-> "no", items |-> <<>>]>>]
       ELSE Settled([y EXCEPT !.base = IF x.cfg.accum THEN @ ELSE n + 1, !.over = ~x.cfg.restart, !.waiting = Append(@, [call |-> c, items |-> items])])
(* a new promise whose state is m ("p", "ok", "err"), or the i-th one again *)
DoHand(x, m, fin) == Give([x EXCEPT !.st = Append(@, m)], Len(x.st) + 1, fin)
DoAgain(x, i, fin) == Give(x, i, fin)
DoOther(x, fin) == Give(x, 0, fin)
DoSettle(x, i, m) == Settled([x EXCEPT !.st[i] = m, !.obs = <<>>])
Act(a, i, m, fin) == [a |-> a, i |-> i, m |-> m, fin |-> fin]
Hand(m, fin) == /\ s.calls < MaxItems /\ (fin => s.cfg.total = 0)
                /\ s' = DoHand(s, m, fin) /\ act' = Act("hand", 0, m, fin)
Again(i, fin) == s.calls < MaxItems /\ (fin => s.cfg.total = 0) /\ s' = DoAgain(s, i, fin) /\ act' = Act("again", i, "", fin)
Other(fin) == s.calls < MaxItems /\ (fin => s.cfg.total = 0) /\ s' = DoOther(s, fin) /\ act' = Act("other", 0, "", fin)
Settle(i, m) == s.st[i] = "p" /\ s' = DoSettle(s, i, m) /\ act' = Act("settle", i, m, FALSE)
Cfgs == [total : 0..3, restart : BOOLEAN, accum : BOOLEAN]
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = Act("init", 0, "", FALSE)
Next == (\E m \in {"p", "ok", "err"}, f \in BOOLEAN : Hand(m, f)) \/ (\E i \in DOMAIN s.st, f \in BOOLEAN : Again(i, f)) \/ (\E f \in BOOLEAN : Other(f)) \/ (\E i \in DOMAIN s.st, m \in {"ok", "err"} : Settle(i, m))
Spec == Init /\ [][Next]_vars
View == [s EXCEPT !.obs = <<>>]
(* laws *)
DoneAnswers == {s.obs[k].items : k \in {j \in 1..Len(s.obs) : s.obs[j].kind = "done"}}
AllOk       == \A q \in DoneAnswers : \A i \in Range(q) : s.st[s.src[i]] = "ok"
InOrder     == \A q \in DoneAnswers : \A j, k \in 1..Len(q) : j < k => q[j] + (k - j) = q[k]
SizedExact  == \A k \in 1..Len(s.waiting) : s.cfg.total > 0 /\ ~s.cfg.accum => Len(s.waiting[k].items) = s.cfg.total
OnceOnly    == ~s.cfg.restart => Len(s.waiting) <= 1
NoneLost    == (s.cfg.restart /\ s.cfg.total > 0 /\ ~s.cfg.accum) => Len(s.src) - s.base + 1 = Len(s.src) % s.cfg.total
Disjoint    == ~s.cfg.accum => \A j, k \in 1..Len(s.waiting) : j # k => Range(s.waiting[j].items) \cap Range(s.waiting[k].items) = {}
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
