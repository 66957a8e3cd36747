------------------------------- MODULE Deliver -------------------------------
(* One response: its head, its body in pieces, its end - or a failure at any point.  Observable: the outcome. *)
EXTENDS VUtil
CONSTANTS MaxPieces
VARIABLES s, act
vars == <<s, act>>
Encs == {"none", "gzip", "x-gzip", "deflate", "raw", "br", "GZIP", "unknown"}
Cfgs == {[enc |-> e, pieces |-> n, bad |-> b, stop |-> st, delay |-> d, head |-> h, len |-> l] :
            e \in Encs, n \in 0..MaxPieces, b \in BOOLEAN, st \in {"no", "header", "data1", "data2"}, d \in BOOLEAN, h \in BOOLEAN, l \in BOOLEAN}
Ok(c) == /\ c.bad => c.enc \notin {"none", "unknown"} /\ c.pieces > 0 /\ c.stop = "no" /\ ~c.head
         /\ c.stop \in {"data1", "data2"} => c.enc \in {"none", "unknown"} /\ c.pieces > 0
         /\ c.stop = "data2" => c.pieces > 1
         /\ c.head => c.pieces = 0 /\ c.stop # "data1"
         /\ c.len => ~c.head /\ c.stop = "no"
         /\ c.delay => c.enc = "none" /\ c.stop = "no"
InitOf(c) == [cfg |-> c, pc |-> "idle", sent |-> 0, obs |-> <<"idle">>]
Init == (\E c \in Cfgs : Ok(c) /\ s = InitOf(c)) /\ act = [a |-> "init"]
To(pc, o) == [s EXCEPT !.pc = pc, !.obs = o]
Call   == s.pc = "idle" /\ act' = [a |-> "call"] /\ s' = IF s.cfg.delay THEN To("delayed", <<"nothing">>) ELSE To("asked", <<"request">>)
Due    == s.pc = "delayed" /\ act' = [a |-> "due"] /\ s' = To("asked", <<"request">>)
Refuse == s.pc = "idle" /\ ~s.cfg.delay /\ act' = [a |-> "refused"] /\ s' = To("done", <<"err">>)
Head_  == s.pc = "asked" /\ act' = [a |-> "head"] /\ s' = IF s.cfg.stop = "header" \/ s.cfg.head \/ (s.cfg.len /\ s.cfg.pieces = 0) THEN To("done", <<"ok", 0>>) ELSE To("body", <<"nothing">>)
Stops(n) == (s.cfg.stop = "data1" /\ n = 1) \/ (s.cfg.stop = "data2" /\ n = 2)
Piece  == s.pc = "body" /\ s.sent < s.cfg.pieces /\ act' = [a |-> "piece"]
          /\ s' = IF Stops(s.sent + 1) THEN [To("done", <<"ok", s.sent>>) EXCEPT !.sent = @ + 1] ELSE IF s.cfg.len /\ s.sent + 1 = s.cfg.pieces THEN [To("done", IF s.cfg.bad THEN <<"err">> ELSE <<"ok", s.sent + 1>>) EXCEPT !.sent = @ + 1]
                 ELSE [To("body", IF s.cfg.bad THEN <<"any">> ELSE <<"nothing">>) EXCEPT !.sent = @ + 1]
End    == s.pc = "body" /\ s.sent = s.cfg.pieces /\ act' = [a |-> "end"] /\ s' = To("done", IF s.cfg.bad THEN <<"err">> ELSE <<"ok", s.sent>>)
(* a broken connection, or a pause longer than the time allowed *)
Break  == s.pc \in {"asked", "body"} /\ \E how \in {"cut", "timeout"} : act' = [a |-> how] /\ s' = To("done", <<"err">>)
Next == Call \/ Due \/ Refuse \/ Head_ \/ Piece \/ End \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == [s EXCEPT !.obs = <<>>]
Once    == [][s.pc # "done"]_vars
Settles == <>(s.pc = "done")
Whole   == s.pc = "done" /\ s.cfg.stop = "no" /\ s.obs # <<>> /\ s.obs[1] = "ok" => s.sent = s.cfg.pieces
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], [s' EXCEPT !.obs = <<>>])
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
