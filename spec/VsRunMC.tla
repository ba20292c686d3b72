------------------------------ MODULE VsRunMC ------------------------------
(* Histories of saving runs in two directories, from calls that share their *)
(* arguments; expected contents are recomputed from the history.            *)
EXTENDS VsRun, Json
CONSTANTS MaxOps
VARIABLES st, hist
Base == [via |-> "save", visits |-> <<9600, 9700>>, rew |-> {}, files |-> {}, tags |-> <<>>, label |-> "", meta |-> "", metaval |-> "",
         start |-> -1, dur |-> -1, end |-> -1, kw |-> FALSE, slew |-> 0, visit |-> 0, exp |-> 0, loc |-> 0, scat |-> 0, min |-> 0]
Drive == [Base EXCEPT !.via = "drive", !.visits = <<>>, !.start = 9601, !.dur = 3000, !.end = 12601, !.kw = TRUE, !.slew = 100, !.visit = 600,
                      !.exp = 500, !.files = {<<"scheduler", "s">>}]
Runs == {[Base EXCEPT !.label = "one", !.tags = <<"t">>, !.meta = "m", !.metaval = "x"],
         [Base EXCEPT !.visits = <<19600>>, !.rew = {"reward_df"}, !.meta = "m", !.metaval = "x"],
         [Base EXCEPT !.rew = {"reward_df", "obs_rewards"}, !.files = {<<"a", "1">>, <<"b", "2">>}],
         [Base EXCEPT !.rew = {"obs_rewards"}, !.label = "two"],
         [Drive EXCEPT !.meta = "m", !.metaval = "x"],
         [Drive EXCEPT !.scat = 100, !.rew = {"reward_df", "obs_rewards"}],
         [Drive EXCEPT !.loc = 1, !.scat = -400, !.min = 300, !.label = "slow"],
         [Drive EXCEPT !.dur = 13000, !.end = 22601, !.scat = -150, !.min = 0]}
Init == st = Empty /\ hist = <<>>
H(e) == hist' = Append(hist, e) /\ PrintT("@@" \o ToJson(hist'))
(* a driven run goes to a new directory of its own                          *)
Target(r, k) == IF r.via = "drive" THEN "t" \o ToString(Len(hist)) ELSE k
Next == /\ Len(hist) < MaxOps
        /\ \E r \in Runs : \E k \in (IF r.via = "drive" THEN {""} ELSE {"d1", "d2"}) :
              st' = Save(st, Target(r, k), r) /\ H([dir |-> Target(r, k), run |-> r])
LastIn(d) == LET S == {k \in 1 .. Len(hist) : hist[k].dir = d} IN hist[Max(S)].run
Inv == /\ NightOrder(st) /\ SpacedVisits(st)
       /\ \A d \in DOMAIN st.dirs : st.dirs[d] = Contents(st, LastIn(d))
       /\ \A d \in DOMAIN st.dirs : LET r == LastIn(d) IN
             r.via = "drive" => /\ PossibleVisits(r, st.dirs[d].visits)
                                /\ Step(r) - r.exp >= r.min
                                /\ NightsOf(r)[2] >= Night(Max(Range(st.dirs[d].visits)))
(* saving one run leaves the other directories alone                        *)
Others == [][\A d \in DOMAIN st.dirs : st'.dirs[d] # st.dirs[d] => hist'[Len(hist')].dir = d]_<<st, hist>>
=============================================================================
