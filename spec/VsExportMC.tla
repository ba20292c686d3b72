----------------------------- MODULE VsExportMC -----------------------------
EXTENDS VsExport, Json
VARIABLES d
Files == {{}, {<<"observations", "f1", "o1">>}, {<<"rewards", "f2", "b1">>},
          {<<"observations", "f3", "o2">>, <<"rewards", "f2", "b1">>, <<"statistics", "f4", "b2">>}}
Descs == [label : {Null, "l1", "l2"}, labeltime : {Null, "T1"}, tel : {Null, "auxtel"}, sched : {Null, "3.1"},
          first : {Null, "2025-03-01"}, last : {Null, "2025-03-04"}, ctime : {Null, "T2"},
          tags : {{}, {"t1"}, {"t1", "o'x %s"}}, files : Files]
Init == d \in Descs /\ (d.labeltime # Null => d.label # Null) /\ PrintT("@@" \o ToJson(d))
Next == UNCHANGED d
Inv == Acceptable(d) => LET s == Import(d) IN RoundTrip(s) /\ Stable(s)
=============================================================================
