------------------------------ MODULE VsExport ------------------------------
(* Describing a simulation (export) and making one from a description       *)
(* (import).  A simulation: [label, tel, sched, first, last, ctime, tags,   *)
(* files, obs]; a description has the same fields, "null" when absent; files*)
(* are sets of <<type, location, content>>; obs is the content of the visits.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Null == "null"
(* labels are pairs <<text, time in the label or null>>                     *)
Default(x, d) == IF x = Null THEN d ELSE x
HasObs(d) == \E f \in d.files : f[1] = "observations"
Acceptable(d) == d.label # Null /\ HasObs(d)
ObsOf(d) == (CHOOSE f \in d.files : f[1] = "observations")[3]
Import(d) ==
    [label |-> d.label, tel |-> Default(d.tel, "simonyi"), sched |-> d.sched, first |-> d.first, last |-> d.last,
     ctime |-> Default(d.ctime, Default(d.labeltime, "NOW")), tags |-> d.tags, files |-> d.files, obs |-> ObsOf(d)]
Export(s) ==
    [label |-> s.label, labeltime |-> Null, tel |-> s.tel, sched |-> s.sched, first |-> s.first, last |-> s.last,
     ctime |-> s.ctime, tags |-> s.tags, files |-> s.files]
RoundTrip(s) == Acceptable(Export(s)) => Import(Export(s)) = [s EXCEPT !.obs = ObsOf(Export(s))]
Stable(s) == Acceptable(Export(s)) => Export(Import(Export(s))) = Export(s)
=============================================================================
