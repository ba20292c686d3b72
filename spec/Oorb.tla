-------------------------------- MODULE Oorb --------------------------------
(* The interface to the orbit integrator (C04).  The state is the format and  *)
(* the elements (one sequence of six whole numbers per object, in the user's  *)
(* units, with epoch, H and g) that the integrator would be given.  The       *)
(* integrator is a stand-in: conversion adds 1 to every element, propagation  *)
(* adds 2 and moves the epoch, and either may report an error.                *)
EXTENDS Rat
Formats == {"KEP", "COM", "CAR"}
Code(f) == CASE f = "CAR" -> 1 [] f = "COM" -> 2 [] f = "KEP" -> 3
Scale(s) == CASE s = "UTC" -> 1 [] s = "UT1" -> 2 [] s = "TT" -> 3 [] s = "TAI" -> 4
Mode(m) == CASE m \in {"nbody", "N", "n", "NBODY", "Nbody"} -> "N" [] m \in {"2body", "2", "2BODY"} -> "2" [] OTHER -> "?"
Names(f) == CASE f = "KEP" -> <<"a", "e", "inc", "Omega", "argPeri", "meanAnomaly">>
              [] f = "COM" -> <<"q", "e", "inc", "Omega", "argPeri", "tPeri">>
              [] f = "CAR" -> <<"x", "y", "z", "xdot", "ydot", "zdot">>
Shift(o, d) == [o EXCEPT !.el = [k \in DOMAIN o.el |-> o.el[k] + d]]
Empty == [fmt |-> "none", objs |-> <<>>]
(* op: what is done; its outcome is the next state, or an error and the same state *)
Valid(op) == CASE op.op = "set" -> op.objs # <<>>
               [] op.op = "convert" -> op.fails = 0
               [] op.op = "propagate" -> op.fails = 0 /\ Mode(op.mode) # "?"
               [] op.op = "ephemerides" -> op.fails = 0 /\ Mode(op.mode) # "?" /\ op.type \in {"basic", "full", "Basic", "FULL"} /\ op.times # <<>> /\ op.scale \in {"UTC", "UT1", "TT", "TAI"}
               [] OTHER -> TRUE
Result(st, op) ==
    IF ~Valid(op) THEN st
    ELSE CASE op.op = "set" -> [fmt |-> op.fmt, objs |-> op.objs]
           [] op.op = "convert" -> [fmt |-> op.fmt, objs |-> [k \in DOMAIN st.objs |-> Shift(st.objs[k], 1)]]
           [] op.op = "propagate" -> [st EXCEPT !.objs = [k \in DOMAIN st.objs |-> [Shift(st.objs[k], 2) EXCEPT !.epoch = op.epoch]]]
           [] OTHER -> st
(* what the stand-in computes for component c of an object at a time *)
Component(o, t, c) == CASE c = 1 -> t [] c = 4 -> 3 * o.el[1] [] c = 5 -> 4 * o.el[1] [] OTHER -> (64 * o.el[1]) + (8 * t) + c
Basic == <<"time", "ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV", "trueAnomaly">>
Full == <<"time", "ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV", "pa", "topo_lon", "topo_lat",
          "opp_topo_lon", "opp_topo_lat", "helio_lon", "helio_lat", "opp_helio_lon", "opp_helio_lat", "topo_obj_alt", "topo_solar_alt",
          "topo_lunar_alt", "lunar_phase", "lunar_dist", "helio_x", "helio_y", "helio_z", "helio_dx", "helio_dy", "helio_dz",
          "obs_helio_x", "obs_helio_y", "obs_helio_z", "trueAnom">>
Columns(type) == IF type \in {"full", "FULL"} THEN Full ELSE Basic
(* the value in a named column: the component it is documented to be, and the total motion *)
Value(o, t, type, name) ==
    IF name = "velocity" THEN 5 * RAbs(o.el[1])
    ELSE Component(o, t, CHOOSE c \in DOMAIN Columns(type) : Columns(type)[c] = name)
=============================================================================
