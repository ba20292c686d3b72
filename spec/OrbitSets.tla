----------------------------- MODULE OrbitSets ------------------------------
(* Tables of orbits (C03).  A table is a sequence of rows, functions from     *)
(* column names to values; numbers are whole numbers of 1/40.                 *)
EXTENDS Rat
Elements(f) == CASE f = "COM" -> {"q", "e", "inc", "Omega", "argPeri", "tPeri", "epoch"}
                 [] f = "KEP" -> {"a", "e", "inc", "Omega", "argPeri", "meanAnomaly", "epoch"}
                 [] f = "CAR" -> {"x", "y", "z", "xdot", "ydot", "zdot", "epoch"}
Optional == {"obj_id", "H", "g", "sed_filename"}
Formats == {"COM", "KEP", "CAR"}
(* stated: the formats named in the table, one per row, or "" *)
Format(cols, stated) ==
    IF stated # {""}
    THEN IF Cardinality(stated) > 1 THEN "" ELSE LET s == CHOOSE s \in stated : TRUE IN IF s = "CART" THEN "CAR" ELSE s
    ELSE IF "q" \in cols THEN "COM" ELSE IF "a" \in cols THEN "KEP" ELSE IF "x" \in cols THEN "CAR" ELSE ""
Lowest == -21503 * 40
Highest == 124594 * 40
(* what must be refused; an odd epoch further down may be refused or not *)
Refused(rows, cols, stated) ==
    \/ Len(rows) = 0
    \/ Format(cols, stated) \notin Formats
    \/ ~(Elements(Format(cols, stated)) \subseteq cols)
    \/ rows[1]["epoch"] < Lowest \/ rows[1]["epoch"] > Highest
Odd(rows) == \E k \in DOMAIN rows : rows[k]["epoch"] < Lowest \/ rows[k]["epoch"] > Highest
(* the colours an object may be given: bluer ones nearer than 2, redder ones further than 4 au *)
Colours(row) ==
    LET far(n, d) == IF d <= 0 THEN {"C.dat", "S.dat"}
                     ELSE IF n < 2 * d THEN {"S.dat"} ELSE IF n > 4 * d THEN {"C.dat"} ELSE {"C.dat", "S.dat"}
    IN IF "a" \in DOMAIN row THEN far(row["a"], 40)
       ELSE IF "q" \in DOMAIN row THEN far(row["q"], 40 - row["e"])
       ELSE {"C.dat", "S.dat"}
(* what an accepted table becomes: all of it, completed *)
Completed(out, rows, cols) ==
    /\ Len(out) = Len(rows)
    /\ \A k \in DOMAIN rows :
        /\ (cols \cup Optional) \subseteq DOMAIN out[k]
        /\ \A c \in cols : out[k][c] = rows[k][c]
        /\ "obj_id" \in cols \/ out[k]["obj_id"] = k - 1
        /\ "H" \in cols \/ out[k]["H"] = 800
        /\ "g" \in cols \/ out[k]["g"] = 6
        /\ "sed_filename" \in cols \/ out[k]["sed_filename"] \in Colours(rows[k])
(* two sets of the same format are equal if all the elements they are defined by are *)
SameSet(a, b, f) == Len(a) = Len(b) /\ \A k \in DOMAIN a, c \in Elements(f) \cup Optional : a[k][c] = b[k][c]
(* names of columns in files *)
Alias(n) ==
    CASE n \in {"obj_id", "objid", "!!ObjID", "!!OID", "!!S3MID", "OID", "S3MID", "objid(int)", "full_name", "#name"} -> "obj_id"
      [] n \in {"e", "ecc"} -> "e"
      [] n \in {"inc", "i", "i(deg)", "incl"} -> "inc"
      [] n \in {"Omega", "omega", "node", "om", "node(deg)", "BigOmega", "Omega/node", "longNode"} -> "Omega"
      [] n \in {"argPeri", "argperi", "omega/argperi", "w", "argperi(deg)", "peri"} -> "argPeri"
      [] n \in {"tPeri", "t_p", "timeperi", "t_peri", "T_peri"} -> "tPeri"
      [] n \in {"epoch", "t_0", "Epoch", "epoch_mjd"} -> "epoch"
      [] n \in {"H", "magH", "magHv", "Hv", "H_v"} -> "H"
      [] n \in {"g", "phaseV", "phase", "gV", "phase_g", "G"} -> "g"
      [] n \in {"meanAnomaly", "meanAnom", "M", "ma"} -> "meanAnomaly"
      [] n \in {"sed_filename", "sed"} -> "sed_filename"
      [] n \in {"xdot", "xDot"} -> "xdot"
      [] n \in {"ydot", "yDot"} -> "ydot"
      [] n \in {"zdot", "zDot"} -> "zdot"
      [] OTHER -> n
Named(row) == LET names == {Alias(n) : n \in DOMAIN row}
              IN [c \in names |-> row[CHOOSE n \in DOMAIN row : Alias(n) = c]]
Ambiguous(cols) == \E m, n \in cols : m # n /\ Alias(m) = Alias(n)
=============================================================================
