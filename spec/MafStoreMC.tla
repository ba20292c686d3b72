----------------------------- MODULE MafStoreMC -----------------------------
(* Histories of writing, reading, renaming and rewriting bundles in two     *)
(* directories.  Bundles in memory: the first NB are made, the last is what *)
(* was read.                                                                *)
EXTENDS MafStore, Json
CONSTANTS NB, Depth
Dirs == {"d1", "d2"}
Runs == {"a", "b c"}
VARIABLES files, mem, hist
Slots == 1 .. NB + 1
(* Bundles 1 and 2 have one name, the others another.                       *)
Name(b) == IF b <= 2 THEN "m>1" ELSE "m2"
Blank == [run |-> "", name |-> "", val |-> 0, root |-> ""]
Made(b) == [run |-> "a", name |-> Name(b), val |-> b, root |-> FileRoot("a", Name(b), "l", "UniSlicer")]
Init == files = <<>> /\ mem = [b \in Slots |-> IF b <= NB THEN Made(b) ELSE Blank] /\ hist = <<>>
Log(h) == hist' = Append(hist, h) /\ (IF Len(hist) + 1 = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE)
Write == \E b \in Slots, d \in Dirs :
           /\ mem[b].root # ""
           /\ files' = (PathOf(d, mem[b].root, "") :> mem[b]) @@ files
           /\ Log([op |-> "write", b |-> b, d |-> d, r |-> ""]) /\ UNCHANGED mem
Read == \E p \in DOMAIN files :
           /\ mem' = [mem EXCEPT ![NB + 1] = files[p]]
           /\ Log([op |-> "read", b |-> NB + 1, d |-> p, r |-> ""]) /\ UNCHANGED files
Rename == \E b \in {1, NB + 1}, r \in Runs :
           /\ mem[b].root # "" /\ mem[b].run # r
           /\ mem' = [mem EXCEPT ![b].run = r, ![b].root = FileRoot(r, mem[b].name, "l", "UniSlicer")]
           /\ Log([op |-> "rename", b |-> b, d |-> "", r |-> r]) /\ UNCHANGED files
Change == /\ mem[1].val < 10
          /\ mem' = [mem EXCEPT ![1].val = @ + 10]
          /\ Log([op |-> "change", b |-> 1, d |-> "", r |-> ""]) /\ UNCHANGED files
Next == Len(hist) < Depth /\ (Write \/ Read \/ Rename \/ Change)
(* Nothing is at a path that its own identity does not lead to, and what    *)
(* was read last is what that file held, unless rewritten since.            *)
Located == \A p \in DOMAIN files : \E d \in Dirs : p = PathOf(d, FileRoot(files[p].run, files[p].name, "l", "UniSlicer"), "")
Distinct == \A p, q \in DOMAIN files : p # q => files[p].run # files[q].run \/ files[p].name # files[q].name \/ SubSeq(p, 1, 2) # SubSeq(q, 1, 2)
Held == LET K == {k \in DOMAIN hist : hist[k].op = "read"}
        IN K # {} => LET k == Max(K) IN
             (\A j \in DOMAIN hist : j > k => hist[j].op = "read") => mem[NB + 1] = files[hist[k].d]
=============================================================================
