------------------------------ MODULE Options ------------------------------
(* Settings arrive one after the other, by flag or by functional option. The *)
(* options are an assignment of values to hyper-parameters; a value is       *)
(* "default" or one of Vals.                                                 *)
EXTENDS OptionsDefs, Json
CONSTANTS Models, MaxSets, Vals, Bug
VARIABLES via, model, opts, sets
vars == <<via, model, opts, sets>>
Fields(m) == {Flags[m][f] : f \in DOMAIN Flags[m]}
Init == /\ via \in {"cli", "sdk"} /\ model \in Models
        /\ opts = [f \in Fields(model) |-> "default"] /\ sets = <<>>
Value(f) == IF f \in Bool THEN (IF via = "cli" THEN {"true", "false"} ELSE {"true"}) ELSE Vals
Set(n, v) ==
    /\ Len(sets) < MaxSets
    /\ sets' = Append(sets, [name |-> n, val |-> v])
    /\ LET f == Field(via, model, n)
           g == CASE Bug = "cross" /\ n = "batch" -> "LogBatch" [] Bug = "cross_sdk" /\ n = "MinCount" -> "MaxCount" [] OTHER -> f IN
       opts' = (CASE Bug = "first_wins" /\ opts[f] # "default" -> opts
                  [] Bug = "both" /\ n = "Window" /\ model = "glove" -> [opts EXCEPT !["Window"] = v, !["Xmax"] = v]
                  [] Bug = "forgets" /\ n = "w" -> [x \in DOMAIN opts |-> IF x = "Window" THEN v ELSE "default"]
                  [] OTHER -> [opts EXCEPT ![g] = v])
    /\ UNCHANGED <<via, model>>
Next == \E n \in Names(via, model) : \E v \in Value(Field(via, model, n)) : Set(n, v)
Stop == Len(sets) = MaxSets /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars
(* P25 *)
LastSet(f) == LET is == {i \in DOMAIN sets : Field(via, model, sets[i].name) = f} IN
           IF is = {} THEN "default" ELSE sets[CHOOSE i \in is : \A j \in is : j <= i].val
OnlyItsOwn == \A f \in DOMAIN opts : opts[f] = LastSet(f)
SameAsFold == opts = Resolve([f \in Fields(model) |-> "default"], via, model, sets)
\* setting different hyper-parameters commutes
Gen == Len(sets) = MaxSets => PrintT("@J" \o ToJson([via |-> via, model |-> model, sets |-> sets, opts |-> opts]))
=============================================================================
