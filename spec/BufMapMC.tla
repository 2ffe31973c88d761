------------------------------ MODULE BufMapMC ------------------------------
EXTENDS BufMap, Json
CONSTANT Family

U(k) == [op |-> "upd", k |-> k, fail |-> FALSE]
F(k) == [op |-> "upd", k |-> k, fail |-> TRUE]
G(k) == [op |-> "get", k |-> k]

\* keys "1", "3", "5" and "2", "4" collide in a table of two slots
Fixed ==
  CASE Family = "create" -> {<< <<U("1"), G("1")>>, <<U("1")>>, <<G("1"), G("1")>> >>}
    [] Family = "fail"   -> {<< <<F("1"), U("1")>>, <<U("1"), G("1")>>, <<G("1")>> >>}
    [] Family = "collide" -> {<< <<U("1"), G("3")>>, <<U("3"), G("1")>>, <<U("1")>> >>}
    [] Family = "full"   -> {<< <<U("1"), G("5")>>, <<U("3"), G("1")>>, <<U("5"), G("3")>> >>}
    [] Family = "read"   -> {<< <<U("1"), U("1")>>, <<G("1"), G("1")>>, <<G("1")>> >>}
    [] Family = "pairs"  -> {<<a, b>> : a, b \in [1..2 -> {U("1"), U("3"), F("1"), G("1"), G("3")}]}
    [] Family = "triples" -> {<<a, b, c>> : a \in [1..2 -> {U("1"), F("1"), G("1")}], b \in [1..2 -> {U("1"), U("3"), G("1")}], c \in [1..1 -> {U("3"), G("1"), G("3")}]}
    [] OTHER -> {}
RandomCall == [op : {"upd"}, k : {"1", "2", "3", "5"}, fail : {FALSE}] \cup [op : {"upd"}, k : {"1", "3"}, fail : {TRUE}] \cup [op : {"get"}, k : {"1", "2", "3", "5"}, fail : {FALSE}]
MCPrograms == IF Family = "random" THEN {[p \in Procs |-> [j \in 1 .. RandomElement(1..2) |-> RandomElement(RandomCall)]]} ELSE
              Fixed

Emitted == (Emit /\ Finished) => PrintT("RUN " \o ToJson(ToRun))
=============================================================================
