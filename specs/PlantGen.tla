------------------------------ MODULE PlantGen ------------------------------
EXTENDS Plant, TLC, Json
CONSTANTS MaxLines, Lines
L(k, v) == [k |-> k, v |-> v]
All == {L("n", "3"), L("n", "0"), L("d", "90"), L("d", "-22.5"), L("i", "one"), L("i", "three")}
       \cup {L("p", v) : v \in {"grow", "after", "turn", "leaf"}} \cup {L("blank", "")}
       \cup {L("bad", v) : v \in {"n", "d", "setting", "line", "production"}}
Good == {L("n", "1"), L("d", "45"), L("i", "one"), L("i", "three"), L("p", "grow"), L("p", "after"), L("p", "gone"), L("p", "leaf")}
Settings == {L("n", "3"), L("n", "0"), L("n", "11"), L("d", "90"), L("d", "0.5"), L("i", "one"), L("p", "grow"), L("bad", "n")}
GNext == Len(lines) < MaxLines /\ \E x \in Lines : Read(x)
GSpec == Init /\ [][GNext]_vars
Emit == PrintT("@@" \o ToJson([lines |-> lines, want |-> Meaning]))
=============================================================================
