---- MODULE BardellSelf ----
EXTENDS Bardell
ASSUME LawHermite
ASSUME LawEdges
ASSUME LawLegendre
ASSUME LawParity
ASSUME LawOrthogonal
ASSUME LawByParts
VARIABLE x
Init == x = 0
Next == UNCHANGED x
====
