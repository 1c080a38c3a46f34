------------------------------- MODULE MCPlot -------------------------------
(***************************************************************************)
(* Every graph made of the items below, plotted with every combination of  *)
(* options: items are added one by one, options are switched in between.   *)
(***************************************************************************)
EXTENDS Plot, FiniteSets, Sequences, TLC
CONSTANTS Items                      \* subset of AllItems
AllItems == {"pose", "poseB", "lm", "pose2", "pose2B", "pt2", "other"}
VARIABLES has, o
Kinds == { CASE i = "poseB" -> "pose" [] i = "pose2B" -> "pose2" [] OTHER -> i : i \in has }
\* every factor the items present allow
FKinds(h) == (IF {"pose", "lm"} \subseteq h THEN {"bear", "bp2"} ELSE {}) \cup (IF {"pose2", "pt2"} \subseteq h THEN {"b2", "rb2"} ELSE {}) \cup
             (IF {"pose", "poseB"} \subseteq h THEN {"ppb", "pob", "gb"} ELSE {}) \cup (IF {"pose2", "pose2B"} \subseteq h THEN {"p2b"} ELSE {})
D == Classes(o, Kinds, FKinds(has))
Key == ToString(<<has, o.three, o.meas, o.betw, o.cov>>)
Options == {"three", "meas", "betw", "cov"}
Init == has = {} /\ o = [three |-> TRUE, meas |-> TRUE, betw |-> TRUE, cov |-> FALSE]
Add(i) == has' = has \cup {i} /\ o' = o
Switch(p) == o' = [o EXCEPT ![p] = ~@] /\ has' = has
Call(c) == PrintT("T|" \o Key \o "|" \o c \o "|" \o Key')
Next == \/ \E i \in Items \ has : Add(i) /\ Call("add " \o i)
        \/ \E p \in Options : Switch(p) /\ Call("switch " \o p)
Begin == Init /\ PrintT("I|" \o Key)
Spec == Begin /\ [][Next]_<<has, o>>
View == Key

\* markers for exactly the kinds that are shown, whatever the options
MarkersAlways == { d \in D : d[1] = "mark" } = { <<"mark", k>> : k \in Kinds \cap Shown }
LinesNeedTheirOption == \A d \in D : d[1] = "line" => (d[2] \in Measuring /\ o.meas) \/ (d[2] \in Joining /\ o.betw)
RegionsAtMarkers == \A d \in D : d[1] \in {"region", "arrow"} => <<"mark", d[2]>> \in D
\* adding something takes nothing away; an option only changes drawings of its own
GrowOnly == [][(o' = o) => D \subseteq D']_<<has, o>>
OptionsApart == [][(has' = has) =>
    /\ (o'.meas # o.meas => { d \in D : d[2] \notin Measuring } = { d \in D' : d[2] \notin Measuring })
    /\ (o'.betw # o.betw => { d \in D : d[2] \notin Joining } = { d \in D' : d[2] \notin Joining })
    /\ (o'.cov # o.cov => { d \in D : d[1] # "region" } = { d \in D' : d[1] # "region" })
    /\ (o'.three # o.three => { d \in D : d[1] \in {"mark", "line"} } = { d \in D' : d[1] \in {"mark", "line"} })]_<<has, o>>
=============================================================================
