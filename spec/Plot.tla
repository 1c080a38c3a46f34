-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What PlotFactorGraph draws: the classes of drawings, as a function of   *)
(* the kinds of variables and factors in the graph and of the options.     *)
(*   o = [three, meas, betw, cov]: plot_3d, plot_measurements,             *)
(*       plot_between_factors, plot_covariance (with an optimizer)         *)
(* "pt2" is a generic variable of size 2.                                  *)
(***************************************************************************)
Shown == {"pose", "lm", "pose2", "pt2"}
Measuring == {"bear", "bp2", "b2", "rb2"}
Joining == {"p2b", "ppb", "pob", "gb"}
Has(kinds, k, class) == IF k \in kinds THEN {<<class, k>>} ELSE {}
Classes(o, kinds, fkinds) ==
    { <<"mark", k>> : k \in kinds \cap Shown } \cup
    (IF o.three THEN Has(kinds, "pose", "arrow") ELSE Has(kinds, "pose2", "arrow")) \cup
    (IF o.cov THEN { <<"region", k>> : k \in kinds \cap (IF o.three THEN {"pose", "lm"} ELSE Shown) } ELSE {}) \cup
    (IF o.meas THEN { <<"line", k>> : k \in fkinds \cap Measuring } ELSE {}) \cup
    (IF o.betw THEN { <<"line", k>> : k \in fkinds \cap Joining } ELSE {})
\* the legend names each class drawn, once
Names(classes) ==
    LET L(k, text) == IF k \in classes THEN {text} ELSE {}
    IN L(<<"mark", "pose">>, "3D Poses") \cup L(<<"mark", "lm">>, "3D Landmarks") \cup L(<<"mark", "pose2">>, "2D Poses") \cup L(<<"mark", "pt2">>, "2D Landmarks") \cup
       (IF \E k \in Measuring \ {"rb2"} : <<"line", k>> \in classes THEN {"Bearing measurements"} ELSE {}) \cup L(<<"line", "rb2">>, "Range-bearing measurements") \cup
       (IF \E k \in Joining : <<"line", k>> \in classes THEN {"Between factors"} ELSE {})
=============================================================================
