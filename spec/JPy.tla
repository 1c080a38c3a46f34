-------------------------------- MODULE JPy ---------------------------------
(***************************************************************************)
(* The Python module as a second implementation of the same specification: *)
(* one script is run through the C++ API and through the Python API, and   *)
(* every call must have the same outcome, results and effects on every     *)
(* variable.  A record of this trace is a pair of records:                 *)
(*   of    the call, k the class constructed, ok <<C++, Python>>           *)
(*   left  arguments left out in Python: <<name, value given in C++>>      *)
(*   kw    arguments passed by keyword                                     *)
(*   f     observations: <<name, type, C++, Python>>                       *)
(***************************************************************************)
EXTENDS Factors, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ck(cond, text) == IF cond THEN {} ELSE {text}
Str(x) == ToString(x)

\* --------------------------------------------------- the documented signatures
One3 == RLit("1e-3")
Sigma1 == [sigma |-> One]
Angle1 == [angle_sigma |-> One]
Defaults ==
    [bear |-> Angle1, irb |-> Angle1, b2 |-> Angle1, pob |-> Angle1,
     gp |-> Sigma1, gb |-> Sigma1, lv |-> Sigma1, ppp |-> Sigma1, pop |-> Sigma1, rp |-> Sigma1, ct |-> Sigma1, pl |-> Sigma1,
     ppb |-> [sigma |-> One, local_frame |-> Zero],
     p2b |-> [local_frame |-> Zero],
     bp2 |-> [sigma |-> One, along_tolerance_epsilon |-> RLit("1e-6")],
     rb2 |-> [range_sigma |-> One, bearing_sigma |-> One],
     plp |-> [normal_sigma |-> One, distance_sigma |-> One]]
Settings == [step_tolerance |-> RLit("1e-6"), residual_tolerance |-> RLit("1e-6"), initial_lambda |-> One3, max_lambda |-> RLit("1e5"),
             lambda_up_factor |-> RLit("10"), lambda_down_factor |-> RLit("0.1"), learning_rate |-> One]
\* the Python class and the names of the enumerators, per kind
Class == [pose |-> "PoseVariable", poseR |-> "PoseVariable", lm |-> "LandmarkVariable", gen |-> "GenericVariable", rot |-> "RotationVariable",
          ir |-> "InverseRangeVariable", plane |-> "PlaneVariable", pose2 |-> "Pose2DVariable"]
TypeName == [pose |-> "pose", poseR |-> "pose", lm |-> "landmark", gen |-> "generic", rot |-> "extrinsic_rotation",
             ir |-> "inverse_range_landmark", plane |-> "plane", pose2 |-> "pose_2d"]
FTypeName == [bear |-> "bearing_observation", irb |-> "inverse_range_bearing", gp |-> "generic_prior", gb |-> "generic_between",
              ppp |-> "pose_position_prior", pop |-> "pose_orientation_prior", ppb |-> "pose_position_between", pob |-> "pose_orientation_between",
              pl |-> "plane_factor", plp |-> "plane_prior", b2 |-> "bearing_observation_2d", rb2 |-> "range_bearing_2d", p2p |-> "pose_2d_prior", p2b |-> "pose_2d_between"]

\* what has to be compared for each call that succeeds: without it the comparison would be vacuous
Required ==
    [var |-> {"nm"}, fac |-> {"rs", "fid", "ft", "nm", "fv", "fa"}, fres |-> {"r1", "r4", "rs"}, clone |-> {"same"},
     getv |-> {"r"}, lists |-> {"vs", "fs", "num"}, fin |-> {"nv", "nr"}, lay |-> {"nv", "nr"}, flags |-> {"jv", "rv"},
     resid |-> {"r"}, jac |-> {"j"}, sjac |-> {"j", "bad"}, both |-> {"r", "j"}, getx |-> {"x"}, ftest |-> {"r"},
     run |-> {"i", "s"}, stat |-> {"i", "s"}, cov |-> {"valid", "p"}, exp |-> {"r"}, log |-> {"r"},
     sdef |-> {"gm", "gk", "gd", "gv", "gr"}, sget |-> {"gm", "gk", "gd", "gv", "gr"}]

\* ------------------------------------------------------------------ comparing
Tol == RLit("1e-9")
\* element by element: an infinite entry does not excuse the others
CloseV(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i], IF RFinite(u[i]) THEN RMul(Tol, RAdd(One, RAbs(u[i]))) ELSE Zero)
CloseR(a, b) == CloseV(<<a>>, <<b>>)
CloseVs(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : CloseV(u[i], v[i])
CloseM(a, b) == a.r = b.r /\ a.c = b.c /\ CloseVs(a.m, b.m)
CloseStats(a, b) == a.v = b.v /\ a.st = b.st /\ a.it = b.it /\ a.rank = b.rank /\ CloseR(a.chi2, b.chi2) /\ CloseR(a.dn, b.dn) /\ CloseR(a.rn, b.rn) /\ CloseR(a.lam, b.lam)
Agree(t, a, b) ==
    CASE t = "is" -> a = b
      [] t = "v" -> CloseV(a, b)
      [] t = "vs" -> CloseVs(a, b)
      [] t = "m" -> CloseM(a, b)
      [] t = "st" -> CloseStats(a, b)
      [] t = "hold" -> b \in {a[1], a[2]}          \* an array: a copy shows what it showed, a view what its variable shows
Label == IOEnv.LABEL
Ours == IF Label = "P30" THEN "Python" ELSE "C++"  \* who the first of the two programs is
Other == IF Label = "P30" THEN "Python with handles dropped" ELSE "Python"

\* what the enumerator must be called ("" where the library has none)
TnBad(e) ==
    IF "tn" \notin DOMAIN e THEN {}
    ELSE IF e.of = "var" THEN Ck(e.tn = TypeName[e.k], "type() of a " \o e.k \o " is " \o e.tn) \cup Ck(e.cls = Class[e.k], "a " \o e.k \o " is a " \o e.cls)
    ELSE IF e.k \in DOMAIN FTypeName THEN Ck(e.tn = FTypeName[e.k], "type() of a factor " \o e.k \o " is " \o e.tn) ELSE {}
LeftBad(e) ==
    IF "left" \notin DOMAIN e \/ e.ok # <<1, 1>> THEN {}
    ELSE LET D == IF e.of = "setup" THEN Settings ELSE IF e.k \in DOMAIN Defaults THEN Defaults[e.k] ELSE <<>>
         IN UNION { LET n == e.left[i][1] IN Ck(n \in DOMAIN D /\ CloseR(D[n], e.left[i][2]), "HARNESS: " \o n \o " was left out, but its documented default is another") : i \in 1..Len(e.left) }
Names(e) == { e.f[i][1] : i \in 1..Len(e.f) }
Bad(e) ==
    IF e.of = "crash" THEN Ck(e.ok[2] = 1, "the process was killed by signal " \o Str(e.sig))
    ELSE Ck(e.ok[1] = e.ok[2], IF e.ok[1] = 1 THEN "raised an exception in " \o Other \o " only" ELSE "raised no exception in " \o Other) \cup
         UNION { Ck(Agree(e.f[i][2], e.f[i][3], e.f[i][4]), IF e.f[i][2] = "hold" THEN e.f[i][1] \o " shows what its variable never had" ELSE e.f[i][1] \o " differs between " \o Other \o " and " \o Ours) : i \in 1..Len(e.f) } \cup
         Ck(e.ok # <<1, 1>> \/ e.of \notin DOMAIN Required \/ Required[e.of] \subseteq Names(e), "HARNESS: a result was not compared") \cup
         TnBad(e) \cup LeftBad(e)

VARIABLES pos
Init == pos = 1
Next ==
    /\ pos <= Len(TraceLog)
    /\ LET e == TraceLog[pos]
           bad == Bad(e)
       IN /\ \A b \in bad : PrintT("FAIL|" \o Label \o "|" \o Str(e.ep) \o "|" \o Str(pos) \o "|" \o e.of \o (IF "k" \in DOMAIN e THEN " " \o e.k ELSE "") \o "|" \o b)
          /\ IF "left" \in DOMAIN e /\ e.left # <<>> THEN PrintT("INFO|INFO|" \o Str(e.ep) \o "|" \o Str(pos) \o "|py|arguments left out") ELSE TRUE
          /\ IF "kw" \in DOMAIN e /\ e.kw # <<>> THEN PrintT("INFO|INFO|" \o Str(e.ep) \o "|" \o Str(pos) \o "|py|arguments by keyword") ELSE TRUE
          /\ IF e.ok = <<0, 0>> THEN PrintT("INFO|INFO|" \o Str(e.ep) \o "|" \o Str(pos) \o "|py|errors in both") ELSE TRUE
    /\ pos' = pos + 1
Spec == Init /\ [][Next]_pos
Done == pos <= Len(TraceLog) \/ PrintT("DONE|" \o Str(Len(TraceLog)))
=============================================================================
