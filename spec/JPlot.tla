------------------------------- MODULE JPlot --------------------------------
(***************************************************************************)
(* Judges recordings of PlotFactorGraph (P31).  The recorded drawing is a  *)
(* bag of markers, lines, arrows and covariance regions; it must be the    *)
(* bag that Plot.tla and the geometry below give for the graph's contents. *)
(***************************************************************************)
EXTENDS Factors, Plot, TLC, Json, IOUtils, FiniteSets
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ck(cond, text) == IF cond THEN {} ELSE {text}
Str(x) == ToString(x)

\* ---------------------------------------------------------------- the drawing
Colour == [pose |-> "#008000", lm |-> "#0000ff", pose2 |-> "#ff0000", pt2 |-> "#00ffff",
           bear |-> "#ffa500", bp2 |-> "#ffa500", b2 |-> "#ffa500", rb2 |-> "#800080", p2b |-> "#ff00ff", ppb |-> "#ff00ff", pob |-> "#ff00ff", gb |-> "#ff00ff"]
Style == [bear |-> "--", bp2 |-> "--", b2 |-> "--", rb2 |-> "-", p2b |-> ":", ppb |-> ":", pob |-> ":", gb |-> ":"]
PlotKind(v) == IF v.k = "gen" THEN IF Len(v.x) = 2 THEN "pt2" ELSE "other" ELSE IF v.k \in {"pose", "lm", "pose2"} THEN v.k ELSE "other"
\* where a variable is, in space
At(v) == CASE PlotKind(v) \in {"pose", "lm"} -> PosOf(v) [] OTHER -> Seg(v.x, 1, 2) \o <<Zero>>
Dim(o, p) == IF o.three THEN p ELSE SubSeq(p, 1, 2)
Along(a) == <<RCos(a), RSin(a)>>
Lift(u) == u \o <<Zero>>
\* the far end of the line of a measurement
End(f, xs) ==
    CASE f.k \in {"bear", "bp2"} -> VAdd(PosOf(xs[1]), VScale(VNorm(VSub(xs[2].x, PosOf(xs[1]))), MVec(MT(RotOf(xs[1])), VNormalize(Seg(f.d, 2, 3)))))
      [] f.k = "b2"  -> Lift(VAdd(Seg(xs[1].x, 1, 2), VScale(VNorm(VSub(Seg(xs[2].x, 1, 2), Seg(xs[1].x, 1, 2))), Along(RAdd(xs[1].x[3], f.d[2])))))
      [] f.k = "rb2" -> Lift(VAdd(Seg(xs[1].x, 1, 2), VScale(f.d[3], Along(RAdd(xs[1].x[3], f.d[4])))))
Joins(xs) == PlotKind(xs[1]) \in {"pose", "pose2"} /\ PlotKind(xs[2]) \in {"pose", "pose2"}

\* ------------------------------------------------------------------- the world
\* V variables, F factors (as in the trace specification)
Xs(w, f) == [i \in 1..Len(f.vs) |-> w.V[f.vs[i]]]
\* concatenation of S(e) over the sequence es
Bag(es, S(_)) == LET N[i \in 0..Len(es)] == IF i = 0 THEN <<>> ELSE N[i - 1] \o S(es[i]) IN N[Len(es)]
Opt(e) == [three |-> e.three = 1, meas |-> e.meas = 1, betw |-> e.betw = 1, cov |-> e.cov = 1]
Drawn(w, e) == Classes(Opt(e), { PlotKind(w.V[e.vs[i]]) : i \in 1..Len(e.vs) }, { w.F[e.fs[i]].k : i \in 1..Len(e.fs) })
Marks(w, e) == LET M(s) == LET v == w.V[s]  k == PlotKind(v) IN IF <<"mark", k>> \in Drawn(w, e) THEN << <<Colour[k], Dim(Opt(e), At(v))>> >> ELSE <<>> IN Bag(e.vs, M)
Arrows(w, e) ==
    LET A(s) == LET v == w.V[s]  k == PlotKind(v)
                IN IF <<"arrow", k>> \notin Drawn(w, e) THEN <<>>
                   ELSE IF k = "pose" THEN LET R == RotOf(v) IN << <<"#ff0000", PosOf(v), R[1]>>, <<"#008000", PosOf(v), R[2]>>, <<"#0000ff", PosOf(v), R[3]>> >>
                   ELSE << <<"#ff0000", Seg(v.x, 1, 2), Along(v.x[3])>> >>
    IN Bag(e.vs, A)
Lines(w, e) ==
    LET o == Opt(e)
        S(t) == LET f == w.F[t]  xs == Xs(w, f)
                IN IF <<"line", f.k>> \notin Drawn(w, e) THEN <<>>
                   ELSE IF f.k \in Measuring THEN << <<Colour[f.k], Style[f.k], Dim(o, At(xs[1])), Dim(o, End(f, xs))>> >>
                   ELSE IF Joins(xs) THEN << <<Colour[f.k], Style[f.k], Dim(o, At(xs[1])), Dim(o, At(xs[2]))>> >> ELSE <<>>
    IN Bag(e.fs, S)
\* covariances as the optimizer gives them: [s, valid, p]
Regions(w, e) ==
    LET G(c) == LET v == w.V[c.s]  k == PlotKind(v)  n == IF e.three = 1 THEN 3 ELSE 2
                IN IF c.valid = 0 \/ <<"region", k>> \notin Drawn(w, e) THEN <<>>
                   ELSE << <<Colour[k], Dim(Opt(e), At(v)), [i \in 1..n |-> SubSeq(c.p.m[i], 1, n)]>> >>
    IN Bag(e.covs, G)

\* ------------------------------------------------------------------ comparing
Big(p) == RAdd(One, RMaxAbs(p))
Near(p, q) == Len(p) = Len(q) /\ VClose(p, q, RMul(RLit("1e-7"), RAdd(Big(p), Big(q))))
Dirs == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, -1, 0>>, <<1, 0, 1>>, <<1, 0, -1>>, <<0, 1, 1>>, <<0, 1, -1>> >>
DirR(i) == [j \in 1..3 |-> ROfInt(Dirs[i][j])]
SameMark(a, b) == a[1] = b[1] /\ Near(a[2], b[2])
SameArrow(a, b) == a[1] = b[1] /\ Near(a[2], b[2]) /\ VClose(a[3], b[3], RLit("1e-5"))
SameLine(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ ((Near(a[3], b[3]) /\ Near(a[4], b[4])) \/ (Near(a[3], b[4]) /\ Near(a[4], b[3])))
\* g: what was drawn: an ellipse by its covariance, a surface (a mesh, whose points need not be symmetric) by its extents along Dirs; b: what should be
SameRegion(g, b) ==
    /\ g[1] = b[1] /\ Len(g[2]) = Len(b[2]) /\ VClose(g[2], b[2], RAdd(RMul(RLit("1e-6"), RAdd(Big(g[2]), Big(b[2]))), IF Len(b[2]) = 2 THEN Zero ELSE RMul(RLit("0.05"), RMaxAbs(g[3]))))
    /\ IF Len(b[2]) = 2 THEN \A i, j \in 1..2 : Close(g[3][i][j], b[3][i][j], RMul(RLit("1e-6"), RMax(RMaxAbs(b[3][1]), RMaxAbs(b[3][2]))))
       ELSE \A i \in 1..9 : LET h == RSqrt(RMax(Zero, VDot(DirR(i), MVec(b[3], DirR(i)))))
                            IN RLe(RMul(RLit("0.9"), h), g[3][i]) /\ RLe(g[3][i], RMul(RLit("1.001"), h))
Count(x, es, Eq(_, _)) == LET N[i \in 0..Len(es)] == IF i = 0 THEN 0 ELSE N[i - 1] + (IF Eq(x, es[i]) THEN 1 ELSE 0) IN N[Len(es)]
\* the drawn bag g is the expected bag b
SameBag(g, b, Eq(_, _)) == Len(g) = Len(b) /\ (\A i \in 1..Len(b) : \E j \in 1..Len(g) : Eq(g[j], b[i])) /\ (\A j \in 1..Len(g) : \E i \in 1..Len(b) : Eq(g[j], b[i]))
                           /\ \A i \in 1..Len(b) : LET G(x, y) == Eq(y, x)  B(x, y) == Eq(y, x) \/ Eq(x, y) IN Count(b[i], g, G) = Count(b[i], b, B)
SameMarks(g, b) == SameBag(g, b, SameMark)
\* regions are of two representations: only matched, not counted against each other
SameRegions(g, b) == Len(g) = Len(b) /\ (\A i \in 1..Len(b) : \E j \in 1..Len(g) : SameRegion(g[j], b[i])) /\ (\A j \in 1..Len(g) : \E i \in 1..Len(b) : SameRegion(g[j], b[i]))
\* the classes that were really drawn: a between factor whose ends are not poses has no line
Shows(w, e) == LET J(k) == \E i \in 1..Len(e.fs) : LET f == w.F[e.fs[i]] IN f.k = k /\ Joins(Xs(w, f))
               IN { c \in Drawn(w, e) : c[1] # "line" \/ c[2] \notin Joining \/ J(c[2]) }
\* every shown variable lies within the limits of the axes, whose scales are equal
InView(w, e) ==
    LET ms == Marks(w, e)  n == Len(e.lim)
    IN \A i \in 1..Len(ms) : \A k \in 1..n :
         LET p == ms[i][2]  t == RMul(RLit("1e-9"), RAdd(Big(p), RMaxAbs(e.lim[k])))
         IN RLe(RSub(e.lim[k][1], t), p[k]) /\ RLe(p[k], RAdd(e.lim[k][2], t))
Spread(ms, k) == LET P == [i \in 1..Len(ms) |-> ms[i][2][k]] IN RSub(VMax(P), VMin(P))
EqualScales(w, e) ==
    IF e.three = 0 THEN e.asp = "1.0" \/ e.asp = "1" \/ e.asp = "equal"
    ELSE LET ms == Marks(w, e)  Ext(k) == RSub(e.lim[k][2], e.lim[k][1])
         IN Len(ms) = 0 \/ (\A k \in 1..3 : RLe(Spread(ms, k), RMul(RLit("1e-3"), RMaxAbs(ms[1][2])))) \/ e.asp = "equal"
            \/ (\A k \in 2..3 : Close(Ext(k), Ext(1), RMul(RLit("1e-6"), RAdd(RAbs(Ext(1)), RMaxAbs(e.lim[k])))))
Plot(w, e) ==
    IF e.ok = 0 THEN {"PlotFactorGraph raised an exception"}
    ELSE Ck(e.ret = (IF e.given # 0 THEN "given" ELSE "new"), "the axes returned are not " \o (IF e.given # 0 THEN "those given" ELSE "new ones")) \cup
         Ck(e.dim = (IF e.three = 1 THEN 3 ELSE 2), "the plot has " \o Str(e.dim) \o " dimensions") \cup
         Ck(Len(e.leg) = Cardinality(Names(Shows(w, e))) /\ { e.leg[i] : i \in 1..Len(e.leg) } = Names(Shows(w, e)), "the legend is not that of what is drawn") \cup
         Ck(e.lab = SubSeq(<<"X", "Y", "Z">>, 1, Len(e.lim)), "the axes are not labelled X, Y (and Z)") \cup
         Ck(InView(w, e), "a variable is drawn outside the limits of the axes") \cup
         Ck(EqualScales(w, e), "the axes do not have equal scales") \cup
         Ck(SameMarks(e.mk, Marks(w, e)), "the markers are not the variables' positions") \cup
         Ck(SameBag(e.sg, Lines(w, e), SameLine), "the lines are not those of the measurements and between factors") \cup
         Ck(SameBag(e.ar, Arrows(w, e), SameArrow), "the arrows are not the directions of the poses") \cup
         Ck(SameRegions(e.rg, Regions(w, e)), "the covariance regions are not those of the variables' covariances") \cup
         Ck(e.ch = <<>>, "plotting changed a variable") \cup
         Ck(e.same = 1, "plotting changed the lists of variables and factors")

\* ---------------------------------------------------------------------- replay
Empty == [V |-> <<>>, F |-> <<>>]
Put(fn, k, v) == (k :> v) @@ fn
RECURSIVE Absorb(_, _, _)
Absorb(V, ch, i) == IF i > Len(ch) THEN V ELSE LET c == ch[i] IN Absorb(IF c.s \in DOMAIN V THEN [V EXCEPT ![c.s].x = c.x, ![c.s].c = (c.c = 1)] ELSE V, ch, i + 1)
Step(w, e) ==
    LET u == CASE e.op = "var" /\ e.ok = 1 -> [w EXCEPT !.V = Put(@, e.s, New(e.k, e.id, e.c = 1, e.d))]
               [] e.op = "clone" /\ e.ok = 1 -> [w EXCEPT !.V = Put(@, e.to, w.V[e.s])]
               [] e.op = "fac" /\ e.ok = 1 -> [w EXCEPT !.F = Put(@, e.s, [k |-> e.k, id |-> e.id, vs |-> e.fv, d |-> e.d, n |-> e.n])]
               [] e.op = "end" -> Empty
               [] OTHER -> w
    IN [u EXCEPT !.V = Absorb(@, e.ch, 1)]
Bad(w, e) == CASE e.op = "plot" -> Plot(w, e)
               [] e.op = "crash" -> {"the process was killed by signal " \o Str(e.sig)}
               [] OTHER -> {}
VARIABLES pos, world
Init == pos = 1 /\ world = Empty
Next ==
    /\ pos <= Len(TraceLog)
    /\ LET e == TraceLog[pos]
       IN /\ \A b \in Bad(world, e) : PrintT("FAIL|P31|" \o Str(e.ep) \o "|" \o Str(pos) \o "|" \o e.op \o "|" \o b)
          /\ IF e.op = "plot" /\ e.ok = 1 THEN \A c \in Drawn(world, e) : PrintT("INFO|INFO|" \o Str(e.ep) \o "|" \o Str(pos) \o "|plot|" \o c[1] \o " " \o c[2]) ELSE TRUE
          /\ world' = Step(world, e)
    /\ pos' = pos + 1
Spec == Init /\ [][Next]_<<pos, world>>
View == pos
Done == pos <= Len(TraceLog) \/ PrintT("DONE|" \o Str(Len(TraceLog)))
=============================================================================
