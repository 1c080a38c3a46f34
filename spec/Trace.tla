-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* The trace specification: replays what the real library did and prints   *)
(* every clause a step violates.  The only behaviour is the recorded one;  *)
(* after each step the world takes over the values that were observed, so  *)
(* one wrong step does not discredit the following ones.                   *)
(***************************************************************************)
EXTENDS JOpt, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

JNote(w, e) ==
    CASE e.txt = "rel" -> ResF(w, RelBad(w, e), "P23")
      [] e.txt = "path" -> ResF(w, PathBad(w, e), "P20")
      [] e.txt = "twins" -> \* the two variables went through the same operations: they must agree (P09)
            LET a == w.R[e.n[1]]  b == w.R[e.n[2]]
            IN ResF(w, Ck(a.c = b.c /\ a.n = b.n /\ SameVec(a.x, b.x) /\ Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : SameVec(a.a[i], b.a[i]),
                          "P09", "a variable and its clone responded differently to the same operations"), "P09")
      [] OTHER -> Res(w, {})

\* (JPy, loaded in place of this for traces of the Python module, may add operations)
Act(w, e) ==
    CASE e.op = "var"   -> JVarNew(w, e)
      [] e.op = "vset"  -> JVarSet(w, e)
      [] e.op = "vinc"  -> JVarInc(w, e)
      [] e.op = "vm"    -> JVarMem(w, e)
      [] e.op = "setc"  -> JSetConst(w, e)
      [] e.op = "clone" -> JClone(w, e)
      [] e.op = "drop"  -> JDrop(w, e)
      [] e.op = "fac"   -> JFac(w, e)
      [] e.op = "facq"  -> JFacq(w, e)
      [] e.op = "arm"   -> JArm(w, e)
      [] e.op = "fres"  -> JFres(w, e)
      [] e.op = "fjac"  -> JFjac(w, e)
      [] e.op = "fd"    -> JFd(w, e)
      [] e.op = "numj"  -> JNumJ(w, e)
      [] e.op = "huber" -> JHuber(w, e)
      [] e.op = "exp"   -> JExp(w, e)
      [] e.op = "log"   -> JLog(w, e)
      [] e.op = "explog" -> JExpLog(w, e)
      [] e.op = "skew"  -> JSkew(w, e)
      [] e.op = "unskew" -> JUnskew(w, e)
      [] e.op = "ijac"  -> JIJac(w, e)
      [] e.op = "sw"    -> JSw(w, e)
      [] e.op = "addv"  -> JAddV(w, e)
      [] e.op = "addf"  -> JAddF(w, e)
      [] e.op = "getv"  -> JGetV(w, e)
      [] e.op = "lists" -> JLists(w, e)
      [] e.op = "fin"   -> JFin(w, e)
      [] e.op = "lay"   -> JLay(w, e)
      [] e.op = "print" -> JPrint(w, e)
      [] e.op = "pvars" -> JPVars(w, e)
      [] e.op = "pjac"  -> JPJac(w, e)
      [] e.op = "vprint" -> JVPrint(w, e)
      [] e.op = "flags" -> JFlags(w, e)
      [] e.op = "resid" -> JResid(w, e)
      [] e.op = "jac"   -> JJac(w, e)
      [] e.op = "sjac"  -> JSJac(w, e)
      [] e.op = "both"  -> JBoth(w, e)
      [] e.op = "acc"   -> JAcc(w, e)
      [] e.op = "getx"  -> JGetX(w, e)
      [] e.op = "setx"  -> JSetX(w, e)
      [] e.op = "incx"  -> JIncX(w, e)
      [] e.op = "ftest" -> JFTest(w, e)
      [] e.op = "setup" -> JSetup(w, e)
      [] e.op = "run"   -> JRun(w, e)
      [] e.op = "wit"   -> JWit(w, e)
      [] e.op = "prep"  -> JPrep(w, e)
      [] e.op = "pcov"  -> JPCov(w, e)
      [] e.op = "cov"   -> JCov(w, e)
      [] e.op = "note"  -> JNote(w, e)
      [] e.op = "crash" -> Res(w, {<<"CRASH", "the process was killed by signal " \o Str(e.sig)>>})
      [] e.op = "end"   -> Res(Fresh, {})
\* ------------------------------------------------ what happened to the variables
Observed(v, c) == [v EXCEPT !.x = c.x, !.c = (c.c = 1)]
ChangeBad(r, c) ==
    LET w == r.w
    IN IF c.s \notin DOMAIN w.V THEN {<<r.fp, "an unknown variable appeared">>}
       ELSE LET v == w.V[c.s]  o == Observed(v, c)
            IN Ck(c.t = TypeCode[v.k] /\ c.n = Len(c.x) /\ c.id = v.id, "P07", "type(), size() or id() of a " \o v.k \o " is wrong") \cup
               (IF Len(c.x) # Len(v.x) THEN {<<"P07", "value() of a " \o v.k \o " has the wrong size">>}
                ELSE { <<"P07", t \o " of a " \o v.k \o " does not describe the same state as value()">> : t \in IF RAllFinite(c.x) THEN BadViews(o, c.a) ELSE {} } \cup
                     (IF c.s \in DOMAIN r.exp
                      THEN Ck(SameValue(v.k, c.x, r.exp[c.s].x), r.xp, "a " \o v.k \o " has the wrong value after the call") \cup
                           Ck(o.c = v.c, r.xp, "the constant flag changed") \cup
                           Ck(~r.man \/ OnManifold(o), "P07", "a " \o v.k \o " left its manifold") 
                      ELSE IF c.s \in r.free THEN Ck(~RAllFinite(c.x) \/ OnManifold(o), "P07", "a " \o v.k \o " left its manifold")
                      ELSE Ck(SameValue(v.k, c.x, v.x) /\ (v.k \in {"pose", "rot", "pose2"} \/ SameVec(c.x, v.x)) /\ o.c = v.c, r.fp,
                              "the call changed a " \o v.k \o " it must not change")))
Slots(e) == { e.ch[i].s : i \in 1..Len(e.ch) }
\* variables that should have changed but were not recorded as changed
Missed(r, e) == UNION { Ck(SameValue(r.w.V[s].k, IF s \in DOMAIN r.w.R THEN r.w.R[s].x ELSE <<>>, r.exp[s].x), r.xp,
                           "a " \o r.w.V[s].k \o " has the wrong value after the call") : s \in DOMAIN r.exp \ Slots(e) }
RECURSIVE Absorb(_, _, _)
Absorb(w, ch, i) ==
    IF i > Len(ch) THEN w
    ELSE LET c == ch[i]
         IN Absorb(IF c.s \in DOMAIN w.V THEN [w EXCEPT !.V[c.s] = Observed(@, c), !.R = Put(@, c.s, c)] ELSE w, ch, i + 1)

Fails(r, e) == r.f \cup UNION { ChangeBad(r, e.ch[i]) : i \in 1..Len(e.ch) } \cup Missed(r, e)
\* where the value of an expected variable was not recorded as changed, it is still the observed one
Settle(r, e) == Absorb([r.w EXCEPT !.V = [s \in DOMAIN @ |-> IF s \in DOMAIN r.w.R /\ s \notin Slots(e) THEN [@[s] EXCEPT !.x = r.w.R[s].x] ELSE @[s]]], e.ch, 1)

VARIABLES pos, world
Init == pos = 1 /\ world = Fresh
Next ==
    /\ pos <= Len(TraceLog)
    /\ LET e == TraceLog[pos]
           r == Act(world, e)
           bad == Fails(r, e)
       IN /\ \A b \in bad : PrintT((IF b[1] = "INFO" THEN "INFO|" ELSE "FAIL|") \o b[1] \o "|" \o Str(e.ep) \o "|" \o Str(pos) \o "|" \o e.op \o "|" \o b[2])
          /\ world' = IF e.op \in {"end", "crash"} THEN Fresh ELSE Settle(r, e)
    /\ pos' = pos + 1
Spec == Init /\ [][Next]_<<pos, world>>
View == pos
Done == pos <= Len(TraceLog) \/ PrintT("DONE|" \o Str(Len(TraceLog)))
=============================================================================
