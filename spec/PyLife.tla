------------------------------- MODULE PyLife -------------------------------
(***************************************************************************)
(* What a Python program may hold on to, and what it must read there.      *)
(*                                                                         *)
(* The problem: variables A and B in the graphs G and H (B's own handle is *)
(* gone from the beginning), K a constant that no graph owns, F the factor *)
(* B - A - K, O an optimizer set up for one of the graphs; priors pin A    *)
(* and B so that the optimum is known.  Derived handles: V = A.value(),    *)
(* R = G.residual(), J = G.jacobian(), L = G.get_all_variables(),          *)
(* E = G.get_all_factors(), W = F.variables(), S = O.settings(),           *)
(* T = O.current_stats, C = a covariance, N = A.clone().                   *)
(*                                                                         *)
(* A handle that is dropped is not coming back; whether the object behind  *)
(* it survives is nobody's business: what the others show depends on the   *)
(* values alone.                                                           *)
(*   s.held   the handles a program holds                                  *)
(*   s.a, s.b the levels of A and B: i(nitial), s(et), o(ptimal)           *)
(*   s.og     the graph O was last set up for;  s.ran: it has run since    *)
(*   s.snap   the levels when an array or list was taken                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Base == {"A", "K", "F", "G", "H", "O"}
Derived == {"V", "R", "J", "L", "E", "W", "S", "T", "C", "N"}
Source == [V |-> {"A"}, R |-> {"G"}, J |-> {"G"}, L |-> {"G"}, E |-> {"G"}, W |-> {"F"}, S |-> {"O"}, T |-> {"O"}, C |-> {"O", "A"}, N |-> {"A"}]
NewProblem == [held |-> Base, a |-> "i", b |-> "i", og |-> "G", ran |-> FALSE, snap |-> <<>>]
Level(s) == <<s.a, s.b>>

Drop(s, x) == [s EXCEPT !.held = @ \ {x}, !.snap = [y \in DOMAIN @ \ {x} |-> @[y]]]
CanTake(s, x) == Source[x] \subseteq s.held /\ (x = "C" => s.ran)
Take(s, x) == [s EXCEPT !.held = @ \cup {x}, !.snap = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN Level(s) ELSE @[y]]]
\* handles can be had again from what refers to the same object
CanFind(s, x) == /\ x \notin s.held
                 /\ CASE x = "A" -> s.held \cap {"G", "H", "L", "W", "F"} # {}
                      [] x = "K" -> s.held \cap {"F", "W"} # {}
                      [] x = "F" -> s.held \cap {"G", "H", "E"} # {}
                      [] OTHER -> FALSE
Find(s, x) == [s EXCEPT !.held = @ \cup {x}]
Set(s) == [s EXCEPT !.a = "s"]                                  \* A.set_value_from_vector
Reset(s) == [s EXCEPT !.a = "i", !.b = "i"]                     \* graph.set_variable_values_from_vector
Optimize(s) == [s EXCEPT !.a = "o", !.b = "o", !.ran = TRUE]
Setup(s, g) == [s EXCEPT !.og = g, !.ran = FALSE]

Enabled(s, op) ==
    CASE op[1] = "drop" -> op[2] \in s.held
      [] op[1] = "take" -> op[2] \in Derived /\ CanTake(s, op[2])
      [] op[1] = "find" -> CanFind(s, op[2])
      [] op[1] = "set" -> "A" \in s.held
      [] op[1] = "reset" -> op[2] \in s.held
      [] op[1] = "opt" -> "O" \in s.held
      [] op[1] = "setup" -> {"O", op[2]} \subseteq s.held
Apply(s, op) ==
    CASE op[1] = "drop" -> Drop(s, op[2]) [] op[1] = "take" -> Take(s, op[2]) [] op[1] = "find" -> Find(s, op[2]) [] op[1] = "set" -> Set(s)
      [] op[1] = "reset" -> Reset(s) [] op[1] = "opt" -> Optimize(s) [] op[1] = "setup" -> Setup(s, op[2])
Ops == { <<"drop", x>> : x \in Base \cup Derived } \cup { <<"take", x>> : x \in Derived } \cup { <<"find", x>> : x \in {"A", "K", "F"} } \cup
       { <<"set", "A">>, <<"reset", "G">>, <<"reset", "H">>, <<"opt", "O">>, <<"setup", "G">>, <<"setup", "H">> }

\* The levels at which a handle may show its object.  Live handles show the present; an array of a variable may be a copy or
\* a view of it; everything else that was taken shows what it showed when it was taken.
MayShow(s, x) == IF x \in {"A", "K", "F", "G", "H", "O", "L", "E", "W", "S", "T"} THEN {Level(s)}
                 ELSE IF x = "V" THEN {s.snap[x], Level(s)} ELSE {s.snap[x]}
=============================================================================
