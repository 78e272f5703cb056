---------------------------- MODULE MC_Equations ----------------------------
(* For all dynamics and small parameter values: forward operators conserve   *)
(* mass, generators annihilate constants, and the Gibbs density of the       *)
(* energy is stationary where the dynamics has one.  In addition the         *)
(* harmonic and the Ornstein-Uhlenbeck noises have their Gaussian density.   *)
EXTENDS Equations
CONSTANTS Names
VARIABLES name, p
vars == <<name, p>>
Rats == {<<1, 1>>, <<2, 1>>, <<1, 2>>}
Vs == {<<0, 0, 1>>, <<0, -1, 2>>, <<0, 1, 0, 0, 1>>, <<1, 0, -2, 1, 1>>}
As == {<<<<2, 1>>, <<1, 2>>>>, <<<<1, 0>>, <<0, 3>>>>, <<<<2, 1>>, <<-1, 1>>>>}
RA(a) == [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> <<a[i][j], 1>>]]
S == 64
Signed == {<<0, 1>>, <<1, 1>>, <<-3, 2>>}
Params(nm) ==
  CASE nm \in {"fp1d", "overdamped"} -> [v : Vs, beta : Rats]
    [] nm = "white" -> [v : Vs, beta : Rats, theta : Signed, m : Signed]
    [] nm = "ou" -> [v : Vs, s : {<<1, 1>>, <<1, 2>>}, gamma : {<<0, 1>>, <<1, 2>>}, eps : {<<1, 1>>, <<1, 2>>}, theta : {<<-1, 1>>}, m : {<<3, 1>>}, c : {<<1, 1>>, <<2, 1>>}, vy : {<<0, 0, 1>>, <<0, 1, 0, 2>>}]
    [] nm = "harmonic" -> [v : Vs, s : {<<1, 1>>, <<1, 2>>}, gamma : {<<0, 1>>, <<1, 2>>}, eps : {<<1, 1>>, <<1, 2>>}, theta : {<<-1, 1>>}, m : {<<3, 1>>}]
    [] nm = "langevinF" -> [lam : Rats]
    [] nm \in {"langevinB", "gle0"} -> [v : Vs, beta : Rats, gamma : Rats]
    [] nm = "gle1" -> [v : Vs, beta : Rats, lam : {<<r>> : r \in Rats}, A : {<<<<r>>>> : r \in Rats}]
    [] nm = "gle2" -> [v : Vs, beta : {<<1, 1>>, <<1, 2>>}, lam : {<<<<1, 1>>, <<2, 1>>>>, <<<<1, 2>>, <<0, 1>>>>}, A : {RA(a) : a \in As}]
Init == name \in Names /\ p \in Params(name)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Mass == Conserves(Forward(name, p, S), Dim(name))
Constants == WApply(Gen(name, p, S), WOne(Dim(name))) = WZero
Stationary == HasGibbs(name) => Gibbs(name, p, S)
Continuity == IsForward(name) => WAdd(Forward(name, p, S), Divergence(Gen(name, p, S), Dim(name))) = WZero
Involution == WAdj(Dim(name), Forward(name, p, S)) = Gen(name, p, S)
\* second order in the noisy directions only, and there with a non-negative coefficient
Order2 == \A q \in DOMAIN Gen(name, p, S) : SumSeq(q[2]) \in 1 .. 2
=============================================================================
