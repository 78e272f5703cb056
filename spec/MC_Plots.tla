------------------------------ MODULE MC_Plots ------------------------------
(* Facts about what is drawn, over all small grids and fields, and all short *)
(* histories of drawing on two figures.                                      *)
EXTENDS Plots
CONSTANTS V, MaxLen
VARIABLES g, figs, hist
vars == <<g, figs, hist>>
Pos == {<<0, 1>>, <<0, 2, 3>>, <<-1, 0, 2>>}
Vals == -V .. V
Init == /\ g \in [xs : Pos, ys : Pos, a : Vals, b : Vals, c : Vals]
        /\ figs = [i \in 1 .. 2 |-> Blank] /\ hist = [i \in 1 .. 2 |-> <<>>]
Grid(op(_, _)) == [p \in 1 .. Len(g.xs) * Len(g.ys) |->
                     op(g.xs[((p - 1) \div Len(g.ys)) + 1], g.ys[((p - 1) % Len(g.ys)) + 1])]
At(m, i, j) == m.z[j][i]
\* the stream function of a constant field is linear, that of a rotation has it as differences
Fx == Grid(LAMBDA x, y : g.a + g.c * y)
Fy == Grid(LAMBDA x, y : g.b + g.c * x)
S == Psi(g.xs, g.ys, Fx, Fy)
First == hist = [i \in 1 .. 2 |-> <<>>]
Small == g.xs = <<0, 1>> /\ g.ys = <<0, 1>> /\ g.c = 0
Linear == (First /\ g.c = 0) => \A i \in 1 .. Len(g.xs), j \in 1 .. Len(g.ys) :
             At(S, i, j) = g.a * (g.ys[j] - g.ys[1]) - g.b * (g.xs[i] - g.xs[1])
Derivative == First => \A i \in 1 .. Len(g.xs), j \in 1 .. Len(g.ys) :
             /\ j > 1 => At(S, i, j) - At(S, i, j - 1) = (g.a + g.c * g.ys[j]) * (g.ys[j] - g.ys[j - 1])
             /\ (i > 1 /\ j = 1) => At(S, i, 1) - At(S, i - 1, 1) = - (g.b + g.c * g.xs[i]) * (g.xs[i] - g.xs[i - 1])
\* a map has the value of the function at every point, so transposing the directions transposes it
M1 == MapOf(g.xs, g.ys, Grid(LAMBDA x, y : g.a * x + g.b * y + g.c * x * y))
PointValues == First => \A i \in 1 .. Len(g.xs), j \in 1 .. Len(g.ys) :
             At(M1, i, j) = g.a * g.xs[i] + g.b * g.ys[j] + g.c * g.xs[i] * g.ys[j]
\* the title bounds the values, and they are attained
TitleTight == First => LET v == Fx IN /\ \A p \in 1 .. Len(v) : MinOf(v) <= v[p] /\ v[p] <= MaxOf(v)
                             /\ MinOf(v) \in Range(v) /\ MaxOf(v) \in Range(v)
\* the bounding lines exist and are unique up to the resolution
Lines == (First /\ Small) => \A d \in 0 .. V : LET sd == Abs(g.a) + 1 IN
             /\ \E n \in 0 .. 600 * sd : AtWidth(100 * g.b + n, g.b, sd, d, 1)
             /\ \A n \in 0 .. 600 * sd : AtWidth(100 * g.b + n, g.b, sd, d, 1) <=> AtWidth(100 * g.b - n, g.b, sd, d, -1)
DegLines == (First /\ Small) => \A kind \in {"triangle", "cube"}, D \in 1 .. 3 : LET ls == DegreeLines(kind, D, V) IN
             /\ ls[1] = 1 /\ \A k \in 1 .. V - 1 : ls[k] < ls[k + 1]
             /\ ls[V] < Count(kind, D, V)

\* histories: every call adds to one figure
Draw(i) == /\ g.a = 1 /\ g.b = 2 /\ g.c = -1 /\ Len(g.xs) # Len(g.ys)
           /\ Len(hist[1]) + Len(hist[2]) < MaxLen
           /\ \E w \in {"curve", "map", "stream"} :
                /\ figs' = [figs EXCEPT ![i] =
                     CASE w = "curve"  -> [@ EXCEPT !.curves = Append(@, CurveOf(g.xs, g.xs)), !.title = DefaultTitle(g.xs)]
                       [] w = "map"    -> [@ EXCEPT !.maps = Append(@, M1), !.title = DefaultTitle(Fx)]
                       [] w = "stream" -> [@ EXCEPT !.lines = Append(@, S)]]
                /\ hist' = [hist EXCEPT ![i] = Append(@, w)]
           /\ UNCHANGED g
Next == \E i \in 1 .. 2 : Draw(i)
Spec == Init /\ [][Next]_vars
Layers(f) == Len(f.curves) + Len(f.maps) + Len(f.lines)
OneEach == \A i \in 1 .. 2 : Layers(figs[i]) = Len(hist[i])
LastTitle == \A i \in 1 .. 2 : figs[i].title = "" <=> \A k \in 1 .. Len(hist[i]) : hist[i][k] = "stream"
Grows == [][\A i \in 1 .. 2 : /\ IsPrefix(figs[i].curves, figs'[i].curves) /\ IsPrefix(figs[i].maps, figs'[i].maps)
                              /\ IsPrefix(figs[i].lines, figs'[i].lines)]_vars
=============================================================================
