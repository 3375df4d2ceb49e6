-------------------------------- MODULE MCRel --------------------------------
(* Laws of the operator algebra, over all small inputs: two leaves with registers 0,1 and 2,3. *)
EXTENDS Rel
CONSTANTS V, C, M
VARIABLES a, b
vars == <<a, b>>
Rows == ((1..V) \X (1..V) \X (1..C))
Init == a \in UNION {[1..n -> Rows] : n \in 0..M} /\ b \in UNION {[1..n -> Rows] : n \in 0..M}
Next == UNCHANGED vars
None == [k |-> "empty"]
A == [k |-> "src", regs |-> <<0, 1>>, rows |-> a, l |-> None, r |-> None]
B == [k |-> "src", regs |-> <<2, 3>>, rows |-> b, l |-> None, r |-> None]
J(lo, ro) == [k |-> "hj", lo |-> lo, ro |-> ro, lk |-> 0, lt |-> <<1>>, rk |-> 2, rt |-> <<3>>, l |-> A, r |-> B]
Cp == [k |-> "cp", lo |-> FALSE, ro |-> FALSE, lt |-> <<0, 1>>, rt |-> <<2, 3>>, l |-> A, r |-> B]
E(n) == Eval(n, << >>, {})
BagOf(n, regs) == Bag(E(n), regs)
All == <<0, 1, 2, 3>>
Mass(n) == SumC(E(n))
F(reg, vals, ex, l) == [k |-> "filter", reg |-> reg, vals |-> vals, ex |-> ex, l |-> l, r |-> None]
U == [k |-> "union", parts |-> <<[l |-> A, map |-> <<<<0, 4>>, <<1, 5>>>>, init |-> << >>], [l |-> B, map |-> <<<<2, 4>>>>, init |-> <<5>>]>>, l |-> None, r |-> None]
Hg(regs, l) == [k |-> "hg", regs |-> regs, l |-> l, r |-> None]
Gb(d, regs, by, l) == [k |-> "gb", distinct |-> d, regs |-> regs, by |-> by, l |-> l, r |-> None]
Lim(nd, off, lim, l) == [k |-> "limit", nodup |-> nd, off |-> off, lim |-> lim, l |-> l, r |-> None]
Mn == [k |-> "minus", pairs |-> <<<<0, 2>>>>, l |-> A, r |-> B]
Nlj == [k |-> "nlj", l |-> A, r |-> B]
\* a join is a filtered product, and a nested loop over an independent right side is the product
JoinIsProduct == Bag(SelectSeq(E(Cp), LAMBDA w : w.r[0] = w.r[2]), All) = BagOf(J(FALSE, FALSE), All)
NestedIsProduct == BagOf(Nlj, All) = BagOf(Cp, All) /\ Mass(Cp) = Mass(A) * Mass(B)
\* an optional side keeps every row of the other one exactly once when it has no partner: join plus difference
OuterIsJoinPlusMinus == Mass(J(FALSE, TRUE)) = Mass(J(FALSE, FALSE)) + Mass(Mn)
   /\ Mass(J(TRUE, TRUE)) = Mass(J(FALSE, TRUE)) + Mass(J(TRUE, FALSE)) - Mass(J(FALSE, FALSE))
   /\ {w.r[1] : w \in Rng(E(J(FALSE, TRUE)))} = {w.r[1] : w \in Rng(E(A))}
Partition == \A v \in 1..V : Mass(F(0, <<v>>, FALSE, A)) + Mass(F(0, <<v>>, TRUE, A)) = Mass(A)
UnionAdds == Mass(U) = Mass(A) + Mass(B) /\ DOMAIN BagOf(U, <<4, 5>>) \subseteq {<<x, y>> : x \in 1..V, y \in (1..V) \cup {NULL}}
GroupKeeps == Mass(Hg(<<0>>, A)) = Mass(A) /\ BagOf(Hg(<<0, 1>>, A), <<0, 1>>) = BagOf(A, <<0, 1>>)
   /\ BagOf(Gb(FALSE, <<0, 1>>, <<0>>, A), <<0, 1>>) = BagOf(A, <<0, 1>>)
   /\ Mass(Gb(TRUE, <<0, 1>>, <<0>>, A)) = Cardinality({w.r[0] : w \in Rng(E(A))})
LimitSlices == \A o \in 0..2 : \A m \in 0..2 : LET n == Mass(A) IN
   /\ Mass(Lim(FALSE, o, m, A)) = (IF n <= o THEN 0 ELSE IF n - o < m THEN n - o ELSE m)
   /\ Expand(E(A)) = E(Lim(FALSE, 0, m, A)) \o E(Lim(FALSE, m, -1, A))
Spec == Init /\ [][Next]_vars
=============================================================================
