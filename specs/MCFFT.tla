-------------------------------- MODULE MCFFT --------------------------------
(* The algebra the definitions must satisfy, over all small vectors. *)
EXTENDS FFT, FiniteSets
CONSTANTS N, M
VARIABLES a, b
V == UNION {[1..n -> (-M)..M] : n \in 1..N}
Init == /\ a \in V /\ b \in V /\ Len(a) = Len(b)
Next == UNCHANGED <<a, b>>
Rev(x) == [i \in 1..Len(x) |-> x[((1 - i) % Len(x)) + 1]]
Commutes == Conv(a, b) = Conv(b, a)
CorrIsConv == Corr(a, b) = Conv(Rev(a), b)
Mass == Sum(Conv(a, b)) = Sum(a) * Sum(b)
CorrZero == Corr(a, a)[1] = Energy(a, [i \in 1..Len(a) |-> 0])
\* the transform turns convolution into multiplication (lengths 1, 2, 4)
Theorem == Len(a) \in {1, 2, 4} => LET z == [i \in 1..Len(a) |-> 0]
     ar == DFTre(a, z) ai == DFTim(a, z) br == DFTre(b, z) bi == DFTim(b, z) c == Conv(a, b) IN
   /\ DFTre(c, z) = [k \in 1..Len(a) |-> ar[k] * br[k] - ai[k] * bi[k]]
   /\ DFTim(c, z) = [k \in 1..Len(a) |-> ar[k] * bi[k] + ai[k] * br[k]]
   /\ Energy(ar, ai) = Len(a) * Energy(a, z)
=============================================================================
