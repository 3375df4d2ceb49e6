--------------------------------- MODULE FFT ---------------------------------
(* Circular convolution, correlation and the discrete Fourier transform, over integers (the code's vectors scaled). *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Conv(a, b) == LET n == Len(a) IN [k \in 1..n |-> Sum([i \in 1..n |-> a[i] * b[((k - i) % n) + 1]])]
Corr(a, b) == LET n == Len(a) IN [k \in 1..n |-> Sum([i \in 1..n |-> a[i] * b[((i + k - 2) % n) + 1]])]
\* powers of exp(-2 pi i / n) for the n whose roots of unity are Gaussian integers
Root(n, e) == LET q == (e * (4 \div n)) % 4 IN CASE q = 0 -> <<1, 0>> [] q = 1 -> <<0, -1>> [] q = 2 -> <<-1, 0>> [] q = 3 -> <<0, 1>>
DFTre(re, im) == LET n == Len(re) IN [k \in 1..n |-> Sum([t \in 1..n |-> LET w == Root(n, (k - 1) * (t - 1)) IN re[t] * w[1] - im[t] * w[2]])]
DFTim(re, im) == LET n == Len(re) IN [k \in 1..n |-> Sum([t \in 1..n |-> LET w == Root(n, (k - 1) * (t - 1)) IN re[t] * w[2] + im[t] * w[1]])]
Energy(re, im) == Sum([t \in 1..Len(re) |-> re[t] * re[t] + im[t] * im[t]])
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
