------------------------------- MODULE TraceFFT -------------------------------
EXTENDS TraceBase, FFT
VARIABLE done
TraceInit == TraceStart /\ done = 0
Tol == 2000           \* millionths of the last place
Prefix(r, n) == SubSeq(r, 1, n)
Tail2(r, n) == SubSeq(r, n + 1, Len(r))
Pre(n) == [i \in 1..n |-> (i - 1) * 256]
TraceNext == done' = done + 1 /\
  ( \/ Is("fft") /\ Ev.kept /\ Ev.err <= Tol /\ Ev.fre = DFTre(Ev.re, Ev.im) /\ Ev.fim = DFTim(Ev.re, Ev.im)
    \/ Is("rt") /\ Ev.kept /\ Ev.err <= Tol /\ Ev.gre = Ev.re /\ Ev.gim = Ev.im
                /\ Ev.dc = <<Sum(Ev.re), Sum(Ev.im)>> /\ Ev.energy = Ev.n * Energy(Ev.re, Ev.im)
    \/ (Is("conv") \/ Is("corr")) /\ Ev.kept /\ Ev.err <= Tol /\ Ev.ferr <= 20 * Tol
         /\ LET want == IF Ev.op = "conv" THEN Conv(Ev.a, Ev.b) ELSE Corr(Ev.a, Ev.b) IN
              Ev.d = Pre(Ev.pre) \o want /\ Ev.f = Pre(Ev.pre) \o want /\ Ev.c = want
    \/ Is("cx") /\ Ev.err = 0 /\ LET x == Ev.a[1] y == Ev.a[2] u == Ev.b[1] v == Ev.b[2] IN
         Ev.r = <<x + u, y + v, x * u - y * v, x * v + y * u, x * u - y * v, x * v + y * u, x, -y, x, y, x, y>>
    \/ Is("sig") /\ Ev.err <= Tol /\ Ev.r = Ev.x /\ Ev.d = [i \in 1..Len(Ev.x) |-> Ev.x[i] * (16 - Ev.x[i])]
    \/ Is("end") )
=============================================================================
