------------------------------ MODULE ThinFilm ------------------------------
(* Stacks of lossless films at normal incidence, exactly.  A film is <<n, e>>:*)
(* index n and phase thickness e eighths of a turn.  The characteristic      *)
(* matrix of a stack is [a  i b; i c  d] / (den * sqrt(2)^half) with integers. *)
EXTENDS Integers, Sequences
\* cosine and sine of e eighths of a turn, times sqrt 2 when e is odd
Cos8(e) == <<1, 1, 0, -1, -1, -1, 0, 1>>[(e % 8) + 1]
Sin8(e) == <<0, 1, 1, 1, 0, -1, -1, -1>>[(e % 8) + 1]
Film(f) == LET n == f[1]
               e == f[2]
           IN IF e % 4 = 0 THEN [a |-> Cos8(e), b |-> 0, c |-> 0, d |-> Cos8(e), den |-> 1, half |-> 0]
              ELSE [a |-> n*Cos8(e), b |-> Sin8(e), c |-> n*n*Sin8(e), d |-> n*Cos8(e), den |-> n, half |-> e % 2]
Nothing == [a |-> 1, b |-> 0, c |-> 0, d |-> 1, den |-> 1, half |-> 0]
\* light meets p first, then q
Then(p, q) == [a |-> p.a*q.a - p.b*q.c, b |-> p.a*q.b + p.b*q.d,
               c |-> p.c*q.a + p.d*q.c, d |-> p.d*q.d - p.c*q.b,
               den |-> p.den*q.den, half |-> p.half + q.half]
RECURSIVE Stack(_)
Stack(s) == IF s = <<>> THEN Nothing ELSE Then(Film(s[1]), Stack(Tail(s)))
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2*Two(k-1)
\* square of the scale of the matrix
Scale2(m) == m.den*m.den*Two(m.half)
\* reflection is Up/Down and transmission 2 n0 den sqrt(2)^half / Down
Up(m, n0, ns) == <<m.a*n0 - m.d*ns, m.b*ns*n0 - m.c>>
Down(m, n0, ns) == <<m.a*n0 + m.d*ns, m.b*ns*n0 + m.c>>
Sq(z) == z[1]*z[1] + z[2]*z[2]
\* reflected and transmitted power are Sq(Up)/Sq(Down) and Passed/Sq(Down)
Passed(m, n0, ns) == 4*n0*ns*Scale2(m)
=============================================================================
