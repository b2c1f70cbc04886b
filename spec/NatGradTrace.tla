--------------------------- MODULE NatGradTrace ---------------------------
EXTENDS NatGrad, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
N == Len(e.o)
Pairs(v) == TLCEval([k \in 1..Dim(v) |-> At(v, k)])
Flat(z) == TLCEval([i \in 1..(2 * Len(z)) |-> z[(i + 1) \div 2][2 - (i % 2)]])
Ok == e.verdict = "ok"
(* ---- the T matrix: rank r holds the rows of its samples *)
TMatrix == LET G == Gram(Centered(e.o)) m == Flat([i \in 1..N |-> Row(e.o, i)]) IN
  /\ Ok /\ N = e.nl * e.ranks /\ Len(e.rk) = e.ranks
  /\ \A r \in 1..e.ranks : LET x == e.rk[r] IN
       /\ x.exact /\ x.nl = e.nl /\ x.ng = N /\ Len(x.rows) = e.nl /\ x.all = m /\ x.c = All(e.o)
       /\ x.loc = SubSeq(m, 2 * e.nl * (r - 1) + 1, 2 * e.nl * r)
       /\ \A i \in 1..e.nl : x.rows[i] = Flat(G[e.nl * (r - 1) + i])
(* ---- pseudo-inverse of a matrix with known eigenvectors H(., k) u *)
Unit(q) == CASE q = 0 -> <<1, 0>> [] q = 1 -> <<0, 1>> [] q = 2 -> <<-1, 0>> [] q = 3 -> <<0, -1>>
Cut(lam) == e.r4 * MaxAbs(lam) + e.a4
Eigen == IF e.solver = 2 THEN \A r \in 1..Len(e.rk) : e.rk[r].thrown
  ELSE LET m == Len(e.lam) h == Cut(e.lam) z == Pairs(e.rhs)
           Vk(k, i) == Sc(H(i - 1, k - 1), Unit(e.u[i]))
           Proj(k) == SumC([i \in 1..m |-> CMul(Conj(Vk(k, i)), z[i])], m)
           pr == TLCEval([k \in 1..m |-> Proj(k)])  L == TLCEval([k \in 1..m |-> Inv(e.lam[k], h, e.soft)])
           Want(i) == SumC([k \in 1..m |-> Sc(L[k], CMul(Vk(k, i), pr[k]))], m)
           tol == m * 60 + 50
       IN /\ Ok /\ Len(e.rk) > 0
          /\ \A r \in 1..Len(e.rk) : ~e.rk[r].thrown /\ e.rk[r].fine /\ Len(e.rk[r].y) = 2 * m
                /\ \A i \in 1..m : LET w == Want(i) IN Abs(m * e.rk[r].y[2 * i - 1] - w[1]) <= tol /\ Abs(m * e.rk[r].y[2 * i] - w[2]) <= tol
(* ---- a MinSR step on samples O_i[k] = a_k H(i, k) + b_k, where every direction has its own eigenvalue |a_k|^2 *)
Designed == LET m == Len(e.o) a == Pairs(e.a) b == Pairs(e.b) z == Pairs(e.en) np == Len(a)
                lam == TLCEval([k \in 1..m |-> IF k <= np THEN a[k][1] * a[k][1] + a[k][2] * a[k][2] ELSE 0])  h == Cut(lam)
                Want(k) == Sc(e.lr4 * Inv(lam[k], h, e.soft), CMul(a[k], SumC([i \in 1..m |-> Sc(H(i - 1, k), Conj(z[i]))], m)))
            IN /\ Ok /\ e.fine /\ e.norm /\ e.others
               /\ \A i \in 1..m : \A k \in 1..np : At(e.o[i], k) = Plus(Sc(H(i - 1, k), a[k]), b[k])
               /\ \A k \in 1..np : LET w == Want(k) tol == 4 * (400 + 6 * m) IN Abs(4 * m * e.v[2 * k - 1] - w[1]) <= tol /\ Abs(4 * m * e.v[2 * k] - w[2]) <= tol
(* ---- any samples: v = lr delta (scaled by sc), S' v = lr N g', v a combination of the centered samples (y is a witness, scaled by 100 sc) *)
RECURSIVE Size(_, _)
Size(v, k) == IF k = 0 THEN 0 ELSE Size(v, k - 1) + Abs(v[k])
Near(x, y, t) == \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= t
RowBound(B) == TLCEval([i \in 1..Len(B) |-> Size(B[i], Len(B[i]))])
SumN(q, k) == Size(q, k)
Spread(B) == LET s == RowBound(B) IN TLCEval([i \in 1..Len(B) |-> s[i] * s[i]])
MinStep == LET B == Centered(e.o) E == Pairs(e.en) s == SumN(Spread(B), N) IN
  /\ Ok /\ e.fine /\ e.norm /\ e.others
  /\ Near(ScaleV(4, Apply(B, e.v)), ScaleV(e.lr4 * N * e.sc, Gradient(B, E)), 4 * s + 4)
  /\ Near(Combine(Pairs(e.y), B), ScaleV(100, e.v), SumN(RowBound(B), N) + 100)
(* ---- the SR matrix and the regularised step (S + shift) x = g *)
Product == LET B == Centered(e.o) IN Ok /\ e.exact /\ e.res = AddV(ScaleV(4, Apply(B, e.v)), ScaleV(e.shift4 * N * N * N, e.v))
SrStep == LET B == Centered(e.o) s == SumN(Spread(B), N) IN
  /\ Ok /\ e.fine /\ e.norm /\ e.step /\ e.others
  /\ Near(AddV(ScaleV(4, Apply(B, e.x)), ScaleV(e.shift4 * N * N * N, e.x)), ScaleV(4 * N * N * N * e.sc, e.g), 4 * s + e.shift4 * N * N * N + 4)
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "tmat" -> TMatrix
       [] e.op = "eig" -> Eigen
       [] e.op = "had" -> Designed
       [] e.op = "min" -> MinStep
       [] e.op = "prod" -> Product
       [] e.op = "sr" -> SrStep
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
