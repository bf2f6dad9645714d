------------------------------- MODULE Arith -------------------------------
(* Integer arithmetic within the 32 bits of TLC.  Lengths are "ticks" of 1/10000 point, factors *)
(* (rotations, colours, alphas) are scaled by 1/100000.                                           *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

\* a / b towards zero, down, and to the nearest (b > 0)
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Rnd(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b
CeilHalf(n) == (n + 1) \div 2

\* x * n / d, rounded, without overflow of x * n
MulDiv(x, n, d) == IF x < 0 THEN -(((-x) \div d) * n + (((-x) % d) * n + d \div 2) \div d)
                   ELSE (x \div d) * n + ((x % d) * n + d \div 2) \div d

\* p * q / 100000, |p| <= 10^8, |q| <= 2 * 10^5
MulQPos(p, q) == (((p \div 10000) * q) \div 10) + (((p % 10000) * q) \div 100000)
MulQ(p, q) == IF p < 0 THEN -MulQPos(-p, q) ELSE MulQPos(p, q)

\* sine and cosine of whole degrees
SinTab == << 0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643, 17365, 19081, 20791, 22495, 24192, 25882, 27564, 29237, 30902, 32557, 34202, 35837, 37461, 39073, 40674, 42262, 43837, 45399, 46947, 48481, 50000, 51504, 52992, 54464, 55919, 57358, 58779, 60182, 61566, 62932, 64279, 65606, 66913, 68200, 69466, 70711, 71934, 73135, 74314, 75471, 76604, 77715, 78801, 79864, 80902, 81915, 82904, 83867, 84805, 85717, 86603, 87462, 88295, 89101, 89879, 90631, 91355, 92050, 92718, 93358, 93969, 94552, 95106, 95630, 96126, 96593, 97030, 97437, 97815, 98163, 98481, 98769, 99027, 99255, 99452, 99619, 99756, 99863, 99939, 99985, 100000 >>
Sin(d) == LET m == d % 360 IN
          IF m <= 90 THEN SinTab[m + 1]
          ELSE IF m <= 180 THEN SinTab[180 - m + 1]
          ELSE IF m <= 270 THEN -SinTab[m - 180 + 1]
          ELSE -SinTab[360 - m + 1]
Cos(d) == Sin(d + 90)

\* matrices <<a, b, c, d, e, f>>: a to d scaled, e and f in ticks.  Mul(m, n): first m, then n.
Id == <<100000, 0, 0, 100000, 0, 0>>
Straight(m) == m[1] = 100000 /\ m[2] = 0 /\ m[3] = 0 /\ m[4] = 100000
Mul(m, n) == IF Straight(n) THEN << m[1], m[2], m[3], m[4], m[5] + n[5], m[6] + n[6] >>
             ELSE << MulQ(m[1], n[1]) + MulQ(m[2], n[3]), MulQ(m[1], n[2]) + MulQ(m[2], n[4]),
                MulQ(m[3], n[1]) + MulQ(m[4], n[3]), MulQ(m[3], n[2]) + MulQ(m[4], n[4]),
                MulQ(m[5], n[1]) + MulQ(m[6], n[3]) + n[5], MulQ(m[5], n[2]) + MulQ(m[6], n[4]) + n[6] >>
ApplyM(m, x, y) == IF Straight(m) THEN << x + m[5], y + m[6] >>
                   ELSE << MulQ(x, m[1]) + MulQ(y, m[3]) + m[5], MulQ(x, m[2]) + MulQ(y, m[4]) + m[6] >>
\* counter-clockwise rotation about a point
RotM(deg, x, y) == LET c == Cos(deg) s == Sin(deg) IN
                   Mul(<<100000, 0, 0, 100000, -x, -y>>, <<c, s, -s, c, x, y>>)
=============================================================================
