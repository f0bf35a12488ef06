// The second translation unit of programs that use all the algebras: see together.py.
#define USE(A, N, G) namespace together_##A { double used(double x) { using namespace A; auto v = x * e1; auto w = gp(v, pseudoscalar()); return double(take_grade(gp(w, w), c<0>)) + N + G; } }
USE(ga1c, 3, 1) USE(ga2c, 4, 2) USE(ga3c, 5, 3)
USE(ga1e, 1, 1) USE(ga2e, 2, 2) USE(ga3e, 3, 3) USE(ga4e, 4, 4) USE(ga5e, 5, 5)
USE(ga1h, 2, 1) USE(ga2h, 3, 2) USE(ga3h, 4, 3) USE(ga4h, 5, 4)
USE(ga1m, 3, 1) USE(ga2m, 4, 2) USE(ga3m, 5, 3)
USE(ga1p, 2, 1) USE(ga2p, 3, 2) USE(ga3p, 4, 3) USE(ga4p, 5, 4)
