// C20: all vectors, pairs, triples and matrices over small alphabets.
#include "vp.hh"
#include <string>
#include "ThreeVector.hh"
using namespace vp;
typedef long double ld;

static bool eq(double a, double b, double sc = 1) { return std::isfinite(a) && std::fabs(a - b) <= 1e-11 * std::max(1e-290, std::max(sc, std::fabs(b))); }
static bool veq(const ThreeVector& v, ld a, ld b, ld c, double sc = 1) { return eq(v[0], a, sc) && eq(v[1], b, sc) && eq(v[2], c, sc); }
static std::string str(const ThreeVector& v) { return fmt("(%.9g,%.9g,%.9g)", v[0], v[1], v[2]); }
static std::string str(const ThreeMatrix& m) { std::string r = "["; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r += fmt("%.6g ", m[i][j]); return r + "]"; }
static std::vector<ThreeVector> vecs(const std::vector<double>& a)
{
    std::vector<ThreeVector> r; for (double x : a) for (double y : a) for (double z : a) r.push_back(ThreeVector(x, y, z)); return r;
}
static bool same(const ThreeVector& a, const ThreeVector& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static ld mag(const ThreeVector& a) { return sqrtl((ld)a[0] * a[0] + (ld)a[1] * a[1] + (ld)a[2] * a[2]); }

static void rotation(const ThreeVector& a, const ThreeVector& b)
{
    ThreeMatrix R = a.RotateToAxis(b);
    ld ma = mag(a), mb = mag(b), d = 0;
    for (int i = 0; i < 3; i++) { ld s = a[i] / ma + b[i] / mb; d += s * s; }
    d = sqrtl(d);       // distance from exactly opposite
    double tol = 1e-9;
    if (d < 1) tol = std::max(tol, std::min(4e-5, 4e-15 / (double)(d * d + 1e-300)));
    if (d <= 1e-12) tol = 1e-9;
    for (int i = 0; i < 3; i++)
    {
        ld s = 0; for (int j = 0; j < 3; j++) s += R[i][j] * (a[j] / ma);
        if (!(fabsl(s - b[i] / mb) <= tol)) { fail("rotation of " + str(a) + " onto " + str(b) + " gives " + str(R) + fmt(" (component %d: %.12g)", i, (double)s)); return; }
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
    {
        ld s = 0; for (int k = 0; k < 3; k++) s += (ld)R[i][k] * R[j][k];
        if (!(fabsl(s - (i == j)) <= tol * 4)) { fail("rotation of " + str(a) + " onto " + str(b) + " is not orthogonal: " + str(R)); return; }
    }
    ld det = (ld)R[0][0] * ((ld)R[1][1] * R[2][2] - (ld)R[1][2] * R[2][1]) - (ld)R[0][1] * ((ld)R[1][0] * R[2][2] - (ld)R[1][2] * R[2][0])
           + (ld)R[0][2] * ((ld)R[1][0] * R[2][1] - (ld)R[1][1] * R[2][0]);
    if (!(fabsl(det - 1) <= tol * 8)) fail("rotation of " + str(a) + " onto " + str(b) + fmt(" has determinant %.12g", (double)det));
    // through the library's own operators, forth and back
    ThreeVector fwd = R * a, back = R.Inverse() * fwd;
    for (int i = 0; i < 3; i++)
        if (!(fabsl(fwd[i] / ma - b[i] / mb) <= tol * 2 && fabsl((back[i] - a[i]) / ma) <= tol * 4)) { fail("R*a or inverse(R)*R*a is wrong for " + str(a) + " " + str(b)); return; }
    count("rotations");
}

int main()
{
    init();
    bool T = thorough();
    std::vector<double> A = {-2, -1, -0.5, 0, 0.75, 1, 3}; if (T) A = {-1e3, -2, -1, -0.5, -1e-3, 0, 0.75, 1, 3, 1e4};
    std::vector<ThreeVector> V = vecs(A);
    for (size_t i = 0; i < V.size(); i++)
    {
        if (!begin("vector " + str(V[i]))) continue;
        const ThreeVector a = V[i]; ld x = a[0], y = a[1], z = a[2], m = mag(a);
        // one vector
        if (!eq(a.Mag(), m, m)) fail(fmt("Mag = %.15g", a.Mag()));
        if (!eq(a.Mag2(), m * m, m * m)) fail(fmt("Mag2 = %.15g", a.Mag2()));
        ThreeVector n = a.Norm(), n0 = m > 0 ? ThreeVector(x / m, y / m, z / m) : ThreeVector();
        if (!veq(n, n0[0], n0[1], n0[2])) fail("Norm = " + str(n));
        // the same vector very short and very long
        for (double s : {1e-60, 1e-30, 1e-17, 1e-12, 1e-9, 1e-4, 1e5, 1e16, 1e60})
        {
            ThreeVector b(a[0] * s, a[1] * s, a[2] * s), nb = b.Norm(), d = ThreeVector().Direction(b); ld mb = mag(b);
            if (!veq(nb, n0[0], n0[1], n0[2])) fail(fmt("Norm of the vector times %g = ", s) + str(nb));
            if (!veq(d, n0[0], n0[1], n0[2])) fail(fmt("direction to the vector times %g = ", s) + str(d));
            if (!eq(b.Mag() / s, mb / s, mb / s) || !eq(b.Mag2() / s / s, mb * mb / s / s, mb * mb / s / s)) fail(fmt("length of the vector times %g = %.15g", s, b.Mag()));
            count("scaled_vectors");
        }
        for (double s : {-3.0, 0.0, 0.5, 7.0})
        {
            double sc = std::fabs(s) + (double)m + 1;
            if (!veq(a * s, x * s, y * s, z * s, sc * sc)) fail(fmt("vector * %g", s));
            if (!veq(s * a, x * s, y * s, z * s, sc * sc)) fail(fmt("%g * vector", s));
            if (!veq(a + s, x + s, y + s, z + s, sc)) fail(fmt("vector + %g", s));
            if (!veq(s + a, x + s, y + s, z + s, sc)) fail(fmt("%g + vector", s));
            if (!veq(a - s, x - s, y - s, z - s, sc)) fail(fmt("vector - %g", s));
            if (!veq(s - a, s - x, s - y, s - z, sc)) fail(fmt("%g - vector", s));
            if (s != 0 && !veq(a / s, x / s, y / s, z / s, sc)) fail(fmt("vector / %g", s));
            if (x != 0 && y != 0 && z != 0 && !veq(s / a, s / x, s / y, s / z, sc)) fail(fmt("%g / vector", s));
            count("scalar_operations", 8);
        }
        ThreeVector cp(a), as; as = a; as = *&as;
        if (!same(cp, a) || !same(as, a)) fail("copies differ");
        cp[1] = 42; if (cp[1] != 42 || cp[0] != a[0] || cp[2] != a[2] || a[1] != V[i][1]) fail("writing one element");
        // pairs
        for (size_t j = 0; j < V.size(); j++)
        {
            const ThreeVector b = V[j]; ld u = b[0], v = b[1], w = b[2], mb = mag(b); double sc = (double)(m * mb), ss = (double)(m + mb);
            if (!veq(a + b, x + u, y + v, z + w, ss)) fail("sum with " + str(b));
            if (!veq(a - b, x - u, y - v, z - w, ss)) fail("difference with " + str(b));
            if (!veq(a * b, x * u, y * v, z * w, sc)) fail("elementwise product with " + str(b));
            if (u != 0 && v != 0 && w != 0 && !veq(a / b, x / u, y / v, z / w)) fail("elementwise quotient with " + str(b));
            if (!eq(a.Dot(b), x * u + y * v + z * w, sc)) fail("dot product with " + str(b) + fmt(" = %.15g", a.Dot(b)));
            if (!veq(a.Cross(b), y * w - z * v, z * u - x * w, x * v - y * u, sc)) fail("cross product with " + str(b) + " = " + str(a.Cross(b)));
            ld dx = u - x, dy = v - y, dz = w - z, dm = sqrtl(dx * dx + dy * dy + dz * dz);
            ThreeVector d = a.Direction(b);
            if (dm > 0) { if (!veq(d, dx / dm, dy / dm, dz / dm)) fail("direction to " + str(b) + " = " + str(d)); }
            else if (!veq(d, 0, 0, 0)) fail("direction to itself = " + str(d));
            if (!same(a, V[i]) || !same(b, V[j])) fail("an operand was changed by an operation with " + str(b));
            if (m > 0 && mb > 0) { rotation(a, b); if (!same(a, V[i]) || !same(b, V[j])) fail("RotateToAxis changed an operand"); }
            count("vector_pairs");
            distinct(fmt("P%zu,%zu", i, j));
        }
        // nearly opposite, nearly parallel and differently scaled partners
        if (m > 0)
            for (double e : {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-6, 1e-8, 0.0}) for (int ax = 0; ax < 3; ax++) for (double s : {-1.0, 1.0, -1e4, 1e-3, -1e-6})
            {
                ThreeVector b(a[0] * s, a[1] * s, a[2] * s); b[ax] += e * (double)m * std::fabs(s);
                if (mag(b) > 0) { rotation(a, b); distinct(fmt("N%zu %g %d %g", i, e, ax, s)); }
            }
    }
    // identities over triples
    std::vector<ThreeVector> W = vecs(T ? std::vector<double>{-1, 0, 0.5, 2} : std::vector<double>{-1, 0, 2});
    for (size_t i = 0; i < W.size(); i++)
    {
        if (!begin("triples " + str(W[i]))) continue;
        for (auto& b : W) for (auto& c : W)
        {
            const ThreeVector& a = W[i];
            ThreeVector l = a.Cross(b.Cross(c)), r = b * a.Dot(c) - c * a.Dot(b);
            if (!veq(l, r[0], r[1], r[2], 20)) fail("a x (b x c) with " + str(b) + str(c));
            if (!eq(a.Dot(b.Cross(c)), b.Dot(c.Cross(a)), 20)) fail("triple product with " + str(b) + str(c));
            ThreeVector s1 = (a + b) + c, s2 = a + (b + c); if (!veq(s1, s2[0], s2[1], s2[2], 10)) fail("associativity");
            count("triples");
        }
    }
    // matrices
    std::vector<double> E = T ? std::vector<double>{-1, 0, 0.5, 2} : std::vector<double>{-1, 0, 2};
    size_t k = E.size(), N = 1; for (int i = 0; i < 9; i++) N *= k;
    std::vector<ThreeMatrix> P;
    { unsigned s = 12345; for (int p = 0; p < 40; p++) { ThreeMatrix m; for (int i = 0; i < 9; i++) { s = s * 1664525u + 1013904223u; m[i / 3][i % 3] = (double)((int)((s >> 16) % 7) - 3); } P.push_back(m); } }
    for (size_t c = 0; c < N; c += 81)
    {
        if (!begin(fmt("matrices %zu", c))) continue;
        for (size_t q = c; q < std::min(N, c + 81); q++)
        {
            ThreeMatrix m; size_t r = q; ld e[3][3];
            for (int i = 0; i < 9; i++) { e[i / 3][i % 3] = m[i / 3][i % 3] = E[r % k]; r /= k; }
            const ThreeMatrix M(m);
            ld det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
            if (!eq(M.Determinant(), det, 30)) fail("determinant of " + str(M) + fmt(" = %.12g", M.Determinant()));
            if (det != 0)
            {
                ThreeMatrix I = M.Inverse(), L = I * M, R = M * I;
                for (int i = 0; i < 9; i++)
                    if (!eq(L[i / 3][i % 3], i % 4 == 0, 1e3) || !eq(R[i / 3][i % 3], i % 4 == 0, 1e3)) { fail("inverse of " + str(M) + " = " + str(I)); break; }
                count("inverses");
                for (double f : {1e-7, 1e-40, 1e40})
                {
                    ThreeMatrix m2 = M * f, L2 = m2.Inverse() * m2;
                    for (int i = 0; i < 9; i++) if (!eq(L2[i / 3][i % 3], i % 4 == 0, 1e3)) { fail("inverse of " + str(m2)); break; }
                }
            }
            ThreeMatrix S = M * -2.5;
            for (int i = 0; i < 9; i++) if (!eq(S[i / 3][i % 3], -2.5L * e[i / 3][i % 3], 10)) { fail("scaled matrix"); break; }
            const ThreeMatrix& B = P[q % P.size()];
            ThreeMatrix AB = M * B, Sm = M + B;
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
            {
                ld s = 0; for (int l = 0; l < 3; l++) s += e[i][l] * B[l][j];
                if (!eq(AB[i][j], s, 30)) { fail("product of " + str(M) + " and " + str(B)); i = j = 3; break; }
                if (!eq(Sm[i][j], e[i][j] + B[i][j], 10)) { fail("sum of " + str(M) + " and " + str(B)); i = j = 3; break; }
            }
            for (const ThreeVector& v : {ThreeVector(1, -2, 3), ThreeVector(0, 0.5, 0), ThreeVector(4, 0, -1)})
            {
                ThreeVector w = M * v;
                for (int i = 0; i < 3; i++) { ld s = 0; for (int l = 0; l < 3; l++) s += e[i][l] * v[l]; if (!eq(w[i], s, 30)) { fail("matrix times vector: " + str(M) + str(v)); break; } }
            }
            for (int i = 0; i < 9; i++) if (M[i / 3][i % 3] != (double)e[i / 3][i % 3]) { fail("an operation changed the matrix"); break; }
            ThreeMatrix Z(M); Z.Zeros(); for (int i = 0; i < 9; i++) if (Z[i / 3][i % 3] != 0) { fail("Zeros"); break; }
            distinct(fmt("M%zu", q)); count("matrices");
        }
    }
    if (begin("identity"))
    {
        ThreeMatrix I; for (int i = 0; i < 9; i++) if (I[i / 3][i % 3] != 0) fail("a new matrix is not null");
        I.Ideneity(); for (int i = 0; i < 9; i++) if (I[i / 3][i % 3] != (i % 4 == 0)) fail("identity matrix");
        ThreeVector v; if (!veq(v, 0, 0, 0)) fail("a new vector is not null");
    }
    return finish();
}
