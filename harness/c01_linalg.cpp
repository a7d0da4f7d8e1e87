// C01: dense linear algebra against the textbook definitions.
#include "hp.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/Axpy.h"

using namespace hpgem::LinearAlgebra;
using pbt::Source;
using T = MiddleSizeVector::type;
using C = std::complex<double>;
static const double EPS = 2.3e-16;

static void asg(double& o, Source& s, double m) { o = s.chance(1, 3) ? (double)s.range(-4, 4) : s.real(-m, m); }
static void asg(C& o, Source& s, double m) {
    double a, b;
    asg(a, s, m);
    asg(b, s, m);
    o = C(a, b);
}
template <class X>
X num(Source& s, double m = 3) {
    X x;
    asg(x, s, m);
    return x;
}
static double cj(double x) { return x; }
static C cj(C x) { return std::conj(x); }

template <class X>
struct Ref {  // dense reference, row major
    std::size_t r, c;
    std::vector<X> a;
    Ref(std::size_t r_, std::size_t c_) : r(r_), c(c_), a(r_ * c_) {}
    X& operator()(std::size_t i, std::size_t j) { return a[i * c + j]; }
    X operator()(std::size_t i, std::size_t j) const { return a[i * c + j]; }
    double norm() const {
        double m = 0;
        for (auto& x : a) m = std::max(m, std::abs(x));
        return m;
    }
};
template <class X>
std::ostream& operator<<(std::ostream& o, const Ref<X>& m) {
    o << m.r << "x" << m.c << "[";
    for (std::size_t i = 0; i < m.r; ++i) {
        for (std::size_t j = 0; j < m.c; ++j) o << (j ? " " : "") << m(i, j);
        o << ";";
    }
    return o << "]";
}
template <class X>
Ref<X> mul(const Ref<X>& a, const Ref<X>& b) {
    Ref<X> r(a.r, b.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < b.c; ++j)
            for (std::size_t k = 0; k < a.c; ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
template <class X>
Ref<X> tr(const Ref<X>& a, bool herm = false) {
    Ref<X> r(a.c, a.r);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) r(j, i) = herm ? cj(a(i, j)) : a(i, j);
    return r;
}
template <class X>
X det(Ref<X> a) {  // Laplace expansion
    if (a.r == 0) return X(1);
    if (a.r == 1) return a(0, 0);
    X d = 0;
    for (std::size_t j = 0; j < a.c; ++j) {
        Ref<X> m(a.r - 1, a.c - 1);
        for (std::size_t i = 1; i < a.r; ++i)
            for (std::size_t k = 0, kk = 0; k < a.c; ++k)
                if (k != j) m(i - 1, kk++) = a(i, k);
        d += (j % 2 ? -1.0 : 1.0) * a(0, j) * det(m);
    }
    return d;
}
template <class X>
Ref<X> genRef(Source& s, std::size_t r, std::size_t c, double m = 3) {
    Ref<X> x(r, c);
    for (auto& v : x.a) v = num<X>(s, m);
    return x;
}
/// A non-singular matrix that needs pivoting: a row permutation of a
/// diagonally dominant matrix, rows scaled over several decades.
template <class X>
Ref<X> genRegular(Source& s, std::size_t n) {
    Ref<X> x = genRef<X>(s, n, n, 1);
    auto p = s.permutation(n);
    Ref<X> y(n, n);
    for (std::size_t i = 0; i < n; ++i) {
        double sum = 1;
        for (std::size_t j = 0; j < n; ++j) sum += std::abs(x(i, j));
        x(i, i) += (s.boolean() ? sum : -sum) * 1.5;
        double sc = std::pow(10., (double)s.range(-2, 2));
        for (std::size_t j = 0; j < n; ++j) y(p[i], j) = sc * x(i, j);
    }
    return y;
}
static MiddleSizeMatrix toM(const Ref<T>& a) {
    MiddleSizeMatrix m(a.r, a.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j) m(i, j) = a(i, j);
    return m;
}
static MiddleSizeVector toV(const Ref<T>& a) {
    MiddleSizeVector v(a.r * a.c);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = a.a[i];
    return v;
}
static void same(const MiddleSizeMatrix& m, const Ref<T>& a, double tol, const char* what) {
    PBT_CHECK(m.getNumberOfRows() == a.r && m.getNumberOfColumns() == a.c && m.size() == a.r * a.c,
              what << ": shape " << m.getNumberOfRows() << "x" << m.getNumberOfColumns()
                   << ", expected " << a.r << "x" << a.c);
    for (std::size_t i = 0; i < a.r; ++i)
        for (std::size_t j = 0; j < a.c; ++j)
            PBT_CLOSE(m(i, j), a(i, j), tol, what << " entry (" << i << "," << j << ")");
}
static void same(const MiddleSizeVector& v, const Ref<T>& a, double tol, const char* what) {
    PBT_CHECK(v.size() == a.r * a.c, what << ": length " << v.size());
    for (std::size_t i = 0; i < v.size(); ++i)
        PBT_CLOSE(v[i], a.a[i], tol, what << " entry " << i);
}
template <class X>
std::string str(const X& x) {
    std::ostringstream o;
    o << std::setprecision(17) << x;
    return o.str();
}
static std::size_t dim(Source& s, std::size_t lo = 1) {
    return s.chance(1, 12) ? s.range(9, 40) : s.range(lo, 7);
}

PBT_SUBCHECK(middleMatrixAlgebra, 30000, 300000) {
    std::size_t n = dim(s), m = dim(s), k = dim(s);
    Ref<T> a = genRef<T>(s, n, m), b = genRef<T>(s, n, m), c = genRef<T>(s, m, k);
    T sc = num<T>(s);
    s.note("A=" + str(a) + "\nB=" + str(b) + "\nC=" + str(c) + "\nscalar=" + str(sc));
    if (n != m && n > 1 && m > 1) s.nontrivial();
    MiddleSizeMatrix A = toM(a), B = toM(b), Cm = toM(c);
    const MiddleSizeMatrix cA = A;
    double tol = 200 * EPS * (1 + m);
    auto lin = [&](T x, T y) {
        Ref<T> r(n, m);
        for (std::size_t i = 0; i < r.a.size(); ++i) r.a[i] = x * a.a[i] + y * b.a[i];
        return r;
    };
    same(A + B, lin(1, 1), tol, "A+B");
    same(A - B, lin(1, -1), tol, "A-B");
    same(-A, lin(-1, 0), tol, "-A");
    same(cA * sc, lin(sc, 0), tol, "A*s");
    same(sc * A, lin(sc, 0), tol, "s*A");
    if (std::abs(sc) > 0.05) {
        same(A / sc, lin(T(1) / sc, 0), tol * 50, "A/s");
        MiddleSizeMatrix D = A;
        D /= sc;
        same(D, lin(T(1) / sc, 0), tol * 50, "A/=s");
    }
    MiddleSizeMatrix D = A;
    D += B;
    same(D, lin(1, 1), tol, "A+=B");
    D = A;
    D -= B;
    same(D, lin(1, -1), tol, "A-=B");
    D = A;
    D *= sc;
    same(D, lin(sc, 0), tol, "A*=s");
    D = A;
    D.axpy(sc, B);
    same(D, lin(1, sc), tol, "axpy");
    same(A * Cm, mul(a, c), tol * 9 * m, "A*C");
    same(cA * Cm, mul(a, c), tol * 9 * m, "A*C (const)");
    {
        Ref<T> q = genRef<T>(s, m, m);
        D = A;
        D *= toM(q);
        same(D, mul(a, q), tol * 9 * m, "A*=Q");
    }
    same(A.transpose(), tr(a), 0, "transpose");
    // vectors
    Ref<T> x = genRef<T>(s, m, 1), y = genRef<T>(s, n, 1);
    MiddleSizeVector X = toV(x), Y = toV(y);
    same(A * X, mul(a, x), tol * 9 * m, "A*x");
    same(cA * X, mul(a, x), tol * 9 * m, "A*x (const)");
    same(Y * A, mul(tr(y), a), tol * 9 * (n + m), "y*A");
    for (std::size_t j = 0; j < m; ++j) {
        Ref<T> col(n, 1);
        for (std::size_t i = 0; i < n; ++i) col(i, 0) = a(i, j);
        same(A.getColumn(j), col, 0, "getColumn");
    }
    for (std::size_t i = 0; i < n; ++i) {
        Ref<T> row(1, m);
        for (std::size_t j = 0; j < m; ++j) row(0, j) = a(i, j);
        same(A.getRow(i), row, 0, "getRow");
    }
    // column major flat access
    for (std::size_t i = 0; i < n * m; ++i)
        PBT_CLOSE(cA[i], a(i % n, i / n), 0, "flat access " << i);
    // concatenate: below each other
    std::size_t n2 = dim(s);
    Ref<T> e = genRef<T>(s, n2, m);
    D = A;
    D.concatenate(toM(e));
    Ref<T> st(n + n2, m);
    for (std::size_t j = 0; j < m; ++j) {
        for (std::size_t i = 0; i < n; ++i) st(i, j) = a(i, j);
        for (std::size_t i = 0; i < n2; ++i) st(n + i, j) = e(i, j);
    }
    same(D, st, 0, "concatenate");
    // next to each other
    Ref<T> side(n, 2 * m + 1);
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < m; ++j) side(i, j) = a(i, j), side(i, m + 1 + j) = b(i, j);
        side(i, m) = y(i, 0);
    }
    same(MiddleSizeMatrix{A, MiddleSizeMatrix(Y), B}, side, 0, "from columns");
    // copies are independent of their source
    MiddleSizeMatrix E(A);
    A(0, 0) += T(1);
    same(E, a, 0, "copy");
    MiddleSizeMatrix F(std::move(E));
    same(F, a, 0, "move");
    MiddleSizeMatrix G(n2, n2, sc);
    for (std::size_t i = 0; i < n2 * n2; ++i) PBT_CLOSE(G[i], sc, 0, "constant matrix");
    G = std::move(F);
    same(G, a, 0, "move assignment");
    G = G;
    same(G, a, 0, "self assignment");
    // Hermitian test
    if (n > 1) {
        Ref<T> h = genRef<T>(s, n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) h(j, i) = i == j ? T(std::real(h(i, i))) : cj(h(i, j));
        PBT_CHECK(toM(h).isHermitian(1e-12), "a Hermitian matrix is not recognised: " << h);
        std::size_t i = s.below(n), j = s.below(n);
        Ref<T> g = h;
        g(i, j) += (i == j) ? T(0) : T(0.5);
        if (i != j) PBT_CHECK(!toM(g).isHermitian(1e-3), "a non-Hermitian matrix passes: " << g);
    }
}

PBT_SUBCHECK(middleVectorAlgebra, 30000, 300000) {
    std::size_t n = dim(s, 0);
    Ref<T> a = genRef<T>(s, n, 1), b = genRef<T>(s, n, 1);
    T sc = num<T>(s);
    s.note("a=" + str(a) + "\nb=" + str(b) + "\nscalar=" + str(sc));
    if (n > 1) s.nontrivial();
    MiddleSizeVector A = toV(a), B = toV(b);
    double tol = 200 * EPS * (1 + n);
    auto lin = [&](T x, T y) {
        Ref<T> r(n, 1);
        for (std::size_t i = 0; i < n; ++i) r.a[i] = x * a.a[i] + y * b.a[i];
        return r;
    };
    same(A + B, lin(1, 1), tol, "a+b");
    same(A - B, lin(1, -1), tol, "a-b");
    same(-A, lin(-1, 0), tol, "-a");
    same(A * sc, lin(sc, 0), tol, "a*s");
    same(sc * A, lin(sc, 0), tol, "s*a");
    MiddleSizeVector D = A;
    D += B;
    same(D, lin(1, 1), tol, "a+=b");
    D = A;
    D -= B;
    same(D, lin(1, -1), tol, "a-=b");
    D = A;
    D *= sc;
    same(D, lin(sc, 0), tol, "a*=s");
    if (n > 0) {
        D = A;
        D.axpy(sc, B);
        same(D, lin(1, sc), tol, "axpy");
    }
    if (std::abs(sc) > 0.05) {
        same(A / sc, lin(T(1) / sc, 0), tol * 50, "a/s");
        D = A;
        D /= sc;
        same(D, lin(T(1) / sc, 0), tol * 50, "a/=s");
    }
    double nn = 0;
    T dot = 0;
    for (std::size_t i = 0; i < n; ++i) nn += std::norm(a.a[i]), dot += a.a[i] * b.a[i];
    PBT_CLOSE(A.l2NormSquared(), nn, tol * 20 * (n + 1), "l2NormSquared");
    PBT_CLOSE(A.l2Norm(), std::sqrt(nn), tol * 20 * (n + 1), "l2Norm");
    PBT_CLOSE(A * B, dot, tol * 20 * (n + 1), "bilinear product");
    PBT_CHECK(A == A && MiddleSizeVector(A) == A, "a vector differs from itself");
    // < is a strict order consistent with ==
    PBT_CHECK(!(A < A), "a<a");
    PBT_CHECK(!((A < B) && (B < A)), "a<b and b<a");
    if (!(A == B)) PBT_CHECK((A < B) || (B < A), "different vectors are not ordered");
    if (n > 0) {
        std::size_t i = s.below(n);
        MiddleSizeVector E = A;
        E[i] += T(1);
        PBT_CHECK(!(E == A), "vectors differing in entry " << i << " compare equal");
        PBT_CLOSE(A[i], a.a[i], 0, "writing to a copy changed the original");
    }
    std::size_t m = dim(s, 0);
    D = A;
    D.resize(m);
    PBT_CHECK(D.size() == m, "resize");
    for (std::size_t i = 0; i < std::min(n, m); ++i) PBT_CLOSE(D[i], a.a[i], 0, "resize loses entry " << i);
    D.set(sc);
    for (std::size_t i = 0; i < m; ++i) PBT_CLOSE(D[i], sc, 0, "set");
    if (n > 0) same(MiddleSizeVector(a.a.data(), n), a, 0, "from array");
}

static void residual(const Ref<T>& op, const Ref<T>& x, const Ref<T>& b, const char* what) {
    Ref<T> r = mul(op, x);
    double tol = 1000 * EPS * op.r * op.r * (op.norm() * x.norm() + b.norm());
    for (std::size_t i = 0; i < r.a.size(); ++i)
        PBT_CLOSE(r.a[i], b.a[i], tol, what << ": residual entry " << i);
}
static Ref<T> fromM(const MiddleSizeMatrix& m) {
    Ref<T> r(m.getNumberOfRows(), m.getNumberOfColumns());
    for (std::size_t i = 0; i < r.r; ++i)
        for (std::size_t j = 0; j < r.c; ++j) r(i, j) = m(i, j);
    return r;
}
static Ref<T> fromV(const MiddleSizeVector& v) {
    Ref<T> r(v.size(), 1);
    for (std::size_t i = 0; i < r.r; ++i) r.a[i] = v[i];
    return r;
}

PBT_SUBCHECK(middleSolvers, 20000, 200000) {
    std::size_t n = dim(s), k = s.range(1, 4);
    Ref<T> a = genRegular<T>(s, n), b = genRef<T>(s, n, k), v = genRef<T>(s, n, 1);
    s.note("A=" + str(a) + "\nB=" + str(b) + "\nv=" + str(v));
    if (n > 1) s.nontrivial();
    s.label(n > 8 ? "large" : "small");
    MiddleSizeMatrix A = toM(a), B = toM(b);
    MiddleSizeVector V = toV(v);
    A.solve(B);
    PBT_CHECK(B.getNumberOfRows() == n && B.getNumberOfColumns() == k, "solve changes the shape");
    residual(a, fromM(B), b, "solve(matrix)");
    A.solve(V);
    residual(a, fromV(V), v, "solve(vector)");
    same(A, a, 0, "solve changed the matrix");
    Ref<T> inv = fromM(A.inverse());
    PBT_CHECK(inv.r == n && inv.c == n, "inverse shape");
    Ref<T> id(n, n);
    for (std::size_t i = 0; i < n; ++i) id(i, i) = 1;
    residual(a, inv, id, "A*inverse(A)");
    same(A, a, 0, "inverse changed the matrix");
    // LU: the product of the factors is a row permutation of A
    {
        MiddleSizeMatrix LU = A.LUfactorisation();
        Ref<T> L(n, n), U(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) {
                if (i > j) L(i, j) = LU(i, j);
                if (i == j) L(i, j) = 1;
                if (i <= j) U(i, j) = LU(i, j);
            }
        Ref<T> P = mul(L, U);
        std::vector<bool> used(n, false);
        for (std::size_t i = 0; i < n; ++i) {
            bool found = false;
            for (std::size_t r = 0; r < n && !found; ++r) {
                if (used[r]) continue;
                double d = 0;
                for (std::size_t j = 0; j < n; ++j) d = std::max(d, std::abs(P(i, j) - a(r, j)));
                if (d <= 1e-11 * (1 + a.norm())) used[r] = found = true;
            }
            PBT_CHECK(found, "row " << i << " of L*U is not a row of A");
        }
    }
    // Hermitian positive definite: Cholesky
    {
        Ref<T> g = genRef<T>(s, n, n, 1);
        Ref<T> h = mul(g, tr(g, true));
        for (std::size_t i = 0; i < n; ++i) h(i, i) = std::real(h(i, i)) + 0.5;
        MiddleSizeMatrix Lm = toM(h);
        Lm.cholesky();
        Ref<T> L(n, n);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j <= i; ++j) L(i, j) = Lm(i, j);
        Ref<T> LLh = mul(L, tr(L, true));
        for (std::size_t i = 0; i < h.a.size(); ++i)
            PBT_CLOSE(LLh.a[i], h.a[i], 1000 * EPS * n * (1 + h.norm()), "L*L^H");
        MiddleSizeMatrix X = toM(b);
        Lm.solveCholesky(X);
        residual(h, fromM(X), b, "solveCholesky");
        // lower triangular solves; only the lower triangle may be used
        Side side = s.boolean() ? Side::OP_RIGHT : Side::OP_LEFT;
        Transpose t = s.pick({Transpose::NOT, Transpose::TRANSPOSE, Transpose::HERMITIAN_TRANSPOSE});
        Ref<T> op = t == Transpose::NOT ? L : tr(L, t == Transpose::HERMITIAN_TRANSPOSE);
        s.note(std::string("side ") + (side == Side::OP_LEFT ? "L" : "R") + " transpose " +
               std::to_string((int)t));
        s.label(std::string("trsm ") + (side == Side::OP_LEFT ? "L" : "R") + std::to_string((int)t));
        Ref<T> lrhs = side == Side::OP_LEFT ? genRef<T>(s, n, k) : genRef<T>(s, k, n);
        MiddleSizeMatrix Y = toM(lrhs);
        Lm.solveLowerTriangular(Y, side, t);
        if (side == Side::OP_LEFT)
            residual(op, fromM(Y), lrhs, "solveLowerTriangular left");
        else
            residual(tr(op), tr(fromM(Y)), tr(lrhs), "solveLowerTriangular right");
        MiddleSizeVector y = toV(v);
        Lm.solveLowerTriangular(y, side, t);
        residual(side == Side::OP_LEFT ? op : tr(op), fromV(y), v, "solveLowerTriangular vector");
    }
    // least squares
    {
        Ref<T> q = a;
        bool deficient = n > 1 && s.boolean();
        for (std::size_t i = 0; i < n; ++i) {  // undo the scaling, keep the rank easy to judge
            double m = 0;
            for (std::size_t j = 0; j < n; ++j) m = std::max(m, std::abs(q(i, j)));
            for (std::size_t j = 0; j < n; ++j) q(i, j) /= m;
        }
        if (deficient)
            for (std::size_t j = 0; j < n; ++j) q(n - 1, j) = q(0, j);
        MiddleSizeVector x = toV(v);
        toM(q).pseudoSolve(x, 1e-9);
        PBT_CHECK(x.size() == n, "pseudoSolve length");
        s.label(deficient ? "pseudoSolve deficient" : "pseudoSolve regular");
        // normal equations hold
        Ref<T> r = mul(q, fromV(x));
        for (std::size_t i = 0; i < n; ++i) r.a[i] -= v.a[i];
        Ref<T> nr = mul(tr(q, true), r);
        for (std::size_t i = 0; i < n; ++i)
            PBT_CLOSE(nr.a[i], T(0), 1e-9 * (1 + n) * (1 + fromV(x).norm()), "pseudoSolve: A^H(Ax-b) entry " << i);
        if (deficient && n > 1) {
            // minimum norm: orthogonal to the null space, i.e. in the range of q^H.
            // Solve q^H z = x in the least squares sense with a ridge-free check:
            // x must be reproduced by projecting on the rows of q (Gram-Schmidt).
            std::vector<std::vector<T>> basis;
            for (std::size_t i = 0; i + 1 < n; ++i) {
                std::vector<T> w(n);
                for (std::size_t j = 0; j < n; ++j) w[j] = cj(q(i, j));
                for (int pass = 0; pass < 2; ++pass)
                    for (auto& u : basis) {
                        T d = 0;
                        for (std::size_t j = 0; j < n; ++j) d += cj(u[j]) * w[j];
                        for (std::size_t j = 0; j < n; ++j) w[j] -= d * u[j];
                    }
                double nn = 0;
                for (auto& z : w) nn += std::norm(z);
                nn = std::sqrt(nn);
                for (auto& z : w) z /= nn;
                basis.push_back(w);
            }
            std::vector<T> rest(n);
            for (std::size_t j = 0; j < n; ++j) rest[j] = x[j];
            for (auto& u : basis) {
                T d = 0;
                for (std::size_t j = 0; j < n; ++j) d += cj(u[j]) * rest[j];
                for (std::size_t j = 0; j < n; ++j) rest[j] -= d * u[j];
            }
            for (std::size_t j = 0; j < n; ++j)
                PBT_CLOSE(rest[j], T(0), 1e-8 * (1 + fromV(x).norm()), "pseudoSolve: not the minimum norm solution");
        }
    }
}

template <std::size_t R, std::size_t K>
SmallMatrix<R, K> toS(const Ref<double>& a) {
    SmallMatrix<R, K> m;
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < K; ++j) m(i, j) = a(i, j);
    return m;
}
template <std::size_t R>
SmallVector<R> toSV(const Ref<double>& a) {
    SmallVector<R> v;
    for (std::size_t i = 0; i < R; ++i) v[i] = a.a[i];
    return v;
}
template <std::size_t R, std::size_t K>
void sameS(const SmallMatrix<R, K>& m, const Ref<double>& a, double tol, const char* what) {
    PBT_CHECK(a.r == R && a.c == K, what << " shape");
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < K; ++j)
            PBT_CLOSE(m(i, j), a(i, j), tol, what << " entry (" << i << "," << j << ")");
}
template <class X, std::size_t R>
void sameV(const GSmallVector<R, X>& v, const Ref<X>& a, double tol, const char* what) {
    PBT_CHECK(a.a.size() == R, what << " shape");
    for (std::size_t i = 0; i < R; ++i) PBT_CLOSE(v[i], a.a[i], tol, what << " entry " << i);
}

template <std::size_t R, std::size_t K>
void smallMatrixCase(Source& s) {
    Ref<double> a = genRef<double>(s, R, K), b = genRef<double>(s, R, K), c = genRef<double>(s, K, 3),
                x = genRef<double>(s, K, 1), y = genRef<double>(s, R, 1), q = genRef<double>(s, K, K);
    double sc = num<double>(s);
    s.note("A=" + str(a) + "\nB=" + str(b) + "\nscalar=" + str(sc));
    auto A = toS<R, K>(a), B = toS<R, K>(b);
    const auto cA = A;
    double tol = 2000 * EPS;
    auto lin = [&](double u, double w) {
        Ref<double> r(R, K);
        for (std::size_t i = 0; i < r.a.size(); ++i) r.a[i] = u * a.a[i] + w * b.a[i];
        return r;
    };
    sameS<R, K>(A + B, lin(1, 1), tol, "A+B");
    sameS<R, K>(A - B, lin(1, -1), tol, "A-B");
    sameS<R, K>(-A, lin(-1, 0), tol, "-A");
    sameS<R, K>(A * sc, lin(sc, 0), tol, "A*s");
    sameS<R, K>(sc * A, lin(sc, 0), tol, "s*A");
    auto D = A;
    D += B;
    sameS<R, K>(D, lin(1, 1), tol, "A+=B");
    D = A;
    D -= B;
    sameS<R, K>(D, lin(1, -1), tol, "A-=B");
    D = A;
    D *= sc;
    sameS<R, K>(D, lin(sc, 0), tol, "A*=s");
    D = A;
    D.axpy(sc, B);
    sameS<R, K>(D, lin(1, sc), tol, "axpy");
    if (std::abs(sc) > 0.05) {
        sameS<R, K>(A / sc, lin(1 / sc, 0), tol * 50, "A/s");
        D = A;
        D /= sc;
        sameS<R, K>(D, lin(1 / sc, 0), tol * 50, "A/=s");
    }
    sameS<R, 3>(A * toS<K, 3>(c), mul(a, c), tol * 10, "A*C");
    sameS<R, 3>(cA * toS<K, 3>(c), mul(a, c), tol * 10, "A*C const");
    D = A;
    D *= toS<K, K>(q);
    sameS<R, K>(D, mul(a, q), tol * 10, "A*=Q");
    auto X = toSV<K>(x);
    auto Y = toSV<R>(y);
    sameV<double, R>(A * X, mul(a, x), tol * 10, "A*x");
    sameV<double, R>(cA * X, mul(a, x), tol * 10, "A*x const");
    sameV<double, K>(Y * A, mul(tr(y), a), tol * 10, "y*A");
    sameS<K, R>(A.transpose(), tr(a), 0, "transpose");
    for (std::size_t j = 0; j < K; ++j)
        for (std::size_t i = 0; i < R; ++i) {
            PBT_CLOSE(A.getColumn(j)[i], a(i, j), 0, "getColumn");
            PBT_CLOSE(A.getRow(i)[j], a(i, j), 0, "getRow");
            PBT_CLOSE(cA[i + j * R], a(i, j), 0, "flat access");
        }
    // to and from the run-time sized type
    MiddleSizeMatrix M(A);
    PBT_CHECK(M.getNumberOfRows() == R && M.getNumberOfColumns() == K, "conversion shape");
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < K; ++j) PBT_CLOSE(M(i, j), T(a(i, j)), 0, "to MiddleSizeMatrix");
    sameS<R, K>(SmallMatrix<R, K>(M), a, 0, "from MiddleSizeMatrix");
}
template <std::size_t N>
void smallSquareCase(Source& s) {
    Ref<double> g = genRef<double>(s, N, N);
    s.note("G=" + str(g));
    double scale = 1;
    for (std::size_t i = 0; i < N; ++i) scale *= std::max(1., g.norm());
    PBT_CLOSE((toS<N, N>(g).determinant()), det(g), 1e4 * EPS * scale, "determinant");
    Ref<double> a = genRegular<double>(s, N), b = genRef<double>(s, N, 2), v = genRef<double>(s, N, 1);
    s.note("A=" + str(a));
    auto A = toS<N, N>(a);
    auto chk = [&](const Ref<double>& x, const Ref<double>& rhs, const char* w) {
        Ref<double> r = mul(a, x);
        for (std::size_t i = 0; i < r.a.size(); ++i)
            PBT_CLOSE(r.a[i], rhs.a[i], 1000 * EPS * N * N * (a.norm() * x.norm() + rhs.norm()), w);
    };
    auto B = toS<N, 2>(b);
    A.solve(B);
    Ref<double> X(N, 2);
    for (std::size_t i = 0; i < N; ++i)
        for (int j = 0; j < 2; ++j) X(i, j) = B(i, j);
    chk(X, b, "solve(matrix)");
    auto V = toSV<N>(v);
    A.solve(V);
    Ref<double> xv(N, 1);
    for (std::size_t i = 0; i < N; ++i) xv.a[i] = V[i];
    chk(xv, v, "solve(vector)");
    auto I = A.inverse();
    Ref<double> inv(N, N), id(N, N);
    for (std::size_t i = 0; i < N; ++i) {
        id(i, i) = 1;
        for (std::size_t j = 0; j < N; ++j) inv(i, j) = I(i, j);
    }
    chk(inv, id, "inverse");
    sameS<N, N>(A, a, 0, "solvers changed the matrix");
}
template <std::size_t N>
void wedgeCase(Source& s) {
    Ref<double> g = genRef<double>(s, N, N - 1), w = genRef<double>(s, N, 1);
    s.note("columns=" + str(g) + " w=" + str(w));
    auto n = toS<N, N - 1>(g).computeWedgeStuffVector();
    Ref<double> full(N, N);
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j + 1 < N; ++j) full(i, j) = g(i, j);
        full(i, N - 1) = w.a[i];
    }
    double dot = 0;
    for (std::size_t i = 0; i < N; ++i) dot += n[i] * w.a[i];
    // In four dimensions only the line up to orientation is promised.
    if (N < 4)
        PBT_CLOSE(dot, det(full), 1e-10, "the completing vector is not the generalised cross product");
    else
        PBT_CLOSE(std::abs(dot), std::abs(det(full)), 1e-9, "the completing vector is not the generalised cross product");
    Ref<T> gt(N, N - 1);
    for (std::size_t i = 0; i < g.a.size(); ++i) gt.a[i] = g.a[i];
    MiddleSizeVector m = toM(gt).computeWedgeStuffVector();
    PBT_CHECK(m.size() == N, "wedge length");
    for (std::size_t i = 0; i < N; ++i)
        PBT_CLOSE(m[i], T(n[i]), 1e-10, "run-time sized and fixed size completing vectors differ");
}
PBT_SUBCHECK(smallMatrices, 40000, 400000) {
    s.nontrivial();
    switch (s.below(12)) {
        case 0: smallMatrixCase<1, 1>(s); break;
        case 1: smallMatrixCase<2, 2>(s); break;
        case 2: smallMatrixCase<3, 3>(s); break;
        case 3: smallMatrixCase<4, 4>(s); break;
        case 4: smallMatrixCase<2, 1>(s); break;
        case 5: smallMatrixCase<3, 2>(s); break;
        case 6: smallMatrixCase<1, 3>(s); break;
        case 7: smallMatrixCase<4, 2>(s); break;
        case 8: smallMatrixCase<2, 3>(s); break;
        case 9: smallMatrixCase<3, 1>(s); break;
        case 10: smallMatrixCase<4, 3>(s); break;
        case 11: smallMatrixCase<5, 3>(s); break;
    }
    switch (s.below(5)) {
        case 0: smallSquareCase<1>(s); break;
        case 1: smallSquareCase<2>(s); break;
        case 2: smallSquareCase<3>(s); break;
        case 3: smallSquareCase<4>(s); break;
        case 4:
            wedgeCase<2>(s);
            wedgeCase<3>(s);
            wedgeCase<4>(s);
            break;
    }
}

template <class X, std::size_t N>
void smallVectorCase(Source& s) {
    Ref<X> a = genRef<X>(s, N, 1), b = genRef<X>(s, N, 1);
    X sc = num<X>(s);
    double d = num<double>(s);
    s.note("a=" + str(a) + " b=" + str(b) + " s=" + str(sc));
    GSmallVector<N, X> A, B;
    for (std::size_t i = 0; i < N; ++i) A[i] = a.a[i], B(i) = b.a[i];
    double tol = 2000 * EPS;
    auto lin = [&](X u, X w) {
        Ref<X> r(N, 1);
        for (std::size_t i = 0; i < N; ++i) r.a[i] = u * a.a[i] + w * b.a[i];
        return r;
    };
    sameV<X, N>(A + B, lin(1, 1), tol, "a+b");
    sameV<X, N>(A - B, lin(1, -1), tol, "a-b");
    sameV<X, N>(-A, lin(-1, 0), tol, "-a");
    sameV<X, N>(A * sc, lin(sc, 0), tol, "a*s");
    sameV<X, N>(sc * A, lin(sc, 0), tol, "s*a");
    sameV<X, N>(d * A, lin(d, 0), tol, "double*a");
    auto D = A;
    D += B;
    sameV<X, N>(D, lin(1, 1), tol, "+=");
    D = A;
    D -= B;
    sameV<X, N>(D, lin(1, -1), tol, "-=");
    D = A;
    D *= sc;
    sameV<X, N>(D, lin(sc, 0), tol, "*=");
    D = A;
    D.axpy(sc, B);
    sameV<X, N>(D, lin(1, sc), tol, "axpy");
    if (std::abs(sc) > 0.05) {
        sameV<X, N>(A / sc, lin(X(1) / sc, 0), tol * 50, "/");
        D = A;
        D /= sc;
        sameV<X, N>(D, lin(X(1) / sc, 0), tol * 50, "/=");
    }
    X dot = 0;
    double nn = 0;
    for (std::size_t i = 0; i < N; ++i) dot += a.a[i] * cj(b.a[i]), nn += std::norm(a.a[i]);
    PBT_CLOSE(A * B, dot, tol * 10, "inner product");
    PBT_CLOSE(A.l2NormSquared(), nn, tol * 10, "l2NormSquared");
    PBT_CLOSE(A.l2Norm(), std::sqrt(nn), tol * 10, "l2Norm");
    for (std::size_t i = 0; i < N; ++i) {
        PBT_CLOSE(A.real()[i], std::real(a.a[i]), 0, "real");
        PBT_CLOSE(A.imag()[i], std::imag(a.a[i]), 0, "imag");
        PBT_CLOSE(A.conj()[i], X(cj(a.a[i])), 0, "conj");
    }
    auto ap = A.append(sc);
    for (std::size_t i = 0; i <= N; ++i) PBT_CLOSE(ap[i], i < N ? a.a[i] : sc, 0, "append");
    PBT_CHECK(A == A && !(A < A), "order: reflexive");
    PBT_CHECK(!((A < B) && (B < A)), "order: both ways");
    PBT_CHECK((A == B) || (A < B) || (B < A), "order: not total");
    auto E = A;
    PBT_CHECK(E == A && E.hash() == A.hash(), "equal vectors hash differently");
    std::size_t i = s.below(N);
    E[i] += X(1);
    PBT_CHECK(!(E == A), "vectors that differ in entry " << i << " compare equal");
    // third vector for transitivity
    Ref<X> c = genRef<X>(s, N, 1, 1);
    GSmallVector<N, X> Cc;
    for (std::size_t i = 0; i < N; ++i) Cc[i] = s.boolean() ? A[i] : c.a[i];
    if (A < B && B < Cc) PBT_CHECK(A < Cc, "order: not transitive");
    if (Cc < A && A < B) PBT_CHECK(Cc < B, "order: not transitive");
}
PBT_SUBCHECK(smallVectors, 40000, 400000) {
    s.nontrivial();
    switch (s.below(8)) {
        case 0: smallVectorCase<double, 1>(s); break;
        case 1: smallVectorCase<double, 2>(s); break;
        case 2: smallVectorCase<double, 3>(s); break;
        case 3: smallVectorCase<double, 4>(s); break;
        case 4: smallVectorCase<C, 1>(s); break;
        case 5: smallVectorCase<C, 2>(s); break;
        case 6: smallVectorCase<C, 3>(s); break;
        case 7: smallVectorCase<C, 4>(s); break;
    }
    // cross products
    Ref<C> a = genRef<C>(s, 3, 1), b = genRef<C>(s, 3, 1);
    GSmallVector<3, C> A, B;
    GSmallVector<2, C> A2, B2;
    for (int i = 0; i < 3; ++i) A[i] = a.a[i], B[i] = b.a[i];
    for (int i = 0; i < 2; ++i) A2[i] = a.a[i], B2[i] = b.a[i];
    auto X = A.crossProduct(B);
    GSmallVector<3, C> X2;
    A.crossProduct(B, X2);
    for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        PBT_CLOSE(X[i], a.a[j] * b.a[k] - a.a[k] * b.a[j], 1e-12, "cross product");
        PBT_CLOSE(X2[i], X[i], 0, "cross product overloads");
        PBT_CLOSE(leftDoubledCrossProduct(A, B)[i], X[i], 0, "leftDoubledCrossProduct 3D");
    }
    auto Y = A2.crossProduct(B2);
    PBT_CLOSE(Y[0], a.a[0] * b.a[1] - a.a[1] * b.a[0], 1e-12, "2D cross product");
    PBT_CLOSE(Y[1], C(0), 0, "2D cross product second entry");
    // n x (n x u) for a vector in the plane, from the three dimensional product
    GSmallVector<3, C> N3, U3;
    for (int i = 0; i < 2; ++i) N3[i] = std::real(A2[i]), U3[i] = B2[i];
    auto in = N3.crossProduct(U3);
    GSmallVector<2, C> in2;
    in2[0] = in[2];
    auto out = N3.crossProduct(in);
    GSmallVector<2, C> n2;
    for (int i = 0; i < 2; ++i) n2[i] = N3[i];
    auto got = leftDoubledCrossProduct(n2, in2);
    for (int i = 0; i < 2; ++i) PBT_CLOSE(got[i], out[i], 1e-11, "leftDoubledCrossProduct 2D");
}

int main(int argc, char** argv) {
    return pbt::runMain(argc, argv, [] { hp::installLogger(); });
}
