// C07: linear solvers and matrix utilities. A pool of matrices and stateful solvers of all kinds and scalar types; every
// interleaving of building, solving, changing or dropping the original matrices, bad arguments, and files on streams
// which end early or fail. Oracle: dense linear algebra written down directly.
#include "core.h"
#include "geometrycentral/numerical/linear_solvers.h"
#include <Eigen/Dense>
#include <complex>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace sim;
using namespace geometrycentral;

namespace {
enum Op7 { L_make, L_drop, L_change, L_solver, L_solve, L_solveInto, L_killSolver, L_quick, L_badArgs, L_stack, L_blocks, L_complexReal, L_checks, L_sparseIO, L_denseIO, L_fileIO, L_eigen, L_shift, L_COUNT };
const std::vector<std::string> lNames = {"makeMatrix", "dropMatrix", "changeMatrix", "buildSolver", "solve", "solveInto", "destroySolver", "quickSolve", "badArguments", "stack",
                                         "blockDecompose", "complexToReal", "checkFunctions", "sparseStream", "denseStream", "matrixFile", "eigenvectors", "shiftDiagonal"};
typedef std::complex<double> cd;

template <class T> struct Tr;
template <> struct Tr<double> { typedef double W; static double mk(double a, double) { return a; } static const char* n() { return "double"; } static double tol() { return 1e-9; } };
template <> struct Tr<float> { typedef double W; static float mk(double a, double) { return (float)a; } static const char* n() { return "float"; } static double tol() { return 2e-5; } };
template <> struct Tr<cd> { typedef cd W; static cd mk(double a, double b) { return cd(a, b); } static const char* n() { return "complex"; } static double tol() { return 1e-9; } };
template <class T> using WM = Eigen::Matrix<typename Tr<T>::W, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> using WV = Eigen::Matrix<typename Tr<T>::W, Eigen::Dynamic, 1>;

struct Src { // reproducible numbers
  Rng r;
  Src(u64 s) : r(s) {}
  template <class T> T num() { double a = r.real(-1, 1), b = r.real(-1, 1); return Tr<T>::mk(a, b); }
};

template <class T> WM<T> dense(const SparseMatrix<T>& m) {
  WM<T> d = WM<T>::Zero(m.rows(), m.cols());
  for (int k = 0; k < m.outerSize(); k++)
    for (typename SparseMatrix<T>::InnerIterator it(m, k); it; ++it) d(it.row(), it.col()) += (typename Tr<T>::W)it.value();
  return d;
}
enum MK { MK_spd, MK_square, MK_tall, MK_wide, MK_rankdef, MK_any, MK_COUNT };

template <class T> struct Pool {
  struct Mat {
    SparseMatrix<T> m;
    WM<T> d;
    int kind;
    int rank; // planned rank, -1 unknown
    double cond = 0;
    bool hermitian = false;
  };
  struct Sol {
    int type; // 0 QR, 1 square, 2 positive definite
    std::unique_ptr<LinearSolver<T>> s;
    WM<T> d;
    int rank;
    double cond;
  };
  std::vector<std::unique_ptr<Mat>> mats;
  std::vector<Sol> sols;

  void finish(Mat& M) {
    M.d = dense(M.m);
    Eigen::JacobiSVD<WM<T>> svd(M.d);
    auto sv = svd.singularValues();
    double mx = sv.size() ? (double)sv(0) : 0;
    int rk = 0;
    double mn = mx;
    for (int i = 0; i < sv.size(); i++)
      if (sv(i) > 1e-6 * mx) { rk++; mn = sv(i); }
    M.rank = rk;
    M.cond = mn > 0 ? mx / mn : 1e300;
    for (int i = 0; i < sv.size(); i++)
      if (sv(i) <= 1e-6 * mx && sv(i) > 1e-13 * mx) M.cond = 1e300; // neither clearly zero nor clearly not
    M.hermitian = M.d.rows() == M.d.cols() && (M.d - M.d.adjoint()).norm() == 0;
  }
  Mat* make(u64 seed, int kind) {
    Src s(seed);
    int n = (int)s.r.range(1, 14), m = n;
    if (kind == MK_tall) m = n + (int)s.r.range(1, 8);
    if (kind == MK_wide) { m = n; n = m + (int)s.r.range(1, 8); }
    if (kind == MK_any) { m = (int)s.r.range(1, 9); n = (int)s.r.range(1, 9); }
    if (kind == MK_rankdef) { n = (int)s.r.range(2, 10); m = n + (int)s.r.range(0, 5); }
    std::unique_ptr<Mat> M(new Mat());
    M->kind = kind;
    std::vector<Eigen::Triplet<T>> tr;
    double dens = s.r.real(.1, .7);
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) {
        if (s.r.chance(dens)) tr.emplace_back(i, j, s.num<T>());
        if (s.r.chance(.02)) tr.emplace_back(i, j, T(0)); // explicit zero
        if (s.r.chance(.03)) tr.emplace_back(i, j, s.num<T>()); // duplicates are summed
      }
    if (kind == MK_square || kind == MK_tall || kind == MK_wide)
      for (int i = 0; i < std::min(m, n); i++) tr.emplace_back(i, (i * 3 + (int)(seed % 5)) % 1 ? i : i, T(s.r.real(1, 3) * (s.r.chance(.5) ? 1 : -1)));
    M->m = SparseMatrix<T>(m, n);
    M->m.setFromTriplets(tr.begin(), tr.end());
    if (kind == MK_spd) {
      SparseMatrix<T> A = M->m;
      SparseMatrix<T> H = A.adjoint();
      SparseMatrix<T> G = H * A;
      for (int i = 0; i < n; i++) G.coeffRef(i, i) += T(s.r.real(.3, 1.5));
      // make it exactly Hermitian
      std::vector<Eigen::Triplet<T>> t2;
      for (int k = 0; k < G.outerSize(); k++)
        for (typename SparseMatrix<T>::InnerIterator it(G, k); it; ++it) {
          if (it.row() < it.col()) { t2.emplace_back(it.row(), it.col(), it.value()); t2.emplace_back(it.col(), it.row(), Eigen::numext::conj(it.value())); }
          if (it.row() == it.col()) t2.emplace_back(it.row(), it.col(), T(Eigen::numext::real(it.value())));
        }
      M->m = SparseMatrix<T>(n, n);
      M->m.setFromTriplets(t2.begin(), t2.end());
    }
    if (kind == MK_rankdef && n > 1) { // last column = combination of the first ones
      SparseMatrix<T> A(m, n);
      std::vector<Eigen::Triplet<T>> t2;
      WM<T> D = dense(M->m);
      for (int i = 0; i < m; i++) {
        typename Tr<T>::W x = 0;
        for (int j = 0; j + 1 < n; j++) {
          if (D(i, j) != typename Tr<T>::W(0)) t2.emplace_back(i, j, T(D(i, j)));
          if (j < 2) x += D(i, j) * (double)(j + 1);
        }
        if (x != typename Tr<T>::W(0)) t2.emplace_back(i, n - 1, T(x));
      }
      A.setFromTriplets(t2.begin(), t2.end());
      M->m = A;
    }
    if (s.r.chance(.3) && M->m.rows() > 0) { // leave it uncompressed
      M->m.uncompress();
      M->m.coeffRef((int)s.r.below((u64)M->m.rows()), (int)s.r.below((u64)M->m.cols())) += T(0);
    }
    finish(*M);
    mats.push_back(std::move(M));
    return mats.back().get();
  }
  Vector<T> rhs(u64 seed, int n) {
    Src s(seed);
    Vector<T> v(n);
    for (int i = 0; i < n; i++) v(i) = s.r.chance(.1) ? T(0) : s.num<T>();
    return v;
  }
  void judge(const WM<T>& A, int type, int rank, double cond, const Vector<T>& x, const Vector<T>& b, const char* who) {
    CHECK(x.rows() == A.cols(), "solution-size", "%s<%s>: solution has %ld rows, matrix is %ldx%ld", who, Tr<T>::n(), (long)x.rows(), (long)A.rows(), (long)A.cols());
    WV<T> X = x.template cast<typename Tr<T>::W>(), B = b.template cast<typename Tr<T>::W>();
    double an = A.norm(), bn = B.norm(), xn = X.norm();
    CHECK(std::isfinite(xn), "solution", "%s<%s>: solution is not finite", who, Tr<T>::n());
    double tol = Tr<T>::tol() * std::max(1., cond);
    if (A.rows() == A.cols() && rank == A.rows()) {
      double r = (A * X - B).norm();
      CHECK(r <= tol * (an * xn + bn), "solution", "%s<%s>: |Ax-b| = %g for a %ldx%ld system of condition %g", who, Tr<T>::n(), r, (long)A.rows(), (long)A.cols(), cond);
      WV<T> X0 = A.fullPivLu().solve(B);
      CHECK((X - X0).norm() <= 10 * tol * (1 + X0.norm()), "solution", "%s<%s>: solution differs from the exact one by %g", who, Tr<T>::n(), (X - X0).norm());
    } else if (A.rows() >= A.cols()) {
      // least squares: the residual is orthogonal to the columns
      double r = (A.adjoint() * (A * X - B)).norm();
      CHECK(r <= tol * an * (an * xn + bn), "solution", "%s<%s>: |A'(Ax-b)| = %g for a %ldx%ld least squares problem", who, Tr<T>::n(), r, (long)A.rows(), (long)A.cols());
    } else if (rank == A.rows()) {
      double r = (A * X - B).norm();
      CHECK(r <= tol * (an * xn + bn), "solution", "%s<%s>: |Ax-b| = %g for an underdetermined %ldx%ld system", who, Tr<T>::n(), r, (long)A.rows(), (long)A.cols());
      WV<T> X0 = A.adjoint() * (A * A.adjoint()).fullPivLu().solve(B);
      CHECK((X - X0).norm() <= 10 * tol * cond * (1 + X0.norm()), "solution", "%s<%s>: not the solution of smallest norm (off by %g)", who, Tr<T>::n(), (X - X0).norm());
    }
  }
  bool fits(const Mat& M, int type, bool rankOnly = false) const {
    double lim = std::is_same<T, float>::value ? 300 : 1e5;
    if (M.cond > lim) return false;
    if (type == 0) return M.rank == std::min(M.d.rows(), M.d.cols()) || (rankOnly && M.d.rows() >= M.d.cols());
    if (type == 1) return M.d.rows() == M.d.cols() && M.rank == M.d.rows();
    return M.kind == MK_spd && M.rank == M.d.rows();
  }
  std::unique_ptr<LinearSolver<T>> build(SparseMatrix<T>& m, int type) {
    if (type == 0) return std::unique_ptr<LinearSolver<T>>(new Solver<T>(m));
    if (type == 1) return std::unique_ptr<LinearSolver<T>>(new SquareSolver<T>(m));
    return std::unique_ptr<LinearSolver<T>>(new PositiveDefiniteSolver<T>(m));
  }

  template <class F> bool throws(F f) {
    try {
      f();
    } catch (std::exception&) {
      return true;
    }
    return false;
  }
  void run(const Op& op, Ctx& ctx);
};

// a stream buffer which delivers `limit` bytes and then ends or fails
struct CutOut : std::streambuf {
  std::string got;
  size_t limit;
  CutOut(size_t l) : limit(l) {}
  int overflow(int c) override {
    if (got.size() >= limit) return EOF;
    got.push_back((char)c);
    return c;
  }
};

const char* typeName[3] = {"Solver", "SquareSolver", "PositiveDefiniteSolver"};

template <class T> bool sameSparse(const WM<T>& a, const WM<T>& b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).norm() <= tol * (1 + a.norm()); }

template <class T> void Pool<T>::run(const Op& op, Ctx& ctx) {
  auto pick = [&](u64 x) -> Mat* { return mats.empty() ? nullptr : mats[x % mats.size()].get(); };
  auto fits_ = [&](u64 x, int type) -> Mat* {
    std::vector<Mat*> c;
    for (auto& m : mats)
      if (fits(*m, type)) c.push_back(m.get());
    return c.empty() ? nullptr : c[x % c.size()];
  };
  switch (op.kind) {
  case L_make:
    if (mats.size() > 8) mats.erase(mats.begin());
    make(arg(op, 1), (int)(arg(op, 2) % MK_COUNT));
    break;
  case L_drop:
    if (!mats.empty()) mats.erase(mats.begin() + (i64)(arg(op, 1) % mats.size()));
    break;
  case L_change: // a solver keeps its own copy
    if (Mat* M = pick(arg(op, 1))) {
      for (int k = 0; k < M->m.outerSize(); k++)
        for (typename SparseMatrix<T>::InnerIterator it(M->m, k); it; ++it) it.valueRef() *= T((double)(1 + arg(op, 2) % 3) * .5);
      int kd = M->kind;
      finish(*M);
      M->kind = kd;
    }
    break;
  case L_solver: {
    int type = (int)(arg(op, 2) % 3);
    Mat* M = fits_(arg(op, 1), type);
    if (type == 0 && arg(op, 3) % 3 == 0)
      if (Mat* N = pick(arg(op, 1)))
        if (fits(*N, type, true)) M = N; // may be rank deficient: such a system has many solutions of least error, and which one
                                         // is returned is up to the sparse library; only its rank is judged
    if (!M) break;
    if (sols.size() > 6) sols.erase(sols.begin());
    Sol s;
    s.type = type;
    s.d = M->d;
    s.rank = M->rank;
    s.cond = M->cond;
    s.s = build(M->m, type);
    CHECK(sameSparse<T>(dense(M->m), M->d, 0), "matrix-untouched", "building a %s changed the values of the matrix", typeName[type]);
    if (type == 0) {
      size_t r = static_cast<Solver<T>*>(s.s.get())->rank();
      CHECK(r == (size_t)M->rank || (std::is_same<T, float>::value && M->rank < std::min(M->d.rows(), M->d.cols())), "rank", "rank() of a %ldx%ld matrix is %zu, expected %d", (long)M->d.rows(), (long)M->d.cols(), r, M->rank);
    }
    if (fits(*M, type)) sols.push_back(std::move(s));
    break;
  }
  case L_solve:
  case L_solveInto: {
    if (sols.empty()) break;
    Sol& s = sols[arg(op, 1) % sols.size()];
    Vector<T> b = rhs(arg(op, 2), (int)s.d.rows()), b0 = b, x;
    if (op.kind == L_solve) x = s.s->solve(b);
    else {
      x = rhs(arg(op, 3), (int)(arg(op, 3) % 20)); // previous contents of the result must not matter
      s.s->solve(x, b);
    }
    CHECK(b == b0, "rhs-untouched", "%s<%s>::solve changed its right hand side", typeName[s.type], Tr<T>::n());
    judge(s.d, s.type, s.rank, s.cond, x, b, typeName[s.type]);
    Vector<T> y = s.s->solve(b);
    CHECK(x == y, "repeatable", "%s<%s>: the same right hand side gives another solution the second time", typeName[s.type], Tr<T>::n());
    ctx.nontrivial = true;
    ctx.count(std::string("solve.") + typeName[s.type] + "." + Tr<T>::n());
    break;
  }
  case L_killSolver:
    if (!sols.empty()) sols.erase(sols.begin() + (i64)(arg(op, 1) % sols.size()));
    break;
  case L_quick: {
    int type = (int)(arg(op, 2) % 3);
    Mat* M = fits_(arg(op, 1), type);
    if (!M) break;
    Vector<T> b = rhs(arg(op, 3), (int)M->d.rows());
    Vector<T> x = type == 0 ? geometrycentral::solve<T>(M->m, b) : type == 1 ? solveSquare<T>(M->m, b) : solvePositiveDefinite<T>(M->m, b);
    judge(M->d, type, M->rank, M->cond, x, b, "quick solve");
    double r = residual<T>(M->m, x, b), r0 = (M->d * x.template cast<typename Tr<T>::W>() - b.template cast<typename Tr<T>::W>()).norm();
    CHECK(std::fabs(r - r0) <= 1e-4 * (1 + M->d.norm()) * (std::is_same<T, float>::value ? 1 : 1e-6), "residual", "residual() = %g, expected %g", r, r0);
    ctx.nontrivial = true;
    break;
  }
  case L_badArgs: {
    // loud refusals which leave everything else usable
    switch (arg(op, 2) % 5) {
    case 0:
      if (!sols.empty()) {
        Sol& s = sols[arg(op, 1) % sols.size()];
        Vector<T> b = rhs(arg(op, 3), (int)s.d.rows() + 1 + (int)(arg(op, 3) % 3));
        CHECK(throws([&] { s.s->solve(b); }), "refusal", "%s accepts a right hand side of the wrong length", typeName[s.type]);
      }
      break;
    case 1:
      if (!sols.empty()) {
        Sol& s = sols[arg(op, 1) % sols.size()];
        Vector<T> b = rhs(arg(op, 3), (int)s.d.rows());
        b(b.rows() - 1 - (int)(arg(op, 3) % (u64)b.rows())) = T(std::numeric_limits<double>::quiet_NaN());
        CHECK(throws([&] { s.s->solve(b); }), "refusal", "%s accepts a right hand side which is not finite", typeName[s.type]);
      }
      break;
    case 2:
      if (Mat* M = pick(arg(op, 1))) {
        if (M->m.nonZeros() == 0) break;
        SparseMatrix<T> m = M->m;
        size_t k = 0, want = arg(op, 3) % (u64)m.nonZeros();
        for (int c = 0; c < m.outerSize(); c++)
          for (typename SparseMatrix<T>::InnerIterator it(m, c); it; ++it)
            if (k++ == want) it.valueRef() = T(std::numeric_limits<double>::infinity());
        for (int t = 0; t < 3; t++) CHECK(throws([&] { build(m, t); }), "refusal", "%s accepts a matrix which is not finite", typeName[t]);
      }
      break;
    case 3:
      if (Mat* M = pick(arg(op, 1))) {
        if (M->d.rows() != M->d.cols())
          for (int t = 1; t < 3; t++) CHECK(throws([&] { build(M->m, t); }), "refusal", "%s accepts a rectangular matrix", typeName[t]);
        else if ((M->d - M->d.adjoint()).cwiseAbs().maxCoeff() > 1e-3 * M->d.norm())
          CHECK(throws([&] { build(M->m, 2); }), "refusal", "PositiveDefiniteSolver accepts a matrix which is not Hermitian");
      }
      break;
    }
    ctx.fault("bad-arguments");
    break;
  }
  case L_stack: {
    Mat* A = pick(arg(op, 1));
    if (!A) break;
    bool vert = arg(op, 2) % 2;
    std::vector<SparseMatrix<T>, Eigen::aligned_allocator<SparseMatrix<T>>> ms;
    std::vector<WM<T>> ds;
    size_t n = 1 + arg(op, 3) % 4;
    bool mismatch = false;
    for (auto& m : mats) {
      if (ms.size() >= n) break;
      bool ok = vert ? m->d.cols() == A->d.cols() : m->d.rows() == A->d.rows();
      if (!ok && !(arg(op, 3) % 7 == 0)) continue;
      if (!ok) mismatch = true;
      ms.push_back(m->m);
      ds.push_back(m->d);
    }
    bool all = true;
    for (auto& d : ds) all = all && (vert ? d.cols() == ds[0].cols() : d.rows() == ds[0].rows());
    if (ms.empty() || !all) {
      CHECK(throws([&] { vert ? verticalStack<T>(ms) : horizontalStack<T>(ms); }), "refusal", "stacking matrices which do not fit is accepted");
      break;
    }
    SparseMatrix<T> R = vert ? verticalStack<T>(ms) : horizontalStack<T>(ms);
    i64 rows = 0, cols = 0;
    for (auto& d : ds) {
      if (vert) { rows += d.rows(); cols = d.cols(); } else { cols += d.cols(); rows = d.rows(); }
    }
    WM<T> W = WM<T>::Zero(rows, cols);
    i64 at = 0;
    for (auto& d : ds) {
      if (vert) W.block(at, 0, d.rows(), d.cols()) = d; else W.block(0, at, d.rows(), d.cols()) = d;
      at += vert ? d.rows() : d.cols();
    }
    CHECK(sameSparse<T>(dense(R), W, 1e-12), "stack", "%s stack of %zu matrices is wrong", vert ? "vertical" : "horizontal", ms.size());
    (void)mismatch;
    ctx.nontrivial = true;
    break;
  }
  case L_blocks: {
    Mat* M = nullptr;
    for (size_t k = 0; k < mats.size(); k++) {
      Mat* c = mats[(arg(op, 1) + k) % mats.size()].get();
      if (c->d.rows() == c->d.cols()) { M = c; break; }
    }
    if (!M) {
      if (Mat* N = pick(arg(op, 1))) CHECK(throws([&] { blockDecomposeSquare<T>(N->m, Vector<bool>::Constant(N->m.rows(), true)); }), "refusal", "rectangular matrix decomposed");
      break;
    }
    int n = (int)M->d.rows();
    Vector<bool> in(n);
    for (int i = 0; i < n; i++) in(i) = (mix64(arg(op, 2) + (u64)i) % 8) < arg(op, 3) % 9;
    bool b = (arg(op, 3) / 9) % 2;
    BlockDecompositionResult<T> r = blockDecomposeSquare<T>(M->m, in, b);
    std::vector<int> ia, ib;
    for (int i = 0; i < n; i++) (in(i) ? ia : ib).push_back(i);
    CHECK((size_t)r.origIndsA.rows() == ia.size() && (size_t)r.origIndsB.rows() == ib.size(), "blocks", "wrong block sizes");
    for (size_t i = 0; i < ia.size(); i++) CHECK(r.origIndsA[(i64)i] == (size_t)ia[i] && r.newInds[ia[i]] == i && r.isA[ia[i]], "blocks", "wrong index in block A");
    for (size_t i = 0; i < ib.size(); i++) CHECK(r.origIndsB[(i64)i] == (size_t)ib[i] && r.newInds[ib[i]] == i && !r.isA[ib[i]], "blocks", "wrong index in block B");
    auto sub = [&](const std::vector<int>& R, const std::vector<int>& C, const SparseMatrix<T>& got, const char* nm) {
      WM<T> w((i64)R.size(), (i64)C.size());
      for (size_t i = 0; i < R.size(); i++)
        for (size_t j = 0; j < C.size(); j++) w((i64)i, (i64)j) = M->d(R[i], C[j]);
      CHECK(sameSparse<T>(dense(got), w, 0), "blocks", "block %s is wrong", nm);
    };
    sub(ia, ia, r.AA, "AA");
    sub(ia, ib, r.AB, "AB");
    if (b) {
      sub(ib, ia, r.BA, "BA");
      sub(ib, ib, r.BB, "BB");
    }
    Vector<T> v = rhs(arg(op, 2), n), va, vb;
    decomposeVector<T>(r, v, va, vb);
    for (size_t i = 0; i < ia.size(); i++) CHECK(va[(i64)i] == v[ia[i]], "blocks", "vector block A is wrong");
    for (size_t i = 0; i < ib.size(); i++) CHECK(vb[(i64)i] == v[ib[i]], "blocks", "vector block B is wrong");
    Vector<T> back = reassembleVector<T>(r, va, vb);
    CHECK(back == v, "blocks", "decomposing and reassembling a vector does not give it back");
    ctx.nontrivial = true;
    break;
  }
  case L_checks: {
    Mat* M = pick(arg(op, 1));
    if (!M) break;
    bool sym = M->d.rows() == M->d.cols() && (M->d - M->d.transpose()).norm() == 0, her = M->hermitian;
    bool finite = !throws([&] { checkFinite(M->m); });
    CHECK(finite, "checks", "checkFinite rejects a finite matrix");
    if (M->d.rows() == M->d.cols() && M->m.nonZeros() > 0) {
      double as = (M->d - M->d.transpose()).cwiseAbs().maxCoeff(), ah = (M->d - M->d.adjoint()).cwiseAbs().maxCoeff(), sc = M->d.cwiseAbs().maxCoeff();
      bool ts = throws([&] { checkSymmetric(M->m); }), th = throws([&] { checkHermitian(M->m); });
      if (sym) CHECK(!ts, "checks", "checkSymmetric rejects a symmetric matrix");
      if (her) CHECK(!th, "checks", "checkHermitian rejects a Hermitian matrix");
      if (as > 1e-6 * sc) CHECK(ts, "checks", "checkSymmetric accepts a matrix which is off by %g", as);
      if (ah > 1e-6 * sc) CHECK(th, "checks", "checkHermitian accepts a matrix which is off by %g", ah);
      double eps = 2 * std::max(as, ah) + 1e-9;
      CHECK(!throws([&] { checkSymmetric(M->m, eps); checkHermitian(M->m, eps); }), "checks", "absoluteEPS is not respected");
      if (as > 1e-6) CHECK(throws([&] { checkSymmetric(M->m, as / 2); }), "checks", "absoluteEPS is not respected");
    }
    // dense checks of all shapes, with one bad entry somewhere
    int n = 1 + (int)(arg(op, 2) % 6), m = 1 + (int)((arg(op, 2) / 6) % 6);
    int bi = (int)(arg(op, 3) % (u64)n), bj = (int)((arg(op, 3) / 64) % (u64)m);
    bool bad = arg(op, 3) % 2;
    T nan = T(std::numeric_limits<double>::quiet_NaN());
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> D = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>::Constant(n, m, T(2));
    Eigen::Matrix<T, Eigen::Dynamic, 1> c = Eigen::Matrix<T, Eigen::Dynamic, 1>::Constant(n, T(2));
    Eigen::Matrix<T, 1, Eigen::Dynamic> r = Eigen::Matrix<T, 1, Eigen::Dynamic>::Constant(m, T(2));
    if (bad) { D(bi, bj) = nan; c(bi) = nan; r(bj) = nan; }
    CHECK(throws([&] { checkFinite(D); }) == bad, "checks", "checkFinite of a dense matrix is wrong");
    CHECK(throws([&] { checkFinite(c); }) == bad, "checks", "checkFinite of a column vector is wrong");
    CHECK(throws([&] { checkFinite(r); }) == bad, "checks", "checkFinite of a row vector is wrong");
    SparseMatrix<T> id = identityMatrix<T>((size_t)n);
    WM<T> I = WM<T>::Identity(n, n);
    CHECK(sameSparse<T>(dense(id), I, 0), "identity", "identityMatrix is wrong");
    auto un = unpackMatrixToStdVector<T>(D);
    CHECK(un.size() == (size_t)n && un[0].size() == (size_t)m, "unpack", "unpackMatrixToStdVector: wrong size");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) CHECK((bad && i == bi && j == bj) || un[(size_t)i][(size_t)j] == D(i, j), "unpack", "unpackMatrixToStdVector: wrong entry");
    break;
  }
  case L_shift: {
    Mat* M = pick(arg(op, 1));
    if (!M) break;
    T sh = Src(arg(op, 2)).num<T>();
    if (M->d.rows() != M->d.cols()) {
      SparseMatrix<T> m = M->m;
      CHECK(throws([&] { shiftDiagonal<T>(m, sh); }), "refusal", "shiftDiagonal accepts a rectangular matrix");
      break;
    }
    WM<T> W = M->d;
    for (int i = 0; i < W.rows(); i++) W(i, i) += (typename Tr<T>::W)sh;
    SparseMatrix<T> m = M->m;
    shiftDiagonal<T>(m, sh);
    CHECK(sameSparse<T>(dense(m), W, std::is_same<T, float>::value ? 1e-6 : 1e-14), "shift", "shiftDiagonal is wrong");
    break;
  }
  case L_sparseIO:
  case L_denseIO: {
    Mat* M = pick(arg(op, 1));
    if (!M) break;
    bool sp = op.kind == L_sparseIO;
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> D = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>::Zero(M->d.rows(), M->d.cols());
    for (int i = 0; i < D.rows(); i++)
      for (int j = 0; j < D.cols(); j++) D(i, j) = T(M->d(i, j));
    std::stringstream ss;
    if (sp) saveSparseMatrix<T>(ss, M->m); else saveDenseMatrix<T>(ss, D);
    std::string text = ss.str();
    auto load = [&](std::istream& in) -> WM<T> {
      if (sp) { SparseMatrix<T> r = loadSparseMatrix<T>(in); return dense(r); }
      return loadDenseMatrix<T>(in).template cast<typename Tr<T>::W>();
    };
    double tol = std::is_same<T, float>::value ? 1e-7 : 1e-15;
    if (!op.fault) {
      WM<T> R = load(ss);
      CHECK(sameSparse<T>(R, M->d, tol * 10), "io-round-trip", "%s matrix (%s) changed by saving and loading: %ldx%ld", sp ? "sparse" : "dense", Tr<T>::n(), (long)R.rows(), (long)R.cols());
      if (sp) {
        // without the comment line the size is that of the entries
        size_t nl = text.find('\n');
        std::stringstream s2(text.substr(nl + 1));
        if (M->m.nonZeros() > 0) {
          WM<T> R2 = load(s2);
          CHECK(R2.rows() <= M->d.rows() && R2.cols() <= M->d.cols(), "io-round-trip", "matrix without header is too large");
          WM<T> P = WM<T>::Zero(M->d.rows(), M->d.cols());
          P.block(0, 0, R2.rows(), R2.cols()) = R2;
          CHECK(sameSparse<T>(P, M->d, tol * 10), "io-round-trip", "matrix without header changed by saving and loading");
        }
      }
    } else if (op.fault == 1) {
      // the file ends early: loud, or every entry that was read is true (a cut number in the last line cannot be told)
      size_t cut = op.fa % (text.size() + 1);
      ctx.fault("short-read");
      std::stringstream s2(text.substr(0, cut));
      WM<T> R;
      bool ok = !throws([&] { R = load(s2); });
      if (ok && !sp) {
        size_t lastNl = text.rfind('\n', text.size() - 2);
        bool onlyTail = cut > lastNl; // only the last line was touched
        CHECK(onlyTail || M->d.size() == 0, "io-truncated", "a dense matrix file cut at %zu of %zu bytes is accepted", cut, text.size());
        CHECK(R.rows() == M->d.rows() && R.cols() == M->d.cols(), "io-truncated", "cut file accepted with the wrong size");
        for (int i = 0; i + 1 < R.rows(); i++)
          for (int j = 0; j < R.cols(); j++) CHECK(std::abs(R(i, j) - M->d(i, j)) <= tol * 10 * (1 + std::abs(M->d(i, j))), "io-truncated", "entry %d,%d of a cut file is wrong", i, j);
        if (R.rows() > 0)
          for (int j = 0; j + 1 < R.cols(); j++) CHECK(std::abs(R(R.rows() - 1, j) - M->d(R.rows() - 1, j)) <= tol * 10 * (1 + std::abs(M->d(R.rows() - 1, j))), "io-truncated", "entry of a cut file is wrong");
      }
      if (ok && sp && cut > text.find('\n')) {
        CHECK(R.rows() == M->d.rows() && R.cols() == M->d.cols(), "io-truncated", "cut file accepted with the wrong size");
        int wrong = 0;
        for (int i = 0; i < R.rows(); i++)
          for (int j = 0; j < R.cols(); j++)
            if (R(i, j) != typename Tr<T>::W(0) && std::abs(R(i, j) - M->d(i, j)) > tol * 10 * (1 + std::abs(M->d(i, j)))) wrong++;
        CHECK(wrong <= 1, "io-truncated", "%d entries of a cut file are wrong", wrong);
      }
    } else if (op.fault == 2) {
      // one byte damaged: loud, or a matrix which can be used (no memory errors)
      ctx.fault("damaged-byte");
      size_t at = op.fa % text.size();
      static const char repl[] = " \n-.0e#x(\t9,";
      text[at] = repl[(op.fa / 977) % (sizeof(repl) - 1)];
      // a damaged size can ask for any amount of memory
      bool header = at <= text.find('\n') || text.find('\n') == std::string::npos;
      if (header && isdigit((unsigned char)text[at])) break;
      std::stringstream s2(text);
      WM<T> R;
      bool ok = !throws([&] { R = load(s2); });
      (void)ok;
    } else {
      // the device fails while writing: the stream says so
      ctx.fault("write-fails");
      CutOut buf(op.fa % (text.size() + 1));
      std::ostream out(&buf);
      if (sp) saveSparseMatrix<T>(out, M->m); else saveDenseMatrix<T>(out, D);
      CHECK((bool)out == (buf.limit >= text.size()), "io-write", "state of the stream after a failing write is wrong");
      CHECK(text.compare(0, buf.got.size(), buf.got) == 0, "io-write", "other bytes were written than without the failure");
    }
    ctx.nontrivial = true;
    break;
  }
  case L_fileIO: {
    Mat* M = pick(arg(op, 1));
    if (!M) break;
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> D = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>::Zero(M->d.rows(), M->d.cols());
    for (int i = 0; i < D.rows(); i++)
      for (int j = 0; j < D.cols(); j++) D(i, j) = T(M->d(i, j));
    if (op.fault) { // full disk
      ctx.fault("disk-full");
      CHECK(throws([&] { saveSparseMatrix<T>("/dev/full", M->m); }), "io-disk-full", "saving a sparse matrix to a full disk reports nothing");
      CHECK(throws([&] { saveDenseMatrix<T>("/dev/full", D); }), "io-disk-full", "saving a dense matrix to a full disk reports nothing");
      CHECK(throws([&] { saveDenseMatrix<T>("/nonexistent-dir/x", D); }), "io-disk-full", "saving to a missing directory reports nothing");
      CHECK(throws([&] { loadDenseMatrix<T>("/nonexistent-dir/x"); }), "io-disk-full", "loading a missing file reports nothing");
      CHECK(throws([&] { loadSparseMatrix<T>("/nonexistent-dir/x"); }), "io-disk-full", "loading a missing file reports nothing");
      break;
    }
    char name[] = "/tmp/simmatXXXXXX";
    int fd = mkstemp(name);
    if (fd < 0) break;
    close(fd);
    struct Un { const char* n; ~Un() { unlink(n); } } un{name};
    double tol = std::is_same<T, float>::value ? 1e-6 : 1e-14;
    saveSparseMatrix<T>(name, M->m);
    SparseMatrix<T> s = loadSparseMatrix<T>(name);
    CHECK(sameSparse<T>(dense(s), M->d, tol), "io-round-trip", "sparse matrix changed by a file");
    saveDenseMatrix<T>(name, D);
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> R = loadDenseMatrix<T>(name);
    CHECK(sameSparse<T>(R.template cast<typename Tr<T>::W>(), M->d, tol), "io-round-trip", "dense matrix changed by a file");
    break;
  }
  case L_eigen: {
    // diagonal-ish problems with well separated eigenvalues, in a random orthonormal basis
    Src s(arg(op, 1));
    int n = 2 + (int)(arg(op, 2) % 6);
    WM<T> Q(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) Q(i, j) = (typename Tr<T>::W)s.num<T>();
    Eigen::HouseholderQR<WM<T>> qr(Q);
    Q = qr.householderQ();
    WM<T> L = WM<T>::Zero(n, n), Ms = WM<T>::Identity(n, n);
    for (int i = 0; i < n; i++) L(i, i) = std::pow(2.5, i) * .5;
    WM<T> mass = WM<T>::Zero(n, n), half = mass;
    for (int i = 0; i < n; i++) { double w = s.r.real(.5, 2); mass(i, i) = w; half(i, i) = std::sqrt(w); }
    WM<T> A = half * Q * L * Q.adjoint() * half; // generalised eigenvalues are L
    A = (A + A.adjoint()).eval() * .5;
    SparseMatrix<T> sA(n, n), sM(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        if (i <= j) { T v = T(A(i, j)); sA.insert(i, j) = i == j ? T(Eigen::numext::real(v)) : v; if (i != j) sA.insert(j, i) = Eigen::numext::conj(v); }
        if (i == j) sM.insert(i, i) = T(mass(i, i));
      }
    srand((unsigned)arg(op, 3)); // the start vector: Eigen draws it from the C library
    auto judgeEig = [&](const Vector<T>& v, double lam, const char* nm) {
      CHECK(v.rows() == n, "eigen", "%s: wrong size", nm);
      WV<T> x = v.template cast<typename Tr<T>::W>();
      double nn = std::abs(x.dot(mass * x));
      CHECK(std::fabs(nn - 1) < 1e-3, "eigen", "%s<%s>: the vector has mass norm^2 %g", nm, Tr<T>::n(), nn);
      double res = (A * x - lam * mass * x).norm() / (A.norm() + lam);
      CHECK(res < 2e-3, "eigen", "%s<%s>: residual %g for eigenvalue %g", nm, Tr<T>::n(), res, lam);
    };
    int which = (int)((arg(op, 2) / 8) % 4);
    if (which == 0) judgeEig(smallestEigenvectorPositiveDefinite<T>(sA, sM, 60), .5, "smallestEigenvectorPositiveDefinite");
    if (which == 1) judgeEig(smallestEigenvectorSquare<T>(sA, sM, 60), .5, "smallestEigenvectorSquare");
    if (which == 2) judgeEig(largestEigenvector<T>(sA, sM, 60), .5 * std::pow(2.5, n - 1), "largestEigenvector");
    if (which == 3) {
      size_t k = 1 + arg(op, 3) % (u64)n;
      auto vs = smallestKEigenvectorsPositiveDefinite<T>(sA, sM, k, 60);
      CHECK(vs.size() == k, "eigen", "asked for %zu eigenvectors, got %zu", k, vs.size());
      for (size_t i = 0; i < k; i++) judgeEig(vs[i], .5 * std::pow(2.5, (double)i), "smallestKEigenvectorsPositiveDefinite");
      if (!std::is_same<T, float>::value) {
        k = 1; // later vectors cannot be better than the earlier ones they are projected on
        auto v2 = smallestKEigenvectorsPositiveDefiniteTol<T>(sA, sM, k, 1e-6);
        for (size_t i = 0; i < k; i++) judgeEig(v2[i], .5 * std::pow(2.5, (double)i), "smallestKEigenvectorsPositiveDefiniteTol");
      }
    }
    ctx.nontrivial = true;
    break;
  }
  }
}

static Register reg([] {
  Scenario s;
  s.name = "linear-algebra";
  s.property = "C07";
  s.opNames = lNames;
  s.realComponents = "Solver, SquareSolver, PositiveDefiniteSolver, eigenproblem solvers, linear_algebra_utilities (real code), SuiteSparse (the installed library)";
  s.stubComponents = "streams which end early or fail (simulated), /dev/full for a full disk";
  s.rule = "a run keeps pools of matrices and solvers for three scalar types and interleaves building, solving, changing and dropping them with utilities, bad arguments "
           "and stream faults; every result is compared with dense linear algebra";
  s.generate = [](u64 seed, int tier, int fm) {
    Rng r(seed);
    History h;
    std::vector<double> w(L_COUNT, 1.0);
    w[L_make] = 3; w[L_solver] = 2; w[L_solve] = 4; w[L_solveInto] = 2; w[L_fileIO] = .3; w[L_eigen] = .7;
    size_t n = (size_t)r.range(15, tier ? 120 : 60);
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = i < 4 ? (int)L_make : (int)r.weighted(w);
      o.a.push_back(r.below(3));
      for (int k = 0; k < 3; k++) o.a.push_back(r.next() >> (r.below(4) * 8));
      if (o.kind == L_make) o.a[2] = r.next();
      if (fm && r.chance(.35)) {
        o.fault = 1 + (int)r.below(3);
        o.fa = r.next() >> 16;
      }
      h.ops.push_back(o);
    }
    return h;
  };
  s.execute = [](const History& h, Ctx& ctx) {
    Pool<double> D;
    Pool<float> F;
    Pool<cd> C;
    for (auto& op : h.ops) {
      ctx.steps++;
      ctx.ev((u64)op.kind);
      if (op.kind == L_complexReal) {
        if (C.mats.empty()) continue;
        auto& M = *C.mats[arg(op, 1) % C.mats.size()];
        SparseMatrix<double> R = complexToReal(M.m);
        CHECK(R.rows() == 2 * M.d.rows() && R.cols() == 2 * M.d.cols(), "complex-real", "wrong size");
        Vector<cd> v = C.rhs(arg(op, 2), (int)M.d.cols());
        Vector<double> rv = complexToReal(v);
        Vector<double> a = R * rv;
        Vector<cd> b = M.d * v;
        Vector<double> rb = complexToReal(b);
        CHECK((a - rb).norm() <= 1e-12 * (1 + rb.norm()), "complex-real", "the real system is not the complex one");
        CHECK(realToComplex(rv) == v, "complex-real", "realToComplex does not undo complexToReal");
        ctx.nontrivial = true;
        continue;
      }
      switch (arg(op, 0) % 3) {
      case 0: D.run(op, ctx); break;
      case 1: F.run(op, ctx); break;
      default: C.run(op, ctx); break;
      }
      u64 st = hcomb(hcomb(D.mats.size() * 100 + D.sols.size(), F.mats.size() * 100 + F.sols.size()), C.mats.size() * 100 + C.sols.size());
      for (auto& x : D.sols) st = hcomb(st, (u64)x.type * 1000 + (u64)x.d.rows() * 30 + (u64)x.d.cols());
      for (auto& x : C.sols) st = hcomb(st, (u64)x.type * 1000 + (u64)x.d.rows() * 30 + (u64)x.d.cols());
      for (auto& x : F.sols) st = hcomb(st, (u64)x.type * 1000 + (u64)x.d.rows() * 30 + (u64)x.d.cols());
      ctx.state(st);
      ctx.ev(st);
    }
  };
  return s;
}());
} // namespace
