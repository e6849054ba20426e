// Runs one request per line over /repo's native headers, with every buffer an exact-size heap block, under sanitizers.
#include <type_traits>
#include <cmath>
#include <limits>
#include <iostream>
#include <sstream>
#include <memory>
#include <vector>
#include <string>
#include <array>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include "lanczos.h"
#include "eigen_operators.h"

struct In {
  std::istringstream s;
  long i(){ long x; if (!(s >> x)) { fprintf(stderr, "HARNESS bad request\n"); exit(99); } return x; }
  double d(){ std::string t; if (!(s >> t)) { fprintf(stderr, "HARNESS bad request\n"); exit(99); } return strtod(t.c_str(), nullptr); }
  std::string w(){ std::string t; s >> t; return t; }
};

// exact-size heap block: any access past either end is a sanitizer report; the contents start as given
template< typename F > struct Buf {
  std::unique_ptr< F[] > p; size_t n;
  Buf(size_t n_, F fill = 0) : p(new F[n_]), n(n_) { for (size_t i = 0; i < n; ++i) p[i] = fill; }
  F* get(){ return p.get(); }
  void read(In& in){ for (size_t i = 0; i < n; ++i) p[i] = F(in.d()); }
  void put(std::ostream& o){ char b[40]; for (size_t i = 0; i < n; ++i){ snprintf(b, sizeof b, " %a", double(p[i])); o << b; } }
};

template< typename F > DenseMatrix< F > read_matrix(In& in, long r, long c){
  DenseMatrix< F > A(r, c);
  for (long j = 0; j < c; ++j) for (long i = 0; i < r; ++i) A(i, j) = F(in.d());
  return A;
}
template< typename F > Eigen::SparseMatrix< F > sparse(const DenseMatrix< F >& A){ Eigen::SparseMatrix< F > S = A.sparseView(); S.makeCompressed(); return S; }

template< typename F, typename Op > struct Counted {
  using value_type = F;
  const Op& op; mutable size_t calls = 0;
  Counted(const Op& o) : op(o) {}
  void matvec(const F* x, F* y) const { calls++; op.matvec(x, y); }
  auto shape() const { return op.shape(); }
};

template< typename F, typename Op > void recurrence(const Op& op0, In& in, std::ostream& o){
  Counted< F, Op > op(op0);
  long clamp = in.i(); int deg = in.i(), orth = in.i(); int ncv = in.i(); F rtol = F(in.d());
  auto dim = op.shape();
  if (clamp){ deg = param_deg(deg, dim); ncv = param_ncv(ncv, deg, dim); orth = param_orth(orth, deg, ncv, dim); }
  // outputs hold earlier contents: coefficients a marker, vectors NaN
  Buf< F > q(dim.second), a(deg + 1, F(7)), b(deg + 1, F(7)), V(dim.first * ncv, std::numeric_limits< F >::quiet_NaN());
  q.read(in);
  lanczos_recurrence< F >(op, q.get(), deg, rtol, orth, a.get(), b.get(), V.get(), size_t(ncv));
  o << op.calls << " " << deg << " " << ncv << " " << orth;
  a.put(o); b.put(o); V.put(o);
}

template< typename F, typename Op > void product(const Op& op, In& in, std::ostream& o){
  auto dim = op.shape();
  std::string what = in.w();
  long k = in.i();
  const F old = k % 2 ? F(7) : std::numeric_limits< F >::quiet_NaN(); // earlier contents of the output
  o << dim.first << " " << dim.second;
  if (what == "mv"){ Buf< F > x(dim.second), y(dim.first, old); x.read(in); op.matvec(x.get(), y.get()); y.put(o); x.put(o); }
  else if (what == "rmv"){ if constexpr (requires(F* p){ op.rmatvec(p, p); }) { Buf< F > x(dim.first), y(dim.second, old); x.read(in); op.rmatvec(x.get(), y.get()); y.put(o); x.put(o); } else o << " none"; }
  else { if constexpr (requires(F* p){ op.matmat(p, p, size_t(1)); }) { Buf< F > x(dim.second * k), y(dim.first * k, old); x.read(in); op.matmat(x.get(), y.get(), size_t(k)); y.put(o); x.put(o); } else o << " none"; }
}

template< typename F > void run(In& in, std::ostream& o){
  std::string what = in.w();
  if (what == "orth"){
    long n = in.i(), m = in.i(), start = in.i(), p = in.i(), rev = in.i();
    Buf< F > v(n), U(n * m); v.read(in); U.read(in);
    Eigen::Map< DenseMatrix< F > > Um(U.get(), n, m);
    Eigen::Map< Vector< F > > vm(v.get(), n);
    const auto U_ref = Eigen::Ref< const DenseMatrix< F > >(Um);
    auto v_ref = Eigen::Ref< Vector< F > >(vm);
    if (rev == 2) orth_vector< F >(v_ref, U_ref, int(start), int(p)); else orth_vector< F >(v_ref, U_ref, int(start), int(p), rev != 0);
    v.put(o); U.put(o);
    return;
  }
  if (what == "clamp"){
    int deg = in.i(), ncv = in.i(), orth = in.i(); size_t r = in.i(), c = in.i();
    auto dim = std::make_pair(r, c);
    int d = param_deg(deg, dim), v = param_ncv(ncv, d, dim), h = param_orth(orth, d, v, dim);
    o << " " << d << " " << v << " " << h;
    return;
  }
  if (what == "mod"){ int a = in.i(), b = in.i(); o << " " << mod(a, b); return; }
  std::string kind = in.w(); long r = in.i(), c = in.i();
  auto A = read_matrix< F >(in, r, c);
  auto go = [&](const auto& op){ if (what == "rec") recurrence< F >(op, in, o); else product< F >(op, in, o); };
  if (kind == "dense") go(DenseEigenLinearOperator< F >(A));
  else if (kind == "sparse") go(SparseEigenLinearOperator< F, false >(sparse< F >(A)));
  else if (kind == "gram") go(SparseEigenLinearOperator< F, true >(sparse< F >(A)));
  else if (kind == "affine"){
    std::vector< F > ts(in.i()); // the parameters set one after another, with a product in between
    for (auto& t : ts) t = F(in.d());
    auto B = read_matrix< F >(in, r, c);
    SparseEigenAffineOperator< F > op(sparse< F >(A), sparse< F >(B));
    for (auto t : ts){ Buf< F > x(c, F(1)), y(r); op.matvec(x.get(), y.get()); op.set_parameter(t); }
    go(op);
  }
  else { fprintf(stderr, "HARNESS unknown operator\n"); exit(99); }
}

int main(){
  std::string line;
  while (std::getline(std::cin, line)){
    In in; in.s.str(line);
    std::ostringstream o;
    std::string f = in.w();
    if (f == "f") run< float >(in, o); else run< double >(in, o);
    std::cout << "OK" << " " << o.str() << std::endl;
  }
}
