#include "c28_expr.hpp"
// every operator and function in every form of operands, over arrays of rank 2
template<typename EX,typename RF> static void each (const char* what, const EX& ex, const ex::Env<2>& env, const std::vector<int>& e, RF rf) {
  using T=std::remove_cv_t<typename EX::return_type>; auto z=ex::make_rank2<T>(e); ekat::evaluate(ex,z); std::vector<T> want; each_index(e,[&](const std::vector<int>& i, long) { want.push_back((T)rf(at(env.x,i),at(env.y,i),at(env.f,i),at(env.n,i))); });
  std::vector<T> got; each_index(e,[&](const std::vector<int>& i, long) { got.push_back(at(z,i)); }); ex::compare<T>(what,e,got,want); vm::count("single_operations");
}
#define EACH(...) each(#__VA_ARGS__,[&](auto x, auto y, auto f, auto n) { (void)x; (void)y; (void)f; (void)n; using ekat::max; using ekat::min; using ekat::pow; using ekat::if_then_else; return __VA_ARGS__; }(X,Y,F,N),env,e,[&](double x, double y, float f, int n) { (void)x; (void)y; (void)f; (void)n; using namespace plain; return __VA_ARGS__; })
namespace plain { template<typename A,typename B> auto max (A a, B b) { using C=std::common_type_t<A,B>; const C p=a, q=b; return p<q?q:p; } template<typename A,typename B> auto min (A a, B b) { using C=std::common_type_t<A,B>; const C p=a, q=b; return q<p?q:p; } template<typename A,typename B> auto pow (A a, B b) { using C=std::common_type_t<A,B>; return std::pow((C)a,(C)b); }
  using std::sqrt; using std::exp; using std::log; using std::sin; using std::cos; template<typename C,typename A,typename B> auto if_then_else (C c, A a, B b) { using T=std::common_type_t<A,B>; return c?(T)a:(T)b; } }
void part_d () {
  vm::sub("each operator",vm::ncases(60,1000),[](Rng& r, long long) {
    const auto e=rext(r,2,1,12); ex::Env<2> env; ex::fill(env,r,e); const double a=env.a; const int k=env.k; const float g=env.g; auto X=ekat::expression(env.x); auto Y=ekat::expression(env.y); auto F=ekat::expression(env.f); auto N=ekat::expression(env.n);
    EACH(x+y); EACH(x-y); EACH(x*y); EACH(x/y); EACH(x+a); EACH(x-a); EACH(x*a); EACH(x/a); EACH(a+x); EACH(a-x); EACH(a*x); EACH(a/x); EACH(n+n*k-n); EACH(n/k); EACH(k/n); EACH(f*g-f); EACH(f/n); EACH(n-x); EACH(-x); EACH(-(x-y)); EACH(-n);
    EACH(max(x,y)); EACH(min(x,y)); EACH(max(x,a)); EACH(min(a,x)); EACH(max(n,f)); EACH(min(f,x)); EACH(pow(y,n)); EACH(pow(y,a)); EACH(pow(a,f)); EACH(pow(y,k)); EACH(sqrt(y)); EACH(exp(x)); EACH(log(y)); EACH(sin(x)); EACH(cos(x)); EACH(sqrt(f)); EACH(exp(f)); EACH(log(f)); EACH(sin(f)); EACH(cos(f)); EACH(sqrt(n));
    EACH(x==y); EACH(x!=y); EACH(x>y); EACH(x>=y); EACH(x<y); EACH(x<=y); EACH(x==a); EACH(a!=x); EACH(x>a); EACH(a>=x); EACH(x<a); EACH(a<=x); EACH(n<=k); EACH(n>=k); EACH(n==f); EACH(x>y && x<a); EACH(x>y || n==k); EACH(x>y && k>2); EACH(k>2 || x<y); EACH((x<y && n>2) || x==y);
    EACH(if_then_else(x<y,x,y)); EACH(if_then_else(x<y,a,y)); EACH(if_then_else(x<y,n,a)); EACH(if_then_else(x<y,a,k)); EACH(if_then_else(k>2,x,y)); EACH(if_then_else(k>2,n,a)); EACH(if_then_else(k>2,k,f)); EACH(if_then_else(n>2,f,x)); EACH(if_then_else(n-2,x,y));
    for (int q=0;q<4;++q) vm::nontrivial(r.u64());
  });
}
