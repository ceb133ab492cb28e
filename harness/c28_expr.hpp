// Random expression trees made at compile time, with the same trees over plain numbers
#ifndef C28_EXPR_HPP
#define C28_EXPR_HPP
#include "viewmon.hpp"
#include "ekat_expression_eval.hpp"
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
namespace ex {
constexpr uint64_t mx (uint64_t x) { x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
template<typename T,int R> struct PtrT { using type=typename PtrT<T,R-1>::type*; }; template<typename T> struct PtrT<T,0> { using type=T; };
template<typename T,int R,typename L=Kokkos::LayoutRight> using VN=Kokkos::View<typename PtrT<T,R>::type,L,KT::Device>;
// The operands of a tree: four arrays of differing type and layout, and three numbers
template<int R> struct Env { VN<double,R> x; VN<const double,R,Kokkos::LayoutLeft> y; VN<float,R,Kokkos::LayoutStride> f; VN<const int,R> n; double a; float g; int k; };
struct Val { double x, y; float f; int n; double a; float g; int k; };
template<typename A,typename B> constexpr bool ints () { return std::is_integral_v<std::common_type_t<A,B>>; }
template<typename E> decltype(auto) base_or_self_1 (const E& e) { return e.as_base(); }
// OPS: what can be done with two operands (op 0 to 6), at most one of which is a plain number
template<int OP,typename RT,typename A,typename B> auto expr2 (const A& l, const B& r) {
  if constexpr (OP==0) return l+r; else if constexpr (OP==1) return l-r; else if constexpr (OP==2) return l*r; else if constexpr (OP==3) { if constexpr (std::is_integral_v<RT>) return l*r; else return l/r; }
  else if constexpr (OP==4) return ekat::max(l,r); else if constexpr (OP==5) return ekat::min(l,r); else { if constexpr (std::is_integral_v<RT>) return l+r; else return ekat::pow(l,r); }
}
template<int OP,typename A,typename B> auto num2 (const A& l, const B& r) {
  using C=std::common_type_t<A,B>;
  if constexpr (OP==0) return l+r; else if constexpr (OP==1) return l-r; else if constexpr (OP==2) return l*r; else if constexpr (OP==3) { if constexpr (std::is_integral_v<C>) return l*r; else return l/r; }
  else if constexpr (OP==4) { const C p=l, q=r; return p<q?q:p; } else if constexpr (OP==5) { const C p=l, q=r; return q<p?q:p; } else { if constexpr (std::is_integral_v<C>) return l+r; else { const C p=l, q=r; return std::pow(p,q); } }
}
template<int OP,typename A> auto expr1 (const A& e) { if constexpr (OP==0) return -e; else if constexpr (OP==1) return sqrt(e); else if constexpr (OP==2) return exp(e); else if constexpr (OP==3) return log(e); else if constexpr (OP==4) return sin(e); else return cos(e); }
template<int OP,typename A> auto num1 (const A& e) { if constexpr (OP==0) return -e; else if constexpr (OP==1) return std::sqrt(e); else if constexpr (OP==2) return std::exp(e); else if constexpr (OP==3) return std::log(e); else if constexpr (OP==4) return std::sin(e); else return std::cos(e); }
template<int OP,typename A,typename B> auto cmp (const A& l, const B& r) { if constexpr (OP==0) return l==r; else if constexpr (OP==1) return l!=r; else if constexpr (OP==2) return l>r; else if constexpr (OP==3) return l>=r; else if constexpr (OP==4) return l<r; else return l<=r; }
template<uint64_t S> struct Pick { static constexpr uint64_t h=mx(S); static constexpr int kind=(int)(h%10), op=(int)((h>>8)%64), side=(int)((h>>16)%4), lit=(int)((h>>24)%3), ref=(int)((h>>32)%4); };
template<uint64_t S,int D> auto num (const Val& v);
template<uint64_t S,int D> bool pnum (const Val& v);
template<int L> auto literal (const Val& v) { if constexpr (L==0) return v.a; else if constexpr (L==1) return v.g; else return v.k; }
template<uint64_t S,int D> auto num (const Val& v) {
  using P=Pick<S>; if constexpr (D==0) { if constexpr (P::op%4==0) return v.x; else if constexpr (P::op%4==1) return v.y; else if constexpr (P::op%4==2) return v.f; else return v.n; }
  else if constexpr (P::kind<=4) { constexpr int O=P::op%7; if constexpr (P::side==0) return num2<O>(literal<P::lit>(v),num<2*S+1,D-1>(v)); else if constexpr (P::side==1) return num2<O>(num<2*S,D-1>(v),literal<P::lit>(v)); else return num2<O>(num<2*S,D-1>(v),num<2*S+1,D-1>(v)); }
  else if constexpr (P::kind<=6) return num1<P::op%6>(num<2*S,D-1>(v));
  else { using T=std::common_type_t<decltype(num<2*S,D-1>(v)),decltype(num<2*S+1,D-1>(v))>;
    if constexpr (P::side==0) { using U=std::common_type_t<decltype(num<2*S,D-1>(v)),decltype(literal<P::lit>(v))>; return pnum<3*S,D-1>(v)?(U)num<2*S,D-1>(v):(U)literal<P::lit>(v); }
    else if constexpr (P::side==1) { using U=std::common_type_t<decltype(num<2*S+1,D-1>(v)),decltype(literal<P::lit>(v))>; return v.k>2?(U)literal<P::lit>(v):(U)num<2*S+1,D-1>(v); }
    else return pnum<3*S,D-1>(v)?(T)num<2*S,D-1>(v):(T)num<2*S+1,D-1>(v); }
}
template<uint64_t S,int D> bool pnum (const Val& v) {
  using P=Pick<S+77>; if constexpr (D>0 && P::kind<4) { if constexpr (P::op%2) return pnum<2*S,D-1>(v) && pnum<2*S+1,D-1>(v); else return pnum<2*S,D-1>(v) || pnum<2*S+1,D-1>(v); }
  else { constexpr int d=D>0?D-1:0; if constexpr (P::side==0) return cmp<P::op%6>(literal<P::lit>(v),num<2*S+1,d>(v)); else if constexpr (P::side==1) return cmp<P::op%6>(num<2*S,d>(v),literal<P::lit>(v)); else return cmp<P::op%6>(num<2*S,d>(v),num<2*S+1,d>(v)); }
}
template<uint64_t S,int D,typename E> auto tree (const E& v);
template<uint64_t S,int D,typename E> auto ptree (const E& v);
template<int L,typename E> auto elit (const E& v) { if constexpr (L==0) return v.a; else if constexpr (L==1) return v.g; else return v.k; }
template<uint64_t S,int D,typename E> auto tree (const E& v) {
  using P=Pick<S>; if constexpr (D==0) { if constexpr (P::op%4==0) return ekat::expression(v.x); else if constexpr (P::op%4==1) return ekat::expression(v.y); else if constexpr (P::op%4==2) return ekat::expression(v.f); else return ekat::expression(v.n); }
  else if constexpr (P::kind<=4) { constexpr int O=P::op%7; using RT=decltype(num<S,D>(std::declval<Val>()));
    if constexpr (P::side==0) { auto r=tree<2*S+1,D-1>(v); if constexpr (P::ref==0) return expr2<O,RT>(elit<P::lit>(v),r.as_base()); else return expr2<O,RT>(elit<P::lit>(v),r); } else if constexpr (P::side==1) { auto l=tree<2*S,D-1>(v); if constexpr (P::ref==0) return expr2<O,RT>(l.as_base(),elit<P::lit>(v)); else return expr2<O,RT>(l,elit<P::lit>(v)); }
    else { auto l=tree<2*S,D-1>(v); auto r=tree<2*S+1,D-1>(v); if constexpr (P::ref==0) return expr2<O,RT>(l.as_base(),r); else return expr2<O,RT>(l,r); } }
  else if constexpr (P::kind<=6) { auto e=tree<2*S,D-1>(v); if constexpr (P::ref==0) return expr1<P::op%6>(e.as_base()); else return expr1<P::op%6>(e); }
  else { if constexpr (P::side==0) return ekat::if_then_else(ptree<3*S,D-1>(v),tree<2*S,D-1>(v),elit<P::lit>(v)); else if constexpr (P::side==1) return ekat::if_then_else(v.k>2,elit<P::lit>(v),tree<2*S+1,D-1>(v)); else return ekat::if_then_else(ptree<3*S,D-1>(v),tree<2*S,D-1>(v),tree<2*S+1,D-1>(v)); }
}
template<uint64_t S,int D,typename E> auto ptree (const E& v) {
  using P=Pick<S+77>; if constexpr (D>0 && P::kind<4) { if constexpr (P::op%2) return ptree<2*S,D-1>(v) && ptree<2*S+1,D-1>(v); else return ptree<2*S,D-1>(v) || ptree<2*S+1,D-1>(v); }
  else { constexpr int d=D>0?D-1:0; if constexpr (P::side==0) return cmp<P::op%6>(elit<P::lit>(v),tree<2*S+1,d>(v)); else if constexpr (P::side==1) return cmp<P::op%6>(tree<2*S,d>(v),elit<P::lit>(v)); else return cmp<P::op%6>(tree<2*S,d>(v),tree<2*S+1,d>(v)); }
}
template<typename V> V stretch (const std::vector<int>& e, Rng&) { return make<V>(e); }
template<typename T,int R> VN<T,R,Kokkos::LayoutStride> strided (const std::vector<int>& e, Rng& r) {
  if constexpr (R==0) { VN<T,0> v("s"); return v; } else { Kokkos::LayoutStride l; size_t st=(size_t)r.range(1,3); for (int d=R-1;d>=0;--d) { l.dimension[d]=(size_t)e[(size_t)d]; l.stride[d]=st; st*=(size_t)std::max(e[(size_t)d],1)+(size_t)r.range(0,1); } return VN<T,R,Kokkos::LayoutStride>("s",l); }
}
template<int R> void fill (Env<R>& v, Rng& r, const std::vector<int>& e) {
  auto x=make<VN<double,R>>(e); auto y=make<VN<double,R,Kokkos::LayoutLeft>>(e); auto f=strided<float,R>(e,r); auto n=make<VN<int,R>>(e); v.a=r.range(0,1)?(double)r.range(1,5):r.real(0.1,3); v.g=(float)r.real(0.5,2); v.k=(int)r.range(1,4);
  const bool edgy=r.chance(0.3); each_index(e,[&](const std::vector<int>& i, long) { at(x,i)=edgy?rv<double>(r):r.chance(0.3)?(double)r.range(-3,3):r.real(-3,3); at(y,i)=r.chance(0.3)?at(x,i):r.real(0.1,2); at(f,i)=edgy?rv<float>(r):(float)r.real(-2,2); at(n,i)=(int)r.range(1,5); });
  v.x=x; v.y=y; v.f=f; v.n=n;
}
template<typename V> auto dump (const V& v) { std::vector<typename V::non_const_value_type> o; each_index(extents(v),[&](const std::vector<int>& i, long) { o.push_back(at(v,i)); }); return o; }
template<typename T> void compare (const string& what, const std::vector<int>& e, const std::vector<T>& got, const std::vector<T>& want) {
  int bad=-1; for (size_t k=0;k<want.size();++k) if (!vm::same_val(got[k],want[k])) { bad=(int)k; break; }
  VM_CHECK(bad<0,"expression.value",what << " over " << vm::list(e) << ": entry " << bad << (bad<0?"":" is "+vm::str(T(got[(size_t)bad]))+", not "+vm::str(T(want[(size_t)bad]))));
}
// One tree over arrays of rank R: numbers, or (Bool) truth values
template<uint64_t S,int D,int R,bool Bool> void one (Rng& r) {
  const auto e=rext(r,R,r.chance(0.05)?0:1,R<=1?(r.chance(0.2)?500:40):R==2?12:R==3?6:3); std::vector<Val> vals; Env<R> env; fill(env,r,e); each_index(e,[&](const std::vector<int>& i, long) { vals.push_back({at(env.x,i),at(env.y,i),at(env.f,i),at(env.n,i),env.a,env.g,env.k}); });
  auto mk=[](const Env<R>& v) { if constexpr (Bool) return ptree<S,D>(v); else return tree<S,D>(v); }; auto ref=[](const Val& v) { if constexpr (Bool) return pnum<S,D>(v); else return num<S,D>(v); };
  using T=decltype(ref(vals[0])); using E=decltype(mk(env)); static_assert(E::rank()==R); static_assert(std::is_same_v<std::remove_cv_t<typename E::return_type>,T>,"the type of an expression is that of the same expression of plain numbers"); static_assert(std::is_base_of_v<ekat::ExpressionBase<E>,E>);
  const auto ex=mk(env); for (int d=0;d<R;++d) VM_CHECK(ex.extent(d)==e[(size_t)d],"expression.extent","extent " << d << " is " << ex.extent(d) << " not " << e[(size_t)d]);
  std::vector<T> want; for (auto& v : vals) want.push_back(ref(v)); const auto in=std::make_tuple(dump(env.x),dump(env.y),dump(env.f),dump(env.n));
  const string what="tree "+vm::str(S)+" of depth "+vm::str(D)+(Bool?" (truth)":"");
  auto z=make<VN<T,R>>(e); ekat::evaluate(ex,z); compare<T>(what,e,dump(z),want);
  auto zl=make<VN<T,R,Kokkos::LayoutLeft>>(e); ekat::evaluate(ex.as_base(),zl); compare<T>(what+" into LayoutLeft",e,dump(zl),want); auto zs=strided<T,R>(e,r); ekat::evaluate(ex,zs); compare<T>(what+" into a strided view",e,dump(zs),want);
  // later changes to the arrays show, changes to the numbers used do not; and the expression keeps its arrays alive
  Env<R> other=env; env.a=-1; env.k=-1; env.g=-1; if constexpr (!Bool) { auto keep=[&] { Env<R> loc; fill(loc,r,e); std::vector<T> w; each_index(e,[&](const std::vector<int>& i, long) { w.push_back(ref(Val{at(loc.x,i),at(loc.y,i),at(loc.f,i),at(loc.n,i),loc.a,loc.g,loc.k})); }); return std::make_pair(mk(loc),w); }; auto kept=keep(); auto q=make<VN<T,R>>(e); ekat::evaluate(kept.first,q); compare<T>(what+" whose arrays have no other owner",e,dump(q),kept.second); }
  each_index(e,[&](const std::vector<int>& i, long k) { if (k%2) at(other.x,i)=1.5; }); want.clear(); long c=0; for (auto& v : vals) { if (c++%2) v.x=1.5; want.push_back(ref(v)); } ekat::evaluate(ex,z); compare<T>(what+" after its array changed",e,dump(z),want);
  if constexpr (!Bool && std::is_same_v<T,double>) { auto w=make<VN<double,R>>(e); each_index(e,[&](const std::vector<int>& i, long) { at(w,i)=at(other.x,i); }); ekat::evaluate(ex+ekat::expression(w),w); std::vector<double> ww; long j=0; for (auto& v : want) ww.push_back(v+vals[(size_t)j++].x); compare<double>(what+" added to the result array",e,dump(w),ww); }
  // results of other extents are refused and left alone
  if constexpr (R>0) { auto e2=e; e2[(size_t)r.range(0,R-1)]+=r.range(0,1)?1:-1; bool neg=false; for (int d : e2) neg=neg||d<0; if (!neg) { auto b=make<VN<T,R>>(e2); string msg; const int oc=vm::outcome([&] { ekat::evaluate(ex,b); },&msg); bool clean=true; for (T v : dump(b)) clean=clean && v==T(0); VM_CHECK(oc==1 && clean,"expression.refuse",what << " over " << vm::list(e) << " evaluated into a view of " << vm::list(e2) << (oc!=1?" is not refused":" is written to")); vm::count("refused_results"); } }
  (void)in; vm::count("entries",(long long)want.size()); vm::count("trees_rank"+vm::str(R)); if (Bool) vm::count("truth_trees"); for (const T w : want) vm::nontrivial(vm::hash_bytes(&w,sizeof w,S*16+R));
}
template<uint64_t S0,int... I> void many (Rng& r, std::integer_sequence<int,I...>) { (one<S0+(uint64_t)I*1009,(int)(mx(S0+I)%3)+1,I%7,I%5==4>(r),...); }
}
namespace ex { template<typename T> auto make_rank2 (const std::vector<int>& e) { return make<VN<T,2>>(e); } }
void part_b (); void part_c (); void part_d ();
#endif
