#include "packmon.hpp"
template<typename T,int N> void math (Rng& r) {
  using P=Pack<T,N>; const double eps=std::numeric_limits<T>::epsilon(); auto gen=[&](double lo,double hi){ return rp<T,N>(r,[&](Rng& q){ return q.chance(0.1)?(T)(int)lo:q.chance(0.1)?(T)(int)hi:(T)q.real(lo,hi); }); };
  auto chk=[&](const char* k, const P& got, const P& in, auto f){ int bad=-1; for (int i=0;i<N;++i) if (!near_ulp(got[i],(double)f(in[i]),eps)) bad=i; VM_CHECK(bad<0,k,k<<show(in)<<" of "<<tn<T>()<<" gives "<<show(got)<<", lane "<<bad<<" should be "<<(bad<0?0:(double)f(in[bad]))); };
  P x=gen(-20,20), p=gen(1e-3,50), s=gen(0.5,8);
  chk("abs",ekat::abs(x),x,[](T v){ return std::fabs(v); }); chk("exp",ekat::exp(x),x,[](T v){ return std::exp(v); }); chk("expm1",ekat::expm1(x),x,[](T v){ return std::expm1(v); }); chk("log",ekat::log(p),p,[](T v){ return std::log(v); }); chk("log10",ekat::log10(p),p,[](T v){ return std::log10(v); });
  chk("tgamma",ekat::tgamma(s),s,[](T v){ return std::tgamma(v); }); chk("sqrt",ekat::sqrt(p),p,[](T v){ return std::sqrt(v); }); chk("cbrt",ekat::cbrt(x),x,[](T v){ return std::cbrt(v); }); chk("tanh",ekat::tanh(x),x,[](T v){ return std::tanh(v); }); chk("erf",ekat::erf(x),x,[](T v){ return std::erf(v); });
  const T e=r.chance(0.3)?(T)r.range(-3,3):(T)r.real(-3,3), b=(T)r.real(0.1,9); P q=gen(-3,3);
  chk("pow-scalar",ekat::pow(p,e),p,[&](T v){ return std::pow(v,e); }); chk("scalar-pow",ekat::pow(b,q),q,[&](T v){ return std::pow(b,v); }); { P g=ekat::pow(p,q); int bad=-1; for (int i=0;i<N;++i) if (!near_ulp(g[i],std::pow(p[i],q[i]),eps)) bad=i; VM_CHECK(bad<0,"pow",show(p)<<"^"<<show(q)<<"="<<show(g)); }
  { const int n=(int)r.range(-3,4); chk("pow-int",ekat::pow(x,n),x,[&](T v){ return (T)std::pow(v,n); }); }
  vm::count("math_packs"); vm::nontrivial(show(x));
}
void math_any (Rng& r, int k) { switch (k) { case 0: math<double,8>(r); break; case 1: math<double,1>(r); break; case 2: math<float,16>(r); break; default: math<double,4>(r); } }
