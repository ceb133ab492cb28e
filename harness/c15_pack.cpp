// C15: arithmetic, comparison and math on packs do in each lane what the scalars do
#include "packmon.hpp"
#include <sstream>
template<typename T,typename S,int N> void mixed (Rng& r) {   // two types: the common type of each lane
  using C=std::common_type_t<T,S>; Pack<T,N> a=rp<T,N>(r,[](Rng& q){ return whole<T>(q); }); Pack<S,N> b=rp<S,N>(r,[](Rng& q){ return fine<S>(q); }); const S s=b[0]; Pack<T,N> d=a; for (int i=0;i<N;++i) if (d[i]==0) d[i]=7; const string in=string(tn<T>())+" and "+tn<S>()+" "+show(a)+show(b);
  auto same=[&](auto p){ static_assert(std::is_same_v<decltype(p),Pack<C,N>>); return p; };
  lanes("mixed-add",same(a+b),[&](int i){ return (C)(a[i]+b[i]); },in); lanes("mixed-sub",same(a-b),[&](int i){ return (C)(a[i]-b[i]); },in); lanes("mixed-mul",same(a*b),[&](int i){ return (C)(a[i]*b[i]); },in); lanes("mixed-div",same(a/b),[&](int i){ return (C)(a[i]/b[i]); },in);
  lanes("mixed-add-scalar",same(a+s),[&](int i){ return (C)(a[i]+s); },in); lanes("mixed-sub-scalar",same(a-s),[&](int i){ return (C)(a[i]-s); },in); lanes("mixed-mul-scalar",same(a*s),[&](int i){ return (C)(a[i]*s); },in); lanes("mixed-div-scalar",same(a/s),[&](int i){ return (C)(a[i]/s); },in);
  lanes("mixed-scalar-sub",same(s-a),[&](int i){ return (C)(s-a[i]); },in); lanes("mixed-scalar-div",same(s/d),[&](int i){ return (C)(s/d[i]); },in);
  Pack<T,N> c(b); lanes("convert",c,[&](int i){ return (T)b[i]; },in); c=a; c=b; lanes("mixed-assign",c,[&](int i){ return (T)b[i]; },in); c=a; c+=b; lanes("mixed-add-assign",c,[&](int i){ return (T)(a[i]+b[i]); },in); c=a; c-=b; lanes("mixed-sub-assign",c,[&](int i){ return (T)(a[i]-b[i]); },in); c=a; c*=b; lanes("mixed-mul-assign",c,[&](int i){ return (T)(a[i]*b[i]); },in); c=a; c/=b; lanes("mixed-div-assign",c,[&](int i){ return (T)(a[i]/b[i]); },in);
  auto cmp=[&](const char* k, const Mask<N>& m, auto w){ int bad=-1; for (int i=0;i<N;++i) if (m[i]!=w(i)) bad=i; VM_CHECK(bad<0,k,k<<" "<<in<<": lane "<<bad<<" is "<<!w(bad<0?0:bad)); };
  if constexpr (std::is_floating_point_v<S> || !std::is_floating_point_v<T>) { const S t=r.range(0,1)?(S)a[0]:s; cmp("mixed-eq",a==t,[&](int i){ return a[i]==t; }); cmp("mixed-ne",a!=t,[&](int i){ return a[i]!=t; }); cmp("mixed-lt",a<t,[&](int i){ return a[i]<t; }); cmp("mixed-le",a<=t,[&](int i){ return a[i]<=t; }); cmp("mixed-gt",a>t,[&](int i){ return a[i]>t; }); cmp("mixed-ge",a>=t,[&](int i){ return a[i]>=t; }); cmp("mixed-scalar-lt",t<a,[&](int i){ return t<a[i]; }); cmp("mixed-scalar-ge",t>=a,[&](int i){ return t>=a[i]; }); }
  c=a; c+=(T)s; lanes("mixed-assign-converted",c,[&](int i){ return (T)(a[i]+(T)s); },in);
  c=a; c.update(b,(T)2,(T)3); lanes("mixed-update",c,[&](int i){ return (T)((T)3*a[i]+(T)2*b[i]); },in); vm::count("mixed_packs"); vm::nontrivial(in);
}
template<typename T,int N> void defaults (Rng& r) {   // a new pack holds zeros, the invalid one the invalid marker
  alignas(Pack<T,N>) unsigned char m[sizeof(Pack<T,N>)+16]; for (auto& c : m) c=(unsigned char)r.range(1,255); unsigned char tail[16]; memcpy(tail,m+sizeof(Pack<T,N>),16);
  auto* p=new (m) Pack<T,N>(); lanes("default",*p,[&](int){ return T(0); },tn<T>()); const auto q=ekat::invalid<Pack<T,N>>(); const auto s=std::is_floating_point_v<T>?std::numeric_limits<T>::quiet_NaN():std::numeric_limits<T>::max(); bool ok=true; for (int i=0;i<N;++i) ok=ok && (std::is_floating_point_v<T>?q[i]!=q[i]:q[i]==s);
  VM_CHECK(ok,"invalid","the invalid pack of " << N << " " << tn<T>() << " holds " << show(q)); VM_CHECK(!memcmp(tail,m+sizeof(Pack<T,N>),16),"default-outside","memory after the pack changed"); const auto* e=new Pack<T,N>[3]; for (int k=0;k<3;++k) lanes("default-array",e[k],[&](int){ return T(0); },tn<T>()); delete[] e; vm::count("defaults"); vm::nontrivial((uint64_t)N*100+sizeof(T));
}
void arith_a (Rng&, int); void arith_b (Rng&, int); void arith_c (Rng&, int); void math_any (Rng&, int);
int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("arithmetic",vm::ncases(4500,150000),[&](Rng& r, long long ic) { const int k=(int)(ic%9); if (k<3) arith_a(r,k); else if (k<6) arith_b(r,k-3); else arith_c(r,k-6); });
  vm::sub("mixed",vm::ncases(3000,80000),[&](Rng& r, long long ic) { switch (ic%7) { case 0: mixed<double,float,8>(r); break; case 1: mixed<float,double,4>(r); break; case 2: mixed<double,int,8>(r); break; case 3: mixed<int,double,4>(r); break; case 4: mixed<int,long,16>(r); break; case 5: mixed<float,int,1>(r); break; default: mixed<double,short,2>(r); } });
  vm::sub("defaults",vm::ncases(100,1000),[&](Rng& r, long long) { defaults<double,1>(r); defaults<double,8>(r); defaults<float,16>(r); defaults<int,4>(r); defaults<long,2>(r); defaults<short,8>(r); });
  vm::sub("math",vm::ncases(2500,80000),[&](Rng& r, long long ic) { math_any(r,(int)(ic%4)); });
  return vm::finish();
}
