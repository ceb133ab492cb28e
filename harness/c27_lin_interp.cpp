// C27: linear interpolation gives the piecewise linear function through the points, and reads and writes nothing else
#include "viewmon.hpp"
#include "ekat_lin_interp.hpp"
#include "ekat_subview_utils.hpp"
#include <algorithm>
#include <thread>
using namespace ekat; using Member=KT::MemberType;
template<typename T> using H2=std::vector<std::vector<T>>;
template<typename P> using U1=Kokkos::View<P*,KT::Layout,KT::Device,Kokkos::MemoryUnmanaged>;
template<typename T,int N> struct Cols {   // columns of packs, each in an array of its own of exactly the size needed
  using P=Pack<T,N>; int n, np; std::vector<std::unique_ptr<P[]>> m;
  Cols (int nc, int n_, T pad) : n(n_), np((n_+N-1)/N) { for (int c=0;c<nc;++c) { m.emplace_back(new P[(size_t)np]); for (int k=0;k<np*N;++k) m.back()[(size_t)(k/N)][k%N]=pad; } }
  void put (const H2<T>& v) { for (size_t c=0;c<m.size();++c) for (int k=0;k<n;++k) m[c][(size_t)(k/N)][k%N]=v[c][(size_t)k]; }
  T get (int c, int k) const { return m[(size_t)c][(size_t)(k/N)][k%N]; }
  auto w (int c) const { return typename KT::template view_1d<P>(U1<P>(m[(size_t)c].get(),np).data(),np); }
};
template<typename T> T ulp () { return std::numeric_limits<T>::epsilon(); }
struct In { int nc, km1, km2, nv; };
template<typename T> void make (Rng& r, const In& q, H2<T>& x1, H2<T>& x2, std::vector<H2<T>>& y1) {
  x1.assign((size_t)q.nc,{}); x2=x1; y1.assign((size_t)q.nv,x1);
  for (int c=0;c<q.nc;++c) {
    auto& a=x1[(size_t)c]; const int kind=(int)r.range(0,3); T x=(T)r.real(-100,100); for (int k=0;k<q.km1;++k) { a.push_back(x); const T dx=(T)(kind==0?1.0:kind==1?r.real(0.1,2):std::ldexp(r.real(1,2),(int)r.range(-6,6))); x=std::max((T)(x+dx),std::nextafter(x,std::numeric_limits<T>::max())); if (kind==3 && k%3==0) x=std::nextafter(a.back(),std::numeric_limits<T>::max()); }
    const bool sorted=r.range(0,1); const T lo=a.front(), hi=a.back(), w=std::max(hi-lo,(T)1e-3); auto& b=x2[(size_t)c];
    for (int k=0;k<q.km2;++k) { T v; switch (r.range(0,7)) { case 0: case 1: v=a[(size_t)r.range(0,q.km1-1)]; break; case 2: { const T p=a[(size_t)r.range(0,q.km1-1)]; v=std::nextafter(p,r.range(0,1)?hi+w:lo-w); break; } case 3: v=r.range(0,1)?lo-(T)r.real(0,2)*w:hi+(T)r.real(0,2)*w; break; case 4: v=r.range(0,1)?lo:hi; break; default: v=lo+(T)r.real01()*(hi-lo); } b.push_back(v); }
    if (sorted) std::sort(b.begin(),b.end());
    for (int v=0;v<q.nv;++v) { auto& y=y1[(size_t)v][(size_t)c]; const int yk=(int)r.range(0,2); for (int k=0;k<q.km1;++k) y.push_back((T)(yk==0?r.real(-50,50):yk==1?3.0*(double)a[(size_t)k]+1:std::ldexp(r.real(-1,1),(int)r.range(-10,10)))); }
  }
}
template<typename T,int N> void interp (const char* tn) {
  using LI=LinInterp<T,N>; using P=Pack<T,N>;
  vm::sub(string("interpolate ")+tn+vm::str(N),vm::ncases(250,5000),[&](Rng& r, long long) {
    const int nthr=KT::ExeSpace().concurrency(); const In q{(int)r.range(1,6),(int)r.range(2,r.chance(0.02)?4000:r.chance(0.2)?200:20),(int)r.range(1,r.chance(0.02)?4000:r.chance(0.2)?200:20),(int)r.range(1,3)};
    H2<T> x1,x2; std::vector<H2<T>> y1; make(r,q,x1,x2,y1); const T pad=r.chance(0.5)?(T)NAN:(T)r.real(-1e6,1e6);
    Cols<T,N> X1(q.nc,q.km1,pad), X2(q.nc,q.km2,pad); X1.put(x1); X2.put(x2); std::vector<std::unique_ptr<Cols<T,N>>> Y1,Y2; for (int v=0;v<q.nv;++v) { Y1.emplace_back(new Cols<T,N>(q.nc,q.km1,pad)); Y1.back()->put(y1[(size_t)v]); Y2.emplace_back(new Cols<T,N>(q.nc,q.km2,(T)-7777)); }
    const bool stretched=r.chance(0.3); const int ncol_max=q.nc+(stretched?(int)r.range(0,3):0), shift=stretched?ncol_max-q.nc:0;   // more columns than used, addressed by number
    const LI li(ncol_max,q.km1,q.km2); VM_CHECK(li.km1_pack()==(q.km1+N-1)/N && li.km2_pack()==(q.km2+N-1)/N,"lin_interp.packs","km1_pack and km2_pack of " << q.km1 << " and " << q.km2 << " with packs of " << N << ": " << li.km1_pack() << ", " << li.km2_pack());
    const LI* L=&li; const auto *pX1=&X1, *pX2=&X2; auto *pY1=&Y1, *pY2=&Y2; const int mode=(int)r.range(0,3), ts=(int)r.range(1,nthr); const bool barrier=r.range(0,1); const uint64_t h=r.u64();
    auto lag=[](uint64_t g) { g=vm::mix(g); if (g%5==0) std::this_thread::sleep_for(std::chrono::microseconds(g>>32&63)); };
    if (mode<=1) {   // a team per column; the default ranges
      auto body=[=](const Member& t) {
        const int c=t.league_rank(), col=shift?c+shift:r.s%2?c:-1; lag(h+c*64+t.team_rank());
        if (h%3==0) { typename KT::template view_1d<const P> a=pX1->w(c), b=pX2->w(c); if (col<0) L->setup(t,a,b); else L->setup(t,a,b,col); } else if (col<0) L->setup(t,pX1->w(c),pX2->w(c)); else L->setup(t,Kokkos::TeamVectorRange(t,L->km2_pack()),pX1->w(c),pX2->w(c),col);
        if (barrier) t.team_barrier();
        for (int v=0;v<(int)pY1->size();++v) { lag(h+v*7+t.team_rank()); auto y=(*pY1)[(size_t)v]->w(c); auto z=(*pY2)[(size_t)v]->w(c); if (h%2) { typename KT::template view_1d<const P> yc=y; L->lin_interp(t,pX1->w(c),pX2->w(c),yc,z,col); } else if (col<0) L->lin_interp(t,pX1->w(c),pX2->w(c),y,z); else L->lin_interp(t,Kokkos::TeamVectorRange(t,L->km2_pack()),pX1->w(c),pX2->w(c),y,z,col); }
      };
      if (mode==0 && !shift) { Kokkos::TeamPolicy<KT::ExeSpace> pol(q.nc,ts); Kokkos::parallel_for(pol,body); } else if (ncol_max==q.nc) Kokkos::parallel_for(li.policy(),body); else Kokkos::parallel_for(Kokkos::TeamPolicy<KT::ExeSpace>(q.nc,ts),body);
      vm::count("team_per_column");
    } else if (mode==2) {   // one team; its threads take the columns
      Kokkos::parallel_for(Kokkos::TeamPolicy<KT::ExeSpace>(1,ts),[=](const Member& t) { Kokkos::parallel_for(Kokkos::TeamThreadRange(t,(int)pX1->m.size()),[&](int c) {
        L->setup(t,Kokkos::ThreadVectorRange(t,L->km2_pack()),pX1->w(c),pX2->w(c),c+shift); lag(h+c); for (int v=0;v<(int)pY1->size();++v) L->lin_interp(t,Kokkos::ThreadVectorRange(t,L->km2_pack()),pX1->w(c),pX2->w(c),(*pY1)[(size_t)v]->w(c),(*pY2)[(size_t)v]->w(c),c+shift); }); }); vm::count("thread_per_column");
    } else {   // a team per column sets up; its threads take the fields
      Kokkos::parallel_for(Kokkos::TeamPolicy<KT::ExeSpace>(q.nc,ts),[=](const Member& t) { const int c=t.league_rank(); L->setup(t,pX1->w(c),pX2->w(c),c+shift); t.team_barrier(); Kokkos::parallel_for(Kokkos::TeamThreadRange(t,(int)pY1->size()),[&](int v) { lag(h+v); L->lin_interp(t,Kokkos::ThreadVectorRange(t,L->km2_pack()),pX1->w(c),pX2->w(c),(*pY1)[(size_t)v]->w(c),(*pY2)[(size_t)v]->w(c),c+shift); }); }); vm::count("thread_per_field");
    }
    for (int c=0;c<q.nc;++c) for (int k=0;k<q.km2;++k) {
      const auto& a=x1[(size_t)c]; const T x=x2[(size_t)c][(size_t)k]; int s=0; while (s+2<q.km1 && a[(size_t)s+1]<=x) ++s;   // the segment
      const bool below=x<a.front(), above=x>a.back(); if (below||above) vm::count("extrapolated");
      for (int v=0;v<q.nv;++v) {
        const auto& y=y1[(size_t)v][(size_t)c]; using D=long double; const D t=((D)x-a[(size_t)s])/((D)a[(size_t)s+1]-a[(size_t)s]), want=y[(size_t)s]+t*((D)y[(size_t)s+1]-y[(size_t)s]); const T got=Y2[(size_t)v]->get(c,k); const D tol=16*ulp<T>()*(std::fabs((D)y[(size_t)s])+std::fabs((D)y[(size_t)s+1]))*(1+std::fabs(t));
        VM_CHECK(std::fabs(got-want)<=tol,"lin_interp.value",tn << N << ", column " << c << " of " << q.nc << ", " << q.km1 << " points to " << q.km2 << ": at " << x << (below?" (below)":above?" (above)":"") << ", between points " << s << " and " << s+1 << ", " << got << ", not " << (double)want);
        const auto it=std::find(a.begin(),a.end(),x); if (it!=a.end()) { VM_CHECK(got==y[(size_t)(it-a.begin())],"lin_interp.node",tn << N << ": at point " << it-a.begin() << " of " << q.km1 << " gives " << got << ", not the value there, " << y[(size_t)(it-a.begin())]); vm::count("at_points"); }
      }
      vm::count("interpolated");
    }
    for (int c=0;c<q.nc;++c) { bool ok=true; for (int k=0;k<q.km1;++k) { ok=ok && X1.get(c,k)==x1[(size_t)c][(size_t)k]; for (int v=0;v<q.nv;++v) ok=ok && Y1[(size_t)v]->get(c,k)==y1[(size_t)v][(size_t)c][(size_t)k]; } for (int k=0;k<q.km2;++k) ok=ok && X2.get(c,k)==x2[(size_t)c][(size_t)k]; VM_CHECK(ok,"lin_interp.inputs",tn << N << ": an input changed"); }
    vm::nontrivial(vm::mix(h)); if (ts>1) vm::count("multi_thread"); if (q.km1==2) vm::count("two_points");
  });
  // views whose packs have another size than the interpolator's, and plain scalars
  vm::sub(string("repacked ")+tn+vm::str(N),vm::ncases(60,1000),[&](Rng& r, long long) {
    const In q{(int)r.range(1,3),(int)r.range(2,40),(int)r.range(1,40),1}; H2<T> x1,x2; std::vector<H2<T>> y1; make(r,q,x1,x2,y1); const int n1=(q.km1+15)/16*16, n2=(q.km2+15)/16*16; using V=typename KT::template view_2d<T>; using W=typename KT::template view_2d<Pack<T,16>>;
    V a("a",q.nc,n1), b("b",q.nc,n2), y("y",q.nc,n1), z("z",q.nc,n2), zz("zz",q.nc,n2); for (int c=0;c<q.nc;++c) { for (int k=0;k<q.km1;++k) { a(c,k)=x1[(size_t)c][(size_t)k]; y(c,k)=y1[0][(size_t)c][(size_t)k]; } for (int k=0;k<q.km2;++k) b(c,k)=x2[(size_t)c][(size_t)k]; }
    W aw=W((Pack<T,16>*)a.data(),q.nc,n1/16), bw=W((Pack<T,16>*)b.data(),q.nc,n2/16), yw=W((Pack<T,16>*)y.data(),q.nc,n1/16), zw=W((Pack<T,16>*)zz.data(),q.nc,n2/16); LI li(q.nc,q.km1,q.km2); LinInterp<T,1> one(q.nc,q.km1,q.km2); V z1("z1",q.nc,n2); const auto* L=&li; const auto* L1=&one;
    Kokkos::parallel_for(Kokkos::TeamPolicy<KT::ExeSpace>(q.nc,(int)r.range(1,KT::ExeSpace().concurrency())),[=](const Member& t) { const int c=t.league_rank(); auto s=[&](auto v) { return ekat::subview(v,c); };
      L->setup(t,s(a),s(b)); L->lin_interp(t,s(a),s(b),s(y),s(z)); t.team_barrier(); L->setup(t,s(aw),s(bw)); L->lin_interp(t,s(aw),s(bw),s(yw),s(zw)); t.team_barrier(); L1->setup(t,s(a),s(b)); L1->lin_interp(t,s(a),s(b),s(y),s(z1)); });
    bool ok=true; int at=0; for (int c=0;c<q.nc;++c) for (int k=0;k<q.km2;++k) { const T p=z(c,k), s=zz(c,k), o=z1(c,k); auto close=[&](T f, T g) { return std::fabs(f-g)<=64*ulp<T>()*std::max({std::fabs(f),std::fabs(g),(T)1}) || vm::same_bits(f,g); }; if (!vm::same_bits(p,s) || !close(p,o)) { ok=false; at=k; } }
    VM_CHECK(ok,"lin_interp.repack",tn << N << ": " << q.km1 << " points to " << q.km2 << ": the result at " << at << " depends on the packing of the views or of the interpolator"); vm::count("repacked"); vm::nontrivial(r.u64());
  });
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain km;
  interp<double,1>("double"); interp<double,4>("double"); interp<double,16>("double"); interp<float,2>("float"); interp<float,8>("float");
  return vm::finish();
}
