// Random tridiagonal problems for the solvers of ekat_tridiag.hpp, with an independent solution
#ifndef TRIDIAG_HPP
#define TRIDIAG_HPP
#include "viewmon.hpp"
#include "ekat_tridiag.hpp"
#include "ekat_team_policy_utils.hpp"
#include <thread>
using namespace ekat; using Member=KT::MemberType;
// A scalar whose operations may be delayed at random: it opens the windows in which a missing barrier shows
struct Slow {
  double v; static inline std::atomic<int> odds{0}; static inline std::atomic<long> naps{0};
  static double lag (double x) { thread_local uint64_t s=(uint64_t)(uintptr_t)&s; const int o=odds.load(std::memory_order_relaxed);
    if (o) { s+=0x9e3779b97f4a7c15ULL; const uint64_t h=vm::mix(s); if (h%o==0) { naps.fetch_add(1,std::memory_order_relaxed); const int k=(int)((h>>32)%16); if (k<2) std::this_thread::sleep_for(std::chrono::microseconds(20+40*k)); else if (k<6) std::this_thread::yield(); else for (volatile int q=0;q<k*30;q=q+1); } } return x; }
  Slow () : v(0) {} Slow (double x) : v(x) {} Slow (int x) : v(x) {}
  friend Slow operator+ (const Slow& a, const Slow& b) { return Slow(lag(a.v+b.v)); } friend Slow operator- (const Slow& a, const Slow& b) { return Slow(lag(a.v-b.v)); } friend Slow operator* (const Slow& a, const Slow& b) { return Slow(lag(a.v*b.v)); }
  friend Slow operator/ (const Slow& a, const Slow& b) { return Slow(lag(a.v/b.v)); } Slow operator- () const { return Slow(-v); }
  Slow& operator+= (const Slow& b) { v=lag(v+b.v); return *this; } Slow& operator-= (const Slow& b) { v=lag(v-b.v); return *this; } Slow& operator*= (const Slow& b) { v=lag(v*b.v); return *this; } Slow& operator/= (const Slow& b) { v=lag(v/b.v); return *this; }
};
// the lanes of a value
template<typename T> struct Lanes { using S=T; static constexpr int n=1; static S get (const T& t, int) { return t; } static void set (T& t, int, double v) { t=(S)v; } };
template<typename S_,int N> struct Lanes<Pack<S_,N>> { using S=S_; static constexpr int n=N; static S get (const Pack<S,N>& t, int l) { return t[l]; } static void set (Pack<S,N>& t, int l, double v) { t[l]=(S)v; } };
template<> struct Lanes<Slow> { using S=double; static constexpr int n=1; static double get (const Slow& t, int) { return t.v; } static void set (Slow& t, int, double v) { t.v=v; } };
enum Method { THOMAS_TEAM, THOMAS_11, THOMAS_1M, THOMAS_MM, CR_11, CR_1M, CR_MM, BFB_1M, BFB_MM, BFB_M1, NMETHODS };
static const char* method_name[]={"team thomas A1xM","thomas A1x1","thomas A1xM","thomas AMxM","cr A1x1","cr A1xM","cr AMxM","bfb A1xM","bfb AMxM","bfb A1(rank 2)xM"};
inline bool many_A (int m) { return m==THOMAS_MM || m==CR_MM || m==BFB_MM; }
inline bool rank1_X (int m) { return m==THOMAS_11 || m==CR_11; }
inline bool rank2_A (int m) { return many_A(m) || m==BFB_M1; }
template<typename A,typename X> struct Prob {   // one team's problem, in exact-size arrays
  int n, na, nx, pa[3]={0,0,0}, px=0, off[4]={0,0,0,0}; std::vector<A> dl0,d0,du0; std::vector<X> x0; double delta=1;   // entries (row, column) at row*ncol+column
  std::unique_ptr<A[]> dl,d,du; std::unique_ptr<X[]> xs;
  Prob (Rng& r, int n_, int na_, int nx_, bool nan_garbage, bool pad_a=false, bool pad_x=false) : n(n_), na(na_), nx(nx_) {
    constexpr int LA=Lanes<A>::n, LX=Lanes<X>::n; const size_t sa=(size_t)n*na, sx=(size_t)n*nx; dl0.resize(sa); d0.resize(sa); du0.resize(sa); x0.resize(sx);
    delta=r.pick(std::vector<double>{0.05,0.2,1,10}); const double zero=r.pick(std::vector<double>{0,0,0.1,0.6,1}); const int wide=(int)r.pick(std::vector<int>{0,0,3,12}); const int signs=(int)r.range(0,2);
    // all of the matrix may be tiny or huge, and may have a structure: constant along diagonals, symmetric, lower or upper triangular
    const int top=std::is_same<typename Lanes<A>::S,float>::value || std::is_same<typename Lanes<X>::S,float>::value ? 15 : 250; const double all=r.chance(0.25) ? std::ldexp(1.0,(int)r.range(-top,top)) : 1;
    const int form=(int)r.pick(std::vector<int>{0,0,0,0,1,2,3,4}); double ta=0, tb=0, td=0, prev=0; if (form) vm::count("structured_matrices"); if (all!=1) vm::count("scaled_matrices");
    for (int c=0;c<na;++c) for (int l=0;l<LA;++l) for (int i=0;i<n;++i) {
      auto sgn=[&] { return r.range(0,1)?1.0:-1.0; }; const double sc=std::ldexp(1.0,(int)r.range(-wide,wide));
      double a=r.chance(zero)?0:r.real(0.1,1)*sc, b=r.chance(zero)?0:r.real(0.1,1)*sc; if (signs==0) { a=-a; b=-b; } else if (signs==1) { a*=sgn(); b*=sgn(); }
      double dd=((i?std::fabs(a):0)+(i<n-1?std::fabs(b):0))*(1+delta)*r.real(1,1.5); if (dd==0) dd=sc*r.real(0.5,2); if (signs==1) dd*=sgn();
      if (form==1) { if (i==0) { ta=a; tb=b; td=(std::fabs(a)+std::fabs(b))*(1+delta)*r.real(1,1.5); if (td==0) td=1; if (signs==1) td*=sgn(); } a=ta; b=tb; dd=td; }
      else if (form>1) { if (form==2 && i) a=prev; if (form==3) b=0; if (form==4) a=0; prev=b;
        const double t=((i?std::fabs(a):0)+(i<n-1?std::fabs(b):0))*(1+delta)*r.real(1,1.5); dd = t==0 ? sc : t; if (signs==1) dd*=sgn(); }
      a*=all; b*=all; dd*=all;
      if (i==0) a=nan_garbage?NAN:r.real(-9,9); if (i==n-1) b=nan_garbage?NAN:r.real(-9,9);   // not part of the matrix
      const size_t k=(size_t)i*na+c; Lanes<A>::set(dl0[k],l,a); Lanes<A>::set(d0[k],l,dd); Lanes<A>::set(du0[k],l,b);
    }
    if (na*LA>1 && r.chance(0.15)) {   // matrices that share their diagonal
      for (int i=0;i<n;++i) { double m=0; for (int c=0;c<na;++c) for (int l=0;l<LA;++l) m=std::max(m,std::fabs((double)Lanes<A>::get(d0[(size_t)i*na+c],l))); for (int c=0;c<na;++c) for (int l=0;l<LA;++l) Lanes<A>::set(d0[(size_t)i*na+c],l,m); }
      vm::count("shared_diagonals");
    }
    const int kind=(int)r.range(0,3); for (int c=0;c<nx;++c) for (int l=0;l<LX;++l) for (int i=0;i<n;++i) Lanes<X>::set(x0[(size_t)i*nx+c],l,kind==0?(i==(c+l)%n):kind==1?r.real(-1,1)*std::ldexp(1.0,(int)r.range(-8,8)):r.real(-1,1));
    if (pad_a) for (int q=0;q<3;++q) { pa[q]=(int)r.range(0,4); off[q]=(int)r.range(0,pa[q]); } if (pad_x) { px=(int)r.range(1,4); off[3]=(int)r.range(0,px); }
    rewind();
  }
  // the arrays may be ranges of columns of wider ones: columns off[] to off[]+na of na+pa[] ones
  template<typename T> static void lay (std::unique_ptr<T[]>& to, const std::vector<T>& from, int n, int nc, int pad, int off) { const size_t w=(size_t)(nc+pad); to.reset(new T[(size_t)n*w]); for (int i=0;i<n;++i) for (size_t c=0;c<w;++c) { T& t=to[(size_t)i*w+c]; if ((int)c>=off && (int)c<off+nc) t=from[(size_t)i*nc+(c-(size_t)off)]; else for (int l=0;l<Lanes<T>::n;++l) Lanes<T>::set(t,l,1234.5); } }
  void rewind () { lay(dl,dl0,n,na,pa[0],off[0]); lay(d,d0,n,na,pa[1],off[1]); lay(du,du0,n,na,pa[2],off[2]); lay(xs,x0,n,nx,px,off[3]); }
  template<typename T> static bool kept (const std::unique_ptr<T[]>& p, int n, int nc, int pad, int off) { const size_t w=(size_t)(nc+pad); for (int i=0;i<n;++i) for (size_t c=0;c<w;++c) if ((int)c<off || (int)c>=off+nc) for (int l=0;l<Lanes<T>::n;++l) if (Lanes<T>::get(p[(size_t)i*w+c],l)!=(typename Lanes<T>::S)1234.5) return false; return true; }
  bool kept () const { return kept(dl,n,na,pa[0],off[0]) && kept(d,n,na,pa[1],off[1]) && kept(du,n,na,pa[2],off[2]) && kept(xs,n,nx,px,off[3]); }
  double got (int i, int c, int l) const { return (double)Lanes<X>::get(xs[(size_t)i*(nx+px)+off[3]+c],l); }
  // Solve for column c, lane l by elimination in long double
  std::vector<long double> solve (int c, int l) const {
    const int ca=na==1?0:c, la=Lanes<A>::n==1?0:l; using L=long double; std::vector<L> lo(n),di(n),up(n),u2(n,0),b(n);
    for (int i=0;i<n;++i) { const size_t k=(size_t)i*na+ca; lo[i]=i?(L)Lanes<A>::get(dl0[k],la):0; di[i]=Lanes<A>::get(d0[k],la); up[i]=i<n-1?(L)Lanes<A>::get(du0[k],la):0; b[i]=Lanes<X>::get(x0[(size_t)i*nx+c],l); }
    for (int i=0;i<n;++i) { lo[i]/=di[i]; up[i]/=di[i]; b[i]/=di[i]; di[i]=1; }   // rows scaled: elimination needs no exchanges then, the matrix being diagonally dominant
    for (int i=0;i+1<n;++i) { const L f=lo[i+1]/di[i]; di[i+1]-=f*up[i]; b[i+1]-=f*b[i]; }
    for (int i=n-1;i>=0;--i) { L v=b[i]; if (i+1<n) v-=up[i]*b[i+1]; b[i]=v/di[i]; }
    return b;
  }
};
template<typename T> using U1=Kokkos::View<T*,Kokkos::LayoutRight,KT::Device,Kokkos::MemoryUnmanaged>;
template<typename T> using U1L=Kokkos::View<T*,Kokkos::LayoutLeft,KT::Device,Kokkos::MemoryUnmanaged>;
template<typename T> using U2=Kokkos::View<T**,Kokkos::LayoutRight,KT::Device,Kokkos::MemoryUnmanaged>;
// May the solver be used with these types? (packs of right sides of one scalar matrix are fine, but not of one matrix for each column)
template<typename A,typename X> constexpr bool mm_ok () { return Lanes<A>::n==Lanes<X>::n; }
// Run a method on the problems, one team each
template<typename A,typename X> void run_problems (int method, std::vector<std::unique_ptr<Prob<A,X>>>& ps, int ts, bool left) {
  std::vector<Prob<A,X>*> pp; for (auto& p : ps) pp.push_back(p.get()); auto** q=pp.data();
  Kokkos::parallel_for(Kokkos::TeamPolicy<KT::ExeSpace>((int)ps.size(),ts),[=](const Member& team) {
    auto& p=*q[team.league_rank()]; const int n=p.n; U1<A> dl1(p.dl.get(),n), d1(p.d.get(),n), du1(p.du.get(),n); U1<X> x1(p.xs.get(),n);
    U1L<A> dl1l(p.dl.get(),n), d1l(p.d.get(),n), du1l(p.du.get(),n); U1L<X> x1l(p.xs.get(),n);
    auto cols=[](auto v, int o, int k) { return Kokkos::subview(v,Kokkos::ALL(),std::make_pair(o,o+k)); };
    U2<A> dl2=cols(U2<A>(p.dl.get(),n,p.na+p.pa[0]),p.off[0],p.na), d2=cols(U2<A>(p.d.get(),n,p.na+p.pa[1]),p.off[1],p.na), du2=cols(U2<A>(p.du.get(),n,p.na+p.pa[2]),p.off[2],p.na); U2<X> x2=cols(U2<X>(p.xs.get(),n,p.nx+p.px),p.off[3],p.nx); auto one=Kokkos::PerTeam(team);
    switch (method) {
      case THOMAS_TEAM: if (left) tridiag::thomas(team,dl1l,d1l,du1l,x2); else tridiag::thomas(team,dl1,d1,du1,x2); break;
      case THOMAS_11: Kokkos::single(one,[&] { if (left) tridiag::thomas(dl1l,d1l,du1l,x1l); else tridiag::thomas(dl1,d1,du1,x1); }); break;
      case THOMAS_1M: Kokkos::single(one,[&] { if (left) tridiag::thomas(dl1l,d1l,du1l,x2); else tridiag::thomas(dl1,d1,du1,x2); }); break;
      case THOMAS_MM: if constexpr (mm_ok<A,X>()) Kokkos::single(one,[&] { tridiag::thomas(dl2,d2,du2,x2); }); break;
      case CR_11: if (left) tridiag::cr(team,dl1l,d1l,du1l,x1l); else tridiag::cr(team,dl1,d1,du1,x1); break;
      case CR_1M: if (left) tridiag::cr(team,dl1l,d1l,du1l,x2); else tridiag::cr(team,dl1,d1,du1,x2); break;
      case CR_MM: if constexpr (mm_ok<A,X>()) tridiag::cr(team,dl2,d2,du2,x2); break;
      case BFB_1M: if (left) tridiag::bfb(team,dl1l,d1l,du1l,x2); else tridiag::bfb(team,dl1,d1,du1,x2); break;
      default: tridiag::bfb(team,dl2,d2,du2,x2);
    }
  });
}
#endif
