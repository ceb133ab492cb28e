// Helpers for harnesses over Kokkos views
#ifndef VIEWMON_HPP
#define VIEWMON_HPP
#include "packmon.hpp"
#include "ekat_kokkos_types.hpp"
#include <Kokkos_Core.hpp>
using KT=ekat::KokkosTypes<ekat::DefaultDevice>;
// Visit every index of a view as an array of `rank` numbers, in row-major order
template<typename F> void each_index (const std::vector<int>& ext, F f) {
  long n=1; for (int e : ext) n*=e; std::vector<int> ix(ext.size(),0);
  for (long k=0;k<n;++k) { f(ix,k); for (int d=(int)ext.size()-1;d>=0;--d) { if (++ix[d]<ext[d]) break; ix[d]=0; } }
}
// The same for arrays of any size: every index, or corners and a sample of them
template<typename F> void some_index (const std::vector<int>& ext, F f) {
  double n=1; for (int e : ext) n*=e; if (n<=20000) return each_index(ext,f);
  Rng r(vm::hash_bytes(ext.data(),ext.size()*sizeof(int))); std::vector<int> ix(ext.size());
  for (int s=0;s<60;++s) { unsigned long k=0; const int kind=(int)r.range(0,2); for (size_t d=0;d<ext.size();++d) { ix[d]= s==0?0 : s==1?ext[d]-1 : kind==0&&r.range(0,1)?ext[d]-1 : (int)r.range(0,ext[d]-1); k=k*ext[d]+ix[d]; } f(ix,(long)k); }
}
// Address space for arrays larger than memory, of which only some entries are touched
inline void* vast () {
  static void* p=nullptr; if (!p) { p=mmap(nullptr,size_t(1)<<37,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (p==MAP_FAILED) { perror("mmap"); abort(); } }
  return p;
}
inline void vast_clean () { madvise(vast(),size_t(1)<<37,MADV_DONTNEED); }
// Extents of an array of about 2^bits entries (Kokkos itself is wrong beyond 2^32), each extent below 2^31
inline std::vector<int> vast_ext (Rng& r, int rank, double bits=31.97) {
  std::vector<double> w(rank); double t=0; for (auto& x : w) { x=r.real(0.05,1); t+=x; } std::vector<int> e;
  for (auto x : w) { double b=std::min(30.9,bits*x/t); e.push_back(std::max(1,(int)std::pow(2.0,b))); } return e;
}
template<typename V> V vast_view (const std::vector<int>& e) {
  typename V::array_layout l; for (size_t d=0;d<8;++d) l.dimension[d]=d<e.size()?(size_t)e[d]:KOKKOS_INVALID_INDEX; return V((typename V::pointer_type)vast(),l);
}
template<typename V> std::vector<int> extents (const V& v) { std::vector<int> e; for (int d=0;d<(int)V::Rank;++d) e.push_back((int)v.extent(d)); return e; }
template<typename V> decltype(auto) at (const V& v, const std::vector<int>& i) {
  constexpr int R=V::Rank;
  if constexpr (R==0) return v(); else if constexpr (R==1) return v(i[0]); else if constexpr (R==2) return v(i[0],i[1]); else if constexpr (R==3) return v(i[0],i[1],i[2]);
  else if constexpr (R==4) return v(i[0],i[1],i[2],i[3]); else if constexpr (R==5) return v(i[0],i[1],i[2],i[3],i[4]); else if constexpr (R==6) return v(i[0],i[1],i[2],i[3],i[4],i[5]);
  else if constexpr (R==7) return v(i[0],i[1],i[2],i[3],i[4],i[5],i[6]); else return v(i[0],i[1],i[2],i[3],i[4],i[5],i[6],i[7]);
}
// Make a view with these extents (trailing compile-time dimensions of V must agree)
template<typename V> V make (const std::vector<int>& e) {
  typename V::array_layout l; for (size_t d=0;d<8;++d) l.dimension[d]=d<e.size()?(size_t)e[d]:KOKKOS_INVALID_INDEX; return V("v",l);
}
inline std::vector<int> rext (Rng& r, int rank, int lo, int hi) { std::vector<int> e; for (int d=0;d<rank;++d) e.push_back((int)r.range(lo,hi)); return e; }
// The largest teams of which at least one fits (EKAT halves the threads of a device for double precision)
inline int team_limit () { const int c=KT::ExeSpace().concurrency();
#ifdef EKAT_ENABLE_GPU
  return std::max(1,c/2);
#else
  return c;
#endif
}
struct KokkosMain { KokkosMain (int a=0) { (void)a; Kokkos::InitializationSettings s; s.set_disable_warnings(true); Kokkos::initialize(s); } ~KokkosMain () { Kokkos::finalize(); } };
#endif
