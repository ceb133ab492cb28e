// Random packs, and lane by lane comparison with plain scalar arithmetic
#ifndef PACKMON_HPP
#define PACKMON_HPP
#include "vmon.hpp"
#include "ekat_pack.hpp"
#include <limits>
#include <cmath>
using vm::Rng; using std::string; using ekat::Pack; using ekat::Mask;

template<typename T> T rv (Rng& r) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (r.range(0,19)) {
      case 0: return T(0); case 1: return -T(0); case 2: return std::numeric_limits<T>::infinity(); case 3: return -std::numeric_limits<T>::infinity();
      case 4: return std::numeric_limits<T>::quiet_NaN(); case 5: return std::numeric_limits<T>::max(); case 6: return std::numeric_limits<T>::denorm_min(); case 7: return -std::numeric_limits<T>::min();
      case 8: case 9: case 10: return (T)r.range(-9,9); case 11: return (T)r.real(0,1e-5); case 12: return (T)(r.real(-1,1)*1e30);
      default: return (T)r.real(-100,100); }
  } else { const T v=(T)r.range(std::is_unsigned_v<T>?0:-40,40); return v; }
}
template<typename T> T nz (Rng& r) { for (;;) { T v=rv<T>(r); if (std::is_floating_point_v<T> || v!=0) return v; } }   // a divisor
template<typename T> T fin (Rng& r) { if constexpr (std::is_floating_point_v<T>) return r.chance(0.3)?(T)r.range(-9,9):(T)r.real(-100,100); else return rv<T>(r); }
// small values whose sums and products are exact: whole numbers, and quarters where there are any
template<typename T> T whole (Rng& r) { if constexpr (std::is_floating_point_v<T>) if (r.range(0,1)) return (T)r.range(-48,48)/4; return (T)r.range(std::is_unsigned_v<T>?0:-12,12); }
// the same without 0, and in doubles also what is no float
template<typename T> T fine (Rng& r) { T v; do v=whole<T>(r); while (v==0); if constexpr (std::is_same_v<T,double>) if (r.chance(0.3)) v+=std::ldexp(1.0,-30); return v; }
template<typename T,int N,typename G> Pack<T,N> rp (Rng& r, G g) { Pack<T,N> p; for (int i=0;i<N;++i) p[i]=g(r); return p; }
template<int N> Mask<N> rmask (Rng& r) { Mask<N> m; const int k=(int)r.range(0,5); for (int i=0;i<N;++i) m.set(i,k==0?true:k==1?false:r.range(0,1)); return m; }
template<typename P> string show (const P& p) { string s="("; for (int i=0;i<P::n;++i) s+=(i?" ":"")+vm::str(+p[i]); return s+")"; }
// Equal as numbers, and zeros of the same sign
template<typename T> bool eq (T a, T b) { if constexpr (std::is_floating_point_v<T>) if (a==T(0) && b==T(0)) return std::signbit(a)==std::signbit(b); return vm::same_val(a,b); }
template<typename T> const char* tn () { return std::is_same_v<T,double>?"double":std::is_same_v<T,float>?"float":std::is_same_v<T,int>?"int":std::is_same_v<T,short>?"short":std::is_same_v<T,long>?"long":std::is_same_v<T,unsigned>?"unsigned":"?"; }
// Judge every lane of got against want(i)
template<typename T> __attribute__((noinline)) void judge (const char* key, const T* got, const T* want, int n, const string& in) {
  int bad=-1; for (int i=0;i<n;++i) if (!eq(got[i],want[i])) { bad=i; break; }
  VM_CHECK(bad<0,key,key<<" of "<<in<<" gives ("<<vm::join(got,got+n," ")<<"): lane "<<bad<<" should be "<<+want[bad<0?0:bad]);
}
template<typename P, typename W> inline void lanes (const char* key, const P& got, W want, const string& in) {
  typename P::scalar g[P::n], w[P::n]; for (int i=0;i<P::n;++i) { g[i]=got[i]; w[i]=want(i); }
  judge(key,g,w,(int)P::n,in);
}
// The same, but zeros of either sign are the same
template<typename P, typename W> inline void lanes0 (const char* key, const P& got, W want, const string& in) {
  using T=typename P::scalar; P g=got; for (int i=0;i<P::n;++i) g[i]=(T)(g[i]+T(0)); lanes(key,g,[&](int i){ return (T)(want(i)+T(0)); },in);
}
inline bool near_ulp (double a, double b, double eps) { if (a==b || (std::isnan(a)&&std::isnan(b))) return true; if (!std::isfinite(a)||!std::isfinite(b)) return false; return std::fabs(a-b)<=8*eps*std::max(std::fabs(a),std::fabs(b))+(eps<1e-10?1e-306:1e-36); }
#endif
