// C19: copies between host arrays and (packed) device views keep every entry, in C and Fortran order
#include "viewmon.hpp"
#include <sys/mman.h>
#include "ekat_pack_kokkos.hpp"
using namespace ekat; using TD=TransposeDirection;
template<typename T> T val (Rng& r) { if constexpr (std::is_same_v<T,bool>) return r.range(0,1); else return (T)r.range(-1000000,1000000); }
// A host array with guard entries at both ends
template<typename T> struct HArr {
  std::vector<std::conditional_t<std::is_same_v<T,bool>,char,T>> b; long n; static constexpr int G=5; unsigned char g;
  HArr (long n_, Rng& r) : b(n_+2*G), n(n_), g((unsigned char)r.range(0,1)) { for (auto& x : b) { if constexpr (std::is_same_v<T,bool>) x=(char)g; else x=(T)(g?77:-55); } }
  T* p () { return reinterpret_cast<T*>(b.data())+G; }
  bool guards () { for (int i=0;i<G;++i) { auto w=std::is_same_v<T,bool>?(T)g:(T)(g?77:-55); if ((T)b[i]!=w || (T)b[b.size()-1-i]!=w) return false; } return true; }
};
template<typename T> struct El { using scalar=T; static constexpr int n=1; static T get (const T& x, int) { return x; } static void set (T& x, int, T v) { x=v; } };
template<typename T,int N> struct El<Pack<T,N>> { using scalar=T; static constexpr int n=N; static T get (const Pack<T,N>& x, int s) { return x[s]; } static void set (Pack<T,N>& x, int s, T v) { x[s]=v; } };
template<int R,typename E> using V=KT::view_ND<E,R>;
template<int R,typename E,typename SZ> void trip (Rng& r) {
  using T=typename El<E>::scalar; constexpr int N=El<E>::n; using VT=V<R,E>; const int nv=(int)r.range(0,4); const bool uniform=r.range(0,1), prealloc=r.range(0,1), tr=R>1&&r.range(0,1); const TD::Enum dir=r.chance(0.8)?TD::f2c:TD::c2f;
  std::vector<std::vector<SZ>> sz(R,std::vector<SZ>(nv)); std::vector<size_t> u(R); const int far=r.chance(0.04)?(int)r.range(0,R-1):-1; auto size_of=[&](int d) { return (size_t)(d==far?r.range(14,R==1?3000:300):r.range(r.chance(0.1)?0:1,R==3?6:13)); }; for (int d=0;d<R;++d) u[d]=size_of(d);
  for (int d=0;d<R;++d) for (int v=0;v<nv;++v) sz[d][v]=(SZ)(uniform?u[d]:size_of(d));
  // entries of the list that name the data of the entry before, maybe in another shape
  std::vector<bool> again(nv); for (int v=1;v<nv;++v) if (r.chance(0.25)) { again[v]=true; if (!uniform) { std::vector<int> p; for (int d=0;d<R;++d) p.push_back(d); for (int d=R-1;d>0;--d) std::swap(p[d],p[r.range(0,d)]); for (int d=0;d<R;++d) sz[d][v]=sz[p[d]][v-1]; if (R>1 && r.chance(0.3)) { sz[0][v]*=sz[R-1][v]; sz[R-1][v]=1; } } }
  auto dim=[&](int v,int d){ return (long)sz[d][v]; }; auto tot=[&](int v){ long t=1; for (int d=0;d<R;++d) t*=dim(v,d); return t; }; auto ext=[&](int v){ std::vector<int> e; for (int d=0;d<R;++d) e.push_back((int)dim(v,d)); return e; };
  // where (i,j,k) of the C-ordered array is found in the host array
  auto pos=[&](int v,const std::vector<int>& ix,long flat,TD::Enum d) { if (!tr) return flat; long f=0; if (d==TD::f2c) { for (int q=R-1;q>=0;--q) f=f*dim(v,q)+ix[q]; return f; }
    // c2f: the C-ordered array is read at the place its flat position has in Fortran order
    long rem=flat; std::vector<long> i(R); for (int q=0;q<R;++q) { i[q]=rem%dim(v,q); rem/=dim(v,q); } f=0; for (int q=0;q<R;++q) f=f*dim(v,q)+i[q]; return f; };
  std::vector<HArr<T>> in; std::vector<const T*> ip; std::vector<VT> views(nv); string what="rank "+vm::str(R)+" packs of "+vm::str(N)+" of "+typeid(T).name()+(uniform?" uniform":"")+(prealloc?" preallocated":"")+(tr?dir==TD::f2c?" f2c":" c2f":"")+":";
  for (int v=0;v<nv;++v) { if (again[v]) { auto h=in.back(); in.push_back(h); } else { in.emplace_back(tot(v),r); for (long i=0;i<tot(v);++i) in.back().p()[i]=val<T>(r); } what+=(again[v]?" again ":" ")+vm::list(ext(v)); }
  for (int v=0;v<nv;++v) { ip.push_back(again[v]?ip.back():in[v].p()); if (again[v]) vm::count("data_named_twice"); } auto copy=in;
  if (prealloc) for (int v=0;v<nv;++v) { auto e=ext(v); e.back()=(e.back()+N-1)/N; views[v]=make<VT>(e); }
  auto hd=[&](auto& vs){
    if constexpr (R==1) { if (uniform) host_to_device(ip,u[0],vs); else host_to_device(ip,sz[0],vs); }
    else if constexpr (R==2) { if (uniform) { if (tr) host_to_device(ip,u[0],u[1],vs,true,dir); else host_to_device(ip,u[0],u[1],vs); } else { if (tr&&dir==TD::f2c) host_to_device(ip,sz[0],sz[1],vs,true); else host_to_device(ip,sz[0],sz[1],vs,tr,dir); } }
    else { if (uniform) { if (tr) host_to_device(ip,u[0],u[1],u[2],vs,true,dir); else host_to_device(ip,u[0],u[1],u[2],vs); } else { if (tr&&dir==TD::f2c) host_to_device(ip,sz[0],sz[1],sz[2],vs,true); else host_to_device(ip,sz[0],sz[1],sz[2],vs,tr,dir); } } };
  if (prealloc) { const auto& cv=views; std::vector<const void*> was; for (auto& v : views) was.push_back(v.data()); hd(cv); for (int v=0;v<nv;++v) VM_CHECK(views[v].data()==was[v],"preallocated",what); } else hd(views);
  bool ok=true, shape=true; for (int v=0;v<nv;++v) { auto e=ext(v); auto pe=e; pe.back()=(e.back()+N-1)/N; if (extents(views[v])!=pe) { shape=false; continue; }
    each_index(e,[&](const std::vector<int>& ix,long k){ auto px=ix; px.back()/=N; ok=ok&&El<E>::get(at(views[v],px),ix.back()%N)==in[v].p()[pos(v,ix,k,dir)]; }); }
  VM_CHECK(shape,"shape",what); VM_CHECK(ok,"host-to-device",what); bool same=true; for (int v=0;v<nv;++v) same=same&&in[v].b==copy[v].b; VM_CHECK(same,"source-untouched",what);
  if (!shape) return;
  // and back, from changed views
  for (int v=0;v<nv;++v) each_index(ext(v),[&](const std::vector<int>& ix,long){ auto px=ix; px.back()/=N; El<E>::set(at(views[v],px),ix.back()%N,val<T>(r)); });
  std::vector<HArr<T>> out; std::vector<T*> op; for (int v=0;v<nv;++v) out.emplace_back(tot(v),r); for (auto& h : out) op.push_back(h.p()); const TD::Enum back=r.chance(0.8)?TD::c2f:TD::f2c;
  if constexpr (R==1) { if (uniform) device_to_host(op,u[0],views); else device_to_host(op,sz[0],views); }
  else if constexpr (R==2) { if (uniform) { if (tr) device_to_host(op,u[0],u[1],views,true,back); else device_to_host(op,u[0],u[1],views); } else { if (tr&&back==TD::c2f) device_to_host(op,sz[0],sz[1],views,true); else device_to_host(op,sz[0],sz[1],views,tr,back); } }
  else { if (uniform) { if (tr) device_to_host(op,u[0],u[1],u[2],views,true,back); else device_to_host(op,u[0],u[1],u[2],views); } else { if (tr&&back==TD::c2f) device_to_host(op,sz[0],sz[1],sz[2],views,true); else device_to_host(op,sz[0],sz[1],sz[2],views,tr,back); } }
  ok=true; bool guard=true; for (int v=0;v<nv;++v) { guard=guard&&out[v].guards(); std::vector<T> c; c.reserve(tot(v)); each_index(ext(v),[&](const std::vector<int>& ix,long){ auto px=ix; px.back()/=N; c.push_back(El<E>::get(at(views[v],px),ix.back()%N)); });
    each_index(ext(v),[&](const std::vector<int>& ix,long k){ if (!tr || back==TD::c2f) ok=ok&&out[v].p()[pos(v,ix,k,TD::f2c)]==(T)c[k]; else { long f=0; for (int q=R-1;q>=0;--q) f=f*dim(v,q)+ix[q]; ok=ok&&out[v].p()[k]==(T)c[f]; } }); }
  VM_CHECK(ok,"device-to-host",what); VM_CHECK(guard,"guards",what); vm::count(tr?"transposed_trips":"trips",nv); vm::nontrivial(what); vm::sample(what);
}
template<typename T> void turn (Rng& r) {
  const bool far=r.chance(0.03); const int ni=(int)r.range(0,far?200:9), nk=(int)r.range(0,far?90:9), nj=(int)r.range(0,7); const string in=vm::str(ni)+"x"+vm::str(nk)+"x"+vm::str(nj);
  auto one=[&](bool three,bool comp,TD::Enum d){ const long n=three?(long)ni*nk*nj:(long)ni*nk; HArr<T> s(n,r), t(n,r), b(n,r); for (long i=0;i<n;++i) s.p()[i]=(T)(i+1); 
    auto go=[&](const T* x,T* y,TD::Enum w){ if (three) { if (!comp) transpose(x,y,ni,nk,nj,w); else if (w==TD::c2f) transpose<TD::c2f>(x,y,ni,nk,nj); else transpose<TD::f2c>(x,y,ni,nk,nj); } else { if (!comp) transpose(x,y,ni,nk,w); else if (w==TD::c2f) transpose<TD::c2f>(x,y,ni,nk); else transpose<TD::f2c>(x,y,ni,nk); } };
    go(s.p(),t.p(),d); bool ok=true; for (int i=0;i<ni;++i) for (int k=0;k<nk;++k) for (int j=0;j<(three?nj:1);++j) { const long c=three?((long)i*nk+k)*nj+j:(long)i*nk+k, f=three?((long)j*nk+k)*ni+i:(long)k*ni+i; ok=ok&&(d==TD::c2f?t.p()[f]==s.p()[c]:t.p()[c]==s.p()[f]); }
    VM_CHECK(ok,"transpose",in<<(d==TD::c2f?" c2f":" f2c")); VM_CHECK(t.guards()&&s.guards(),"transpose-guards",in); go(t.p(),b.p(),d==TD::c2f?TD::f2c:TD::c2f); VM_CHECK(std::equal(b.p(),b.p()+n,s.p()),"transpose-inverse",in); };
  one(false,r.range(0,1),r.range(0,1)?TD::c2f:TD::f2c); one(true,r.range(0,1),r.range(0,1)?TD::c2f:TD::f2c); vm::count("transposes"); vm::nontrivial(in);
}
// Arrays of more entries than an int can number: what is assigned is only noted, until enough was seen
struct Noted {   // an entry that notes where each assignment took its value from, through copies too, and touches no memory
  struct Enough {}; inline static const Noted *s=nullptr, *d=nullptr; inline static size_t n=0; inline static std::vector<std::pair<long,long>> log; inline static std::map<const Noted*,long> held; char c;
  static bool in (const Noted* p, const Noted* base) { return std::less_equal<>()(base,p) && std::less<>()(p,base+n); }
  static long origin (const Noted& o) { if (in(&o,s)) return &o-s; auto it=held.find(&o); return it==held.end()?-1:it->second; }
  Noted (const Noted& o) { held[this]=origin(o); }
  Noted& operator= (const Noted& o) { if (!in(this,d)) { held[this]=origin(o); return *this; } log.emplace_back(this-d,origin(o)); if (log.size()==40000) throw Enough(); return *this; }
};
inline void vast_turn (Rng& r) {
  const bool three=r.range(0,1); const int ni=(int)r.range(three?2000:50000,three?4000:90000), nk=(int)r.range(three?2000:50000,three?3000:90000), nj=three?(int)r.range(600,1500):1; const size_t n=(size_t)ni*nk*nj; const TD::Enum w=r.range(0,1)?TD::c2f:TD::f2c; const string in=vm::str(ni)+"x"+vm::str(nk)+"x"+vm::str(nj)+(w==TD::c2f?" c2f":" f2c");
  auto map=[&] { void* p=mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (p==MAP_FAILED) { fprintf(stderr,"no room for a mapping of %zu bytes\n",n); exit(3); } return static_cast<Noted*>(p); };
  Noted *a=map(), *b=map(); Noted::s=a; Noted::d=b; Noted::n=n; Noted::log.clear(); Noted::held.clear(); try { if (three) transpose(a,b,ni,nk,nj,w); else transpose(a,b,ni,nk,w); } catch (const Noted::Enough&) {}
  string bad; long top=0; if (Noted::log.empty()) bad="nothing was assigned"; for (auto& p : Noted::log) { const long c=w==TD::c2f?p.second:p.first, f=w==TD::c2f?p.first:p.second; const long j=c%nj, k=c/nj%nk, i=c/nj/nk; top=std::max(top,std::max(c,f)); if (bad.empty() && (p.first<0 || p.second<0 || (size_t)p.first>=n || (size_t)p.second>=n || (size_t)c>=n || f!=(j*nk+k)*ni+i)) bad="entry "+vm::str(p.first)+" was set from entry "+vm::str(p.second); }
  if (top>0x7fffffffL) vm::count("past_the_ints"); VM_CHECK(bad.empty(),"vast-transpose",in<<": "<<bad); vm::count("vast_transposes"); vm::nontrivial(in); munmap(a,n); munmap(b,n);
}
#ifndef NDEBUG
template<int R,typename E> void mismatch (Rng& r) {   // in debug builds, lists of different lengths are refused before anything is touched
  using T=typename El<E>::scalar; const int n=(int)r.range(0,3); int k[R+2]; for (int& x : k) x=n; const int odd=(int)r.range(0,R+1); k[odd]+=(int)r.range(1,2)*(n>1&&r.range(0,1)?-1:1);
  std::vector<T> h(8,T(1)), o(8,T(9)); std::vector<const T*> ip(k[0],h.data()); std::vector<T*> op(k[0],o.data()); std::vector<int> s[R]; for (int d=0;d<R;++d) s[d].assign(k[d+1],2); std::vector<V<R,E>> vs(k[R+1]); for (auto& v : vs) { std::vector<int> e(R,2); e.back()=(2+El<E>::n-1)/El<E>::n; v=make<V<R,E>>(e); }
  const string in="rank "+vm::str(R)+": "+vm::join(k,k+R+2);
  VM_CHECK(vm::throws([&]{ if constexpr (R==1) host_to_device(ip,s[0],vs); else if constexpr (R==2) host_to_device(ip,s[0],s[1],vs); else host_to_device(ip,s[0],s[1],s[2],vs); }),"h2d-mismatch",in<<" was accepted");
  VM_CHECK(vm::throws([&]{ if constexpr (R==1) device_to_host(op,s[0],vs); else if constexpr (R==2) device_to_host(op,s[0],s[1],vs); else device_to_host(op,s[0],s[1],s[2],vs); }),"d2h-mismatch",in<<" was accepted"); vm::count("mismatches"); vm::nontrivial(in);
}
#endif
void part2 ();
#ifdef PART2
void part2 () {
  vm::sub("trip3",vm::ncases(900,30000),[&](Rng& r, long long ic) { switch (ic%6) { case 0: trip<3,Pack<double,4>,int>(r); break; case 1: trip<3,double,size_t>(r); break; case 2: trip<3,Pack<bool,2>,int>(r); break; case 3: trip<3,Pack<int,1>,long>(r); break; case 4: trip<3,Pack<float,8>,int>(r); break; default: trip<3,int,int>(r); } });
}
#else
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain k;
  vm::sub("trip1",vm::ncases(1500,50000),[&](Rng& r, long long ic) { switch (ic%6) { case 0: trip<1,Pack<double,4>,int>(r); break; case 1: trip<1,double,int>(r); break; case 2: trip<1,Pack<bool,8>,size_t>(r); break; case 3: trip<1,bool,int>(r); break; case 4: trip<1,Pack<int,1>,long>(r); break; default: trip<1,Pack<float,16>,int>(r); } });
  vm::sub("trip2",vm::ncases(1500,50000),[&](Rng& r, long long ic) { switch (ic%6) { case 0: trip<2,Pack<double,4>,int>(r); break; case 1: trip<2,double,int>(r); break; case 2: trip<2,Pack<bool,2>,int>(r); break; case 3: trip<2,bool,size_t>(r); break; case 4: trip<2,Pack<int,1>,int>(r); break; default: trip<2,Pack<double,8>,long>(r); } });
  part2();
  vm::sub("vast_transpose",vm::ncases(30,1000),[&](Rng& r, long long) { vast_turn(r); });
  vm::sub("transpose",vm::ncases(1500,50000),[&](Rng& r, long long ic) { switch (ic%3) { case 0: turn<double>(r); break; case 1: turn<int>(r); break; default: turn<float>(r); } });
#ifndef NDEBUG
  vm::sub("mismatch",vm::ncases(600,10000),[&](Rng& r, long long ic) { switch (ic%6) { case 0: mismatch<1,Pack<double,2>>(r); break; case 1: mismatch<2,Pack<double,2>>(r); break; case 2: mismatch<3,Pack<double,2>>(r); break; case 3: mismatch<1,double>(r); break; case 4: mismatch<2,int>(r); break; default: mismatch<3,double>(r); } });
#endif
  return vm::finish();
}
#endif
