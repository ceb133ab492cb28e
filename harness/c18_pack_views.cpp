// C18: views of packs and views of scalars name the same entries: scalarize, repack, gathers, shifts and differences
#include "viewmon.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_subview_utils.hpp"
using namespace ekat;
// Judge that `b` (last extent counted in units of NB scalars) shows exactly the memory and the entries of the scalar array at p
template<int NB,typename V,typename S> __attribute__((noinline)) void same_entries (const char* key, const V& b, const S* p, std::vector<int> ext, const string& in) {
  bool shape=true; for (size_t d=0;d<ext.size();++d) shape=shape&&b.extent_int((int)d)==(d+1==ext.size()?ext[d]/NB:ext[d]);
  VM_CHECK(shape,"shape",key<<" of "<<in<<" has extents "<<vm::list(extents(b))); if (!shape) return;
  if (ext.empty()) { VM_CHECK((const void*)b.data()==(const void*)p,"alias",key<<" of "<<in); return; }
  ext.back()/=NB; long bad=-1; some_index(ext,[&](const std::vector<int>& ix, long k){ if ((const void*)&at(b,ix)!=(const void*)(p+k*NB) && bad<0) bad=k; });
  VM_CHECK(bad<0,"alias",key<<" of "<<in<<" with extents "<<vm::list(ext)<<": entry "<<bad<<" is not where it belongs");
}
template<typename V,int N,bool CONST> void scal (Rng& r, std::vector<int> fixed) {
  constexpr int R=V::Rank; using P=typename V::non_const_value_type; std::vector<int> e=rext(r,R-(int)fixed.size(),r.chance(0.05)?0:1,R>4?2:5); for (int f : fixed) e.push_back(f);
  V v=make<V>(e); const P* base=v.data(); const double* sp=v.size()?&base[0][0]:nullptr; std::vector<int> se=e; if (R>0) se.back()*=N; const string in="Pack<"+vm::str(N)+"> view "+vm::list(e);
  auto judge=[&](const auto& w){ auto s=scalarize(w); using S=decltype(s); static_assert(S::Rank==(R==0?1:R),"rank"); static_assert(std::is_same_v<typename S::non_const_value_type,double>,"scalar"); VM_CHECK(S::traits::memory_traits::is_unmanaged,"unmanaged",in); VM_CHECK(std::is_const_v<typename S::value_type> == std::is_const_v<typename std::decay_t<decltype(w)>::value_type>,"constness",in);
    if (R==0) same_entries<1>("scalarize",s,sp,{N},in); else same_entries<1>("scalarize",s,sp,se,in); auto t=scalarize(s); VM_CHECK((const void*)t.data()==(const void*)s.data() && extents(t)==extents(s),"idempotent",in); };
  if constexpr (CONST) { typename V::const_type w=v; judge(w); } else judge(v); vm::count("scalarized"); vm::nontrivial(in);
}
template<int N,int M,typename V> void rep (Rng& r, std::vector<int> fixed) {   // view of Pack<double,N> (or double, N=0) to packs of M
  constexpr int R=V::Rank; std::vector<int> e=rext(r,R-(int)fixed.size(),1,4); for (int f : fixed) e.push_back(f); const int n=N?N:1; if (fixed.empty()) { const int need=M>n?M/n:1; e.back()*=need; }
  V v=make<V>(e); const double* sp=reinterpret_cast<const double*>(v.data()); std::vector<int> se=e; se.back()*=n; double* wp=const_cast<double*>(sp); long tot=1; for (int x : se) tot*=x; for (long i=0;i<tot;++i) wp[i]=(double)i;
  const string in="packs of "+vm::str(n)+" "+vm::list(e)+" to packs of "+vm::str(M);
  auto go=[&](const auto& w){ auto s=repack<M>(w); using S=decltype(s); static_assert(std::is_same_v<typename S::non_const_value_type,Pack<double,M>>,"packs"); VM_CHECK(S::traits::memory_traits::is_unmanaged,"unmanaged",in); VM_CHECK(std::is_const_v<typename S::value_type> == std::is_const_v<typename std::decay_t<decltype(w)>::value_type>,"constness",in);
    same_entries<M>("repack",s,sp,se,in); bool ok=true; std::vector<int> pe=se; pe.back()/=M; each_index(pe,[&](const std::vector<int>& ix,long k){ for (int j=0;j<M;++j) ok=ok&&at(s,ix)[j]==(double)(k*M+j); }); VM_CHECK(ok,"values",in); };
  go(v); if constexpr (N>0) { typename V::const_type c=v; go(c); } vm::count("repacked"); vm::nontrivial(in);
}
// Slices of larger views, and padded views: entries of one first index do not follow those of the one before
template<int N,typename V> const double* scalar_of (const V& s, std::vector<int> ix) { const int k=ix.back(); ix.back()=k/N; if constexpr (IsPack<typename V::non_const_value_type>::value) return &at(s,ix)[k%N]; else return &at(s,ix); }
template<int N,int M,typename V> void strided_repack (const V& s, const string& in) {
  std::vector<int> e=extents(s); e.back()*=N; if (e.back()%M) return; auto w=repack<M>(s); e.back()/=M; VM_CHECK(extents(w)==e,"strided-shape","packs of "<<M<<" of "<<in<<" have extents "<<vm::list(extents(w))); if (extents(w)!=e) return;
  string bad; each_index(e,[&](const std::vector<int>& ix,long){ for (int j=0;j<M;++j) { std::vector<int> k=ix; k.back()=k.back()*M+j; if (bad.empty() && &at(w,ix)[j]!=scalar_of<N>(s,k)) bad=vm::list(k); } }); VM_CHECK(bad.empty(),"strided-repack","packs of "<<M<<" of "<<in<<": entry "<<bad<<" is elsewhere"); vm::count("strided_repacked");
}
template<int N,typename V> void strided_one (const V& s, const string& in) {
  auto q=scalarize(s); using Q=decltype(q); static_assert(std::is_const_v<typename Q::value_type> == std::is_const_v<typename V::value_type>,"constness"); std::vector<int> e=extents(s); e.back()*=N; VM_CHECK(extents(q)==e,"strided-shape","scalars of "<<in<<" have extents "<<vm::list(extents(q))); if (extents(q)!=e) return;
  string bad; each_index(e,[&](const std::vector<int>& ix,long){ if (bad.empty() && &at(q,ix)!=scalar_of<N>(s,ix)) bad=vm::list(ix); }); VM_CHECK(bad.empty(),"strided-scalarize",in<<": entry "<<bad<<" is elsewhere");
  strided_repack<N,1>(s,in); strided_repack<N,2>(s,in); strided_repack<N,4>(s,in); strided_repack<N,8>(s,in); strided_repack<N,16>(s,in); vm::count("strided"); vm::nontrivial(in);
}
template<typename E,int N,int R> void strided (Rng& r) {
  using V=Kokkos::View<typename DataND<E,R>::type,Kokkos::LayoutRight,ekat::DefaultDevice>; const auto e=rext(r,R,1,R>4?3:5); const bool con=r.range(0,1);
  if constexpr (R>2) { V v=make<V>(e); const int i=(int)r.range(0,e[1]-1); auto s=ekat::subview_1(v,i); const string in="second index "+vm::str(i)+" of "+vm::list(e)+", packs of "+vm::str(N); if (con) { typename decltype(s)::const_type c=s; strided_one<N>(c,in); } else strided_one<N>(s,in); }
  if constexpr (R>1) { auto pad=[&](auto... d) { V p(Kokkos::view_alloc(string("p"),Kokkos::AllowPadding),d...); if (p.stride(0)%16==0||N>=16||p.span_is_contiguous()) strided_one<N>(p,"padded "+vm::list(extents(p))+", packs of "+vm::str(N)); if (!p.span_is_contiguous()) vm::count("padded"); }; if constexpr (R==2) pad(e[0]+1,e[1]*3); else if constexpr (R==3) pad(e[0]+1,e[1],e[2]*3); else if constexpr (R==4) pad(e[0],e[1]+1,e[2],e[3]*3); }
  if constexpr (R>1) { V v=make<V>([&]{ auto f=e; f.back()*=16; return f; }()); const int d=(int)r.range(0,R-2), a=(int)r.range(0,e[d]-1), b=(int)r.range(a+1,e[d]); auto s=ekat::subview(v,Kokkos::pair<int,int>(a,b),d); const string in="slice ["+vm::str(a)+","+vm::str(b)+") of dimension "+vm::str(d)+" of "+vm::list(extents(v)); if constexpr (!IsPack<E>::value) { strided_repack<N,1>(s,in); strided_repack<N,2>(s,in); strided_repack<N,8>(s,in); strided_repack<N,16>(s,in); vm::nontrivial(in); } }
}
// Indices at random, or nearly a run of consecutive ones, up or down, or all the same
template<typename I,int N> Pack<I,N> some_indices (Rng& r, int n) {
  Pack<I,N> p; const int how=(int)r.range(0,4), step=how==1?1:how==2?-1:how==3?0:(int)r.range(-3,3), from=(int)r.range(0,n-1); for (int i=0;i<N;++i) p[i]=(I)(how==0?(int)r.range(0,n-1):(((from+step*i)%n)+n)%n);
  if (how && N>2 && r.chance(0.6)) { const int a=(int)r.range(1,N-2), b=(int)r.range(1,N-2); const I x=p[a]; p[a]=p[b]; p[b]=x; if (r.chance(0.3)) p[a]=(I)r.range(0,n-1); }   // the first and the last stay
  return p;
}
template<typename V,int N,typename I> void gather (Rng& r) {
  constexpr int R=V::Rank; using T=typename V::non_const_value_type; std::vector<int> e=rext(r,R,1,R>3?4:R>1||r.range(0,1)?9:90); V v=make<V>(e); long c=1; each_index(e,[&](const std::vector<int>& ix,long){ at(v,ix)=(T)(c++); });
  Pack<I,N> ip[5]; for (int d=0;d<R;++d) ip[d]=some_indices<I,N>(r,e[d]); typename V::const_type cv=v; const string in="rank "+vm::str(R)+" "+vm::list(e)+" at "+show(ip[0])+(R>1?show(ip[1]):"");
  auto want=[&](int i){ std::vector<int> ix; for (int d=0;d<R;++d) ix.push_back((int)ip[d][i]); return (T)at(v,ix); };
  auto go=[&](const auto& w){ if constexpr (R==1) return index(w,ip[0]); else if constexpr (R==2) return index(w,ip[0],ip[1]); else if constexpr (R==3) return index(w,ip[0],ip[1],ip[2]); else if constexpr (R==4) return index(w,ip[0],ip[1],ip[2],ip[3]); else return index(w,ip[0],ip[1],ip[2],ip[3],ip[4]); };
  lanes("gather",go(v),want,in); lanes("gather-const",go(cv),want,in); if constexpr (R==1) { const int st=(int)r.range(1,4); Kokkos::View<T*,Kokkos::LayoutStride> w("w",Kokkos::LayoutStride(e[0],st)); for (int i=0;i<e[0];++i) w(i)=(T)(2*i+1); lanes("gather-strided",index(w,ip[0]),[&](int i){ return (T)w((int)ip[0][i]); },in); } vm::count("gathers"); vm::nontrivial(in);
}
template<int S,int N,typename T> void shifted (Rng& r) {
  const int n=(int)r.range(1,r.range(0,1)?20:60); Kokkos::View<T*> v("v",n); for (int i=0;i<n;++i) v(i)=(T)(i*3+1); const Pack<int,N> k=some_indices<int,N>(r,n); Pack<T,N> a((T)-5),b((T)-6); const string in=show(k)+" shift "+vm::str(S)+" of "+vm::str(n);
  bool oob=false; for (int i=0;i<N;++i) oob=oob||k[i]+S<0||k[i]+S>=n;
  index_and_shift<S>(v,k,a,b); lanes("index",a,[&](int i){ return v(k[i]); },in); lanes("shifted",b,[&](int i){ const int j=k[i]+S; return j<0||j>=n?ekat::invalid<T>():v(j); },in);
  vm::count("shifts"); if (oob) vm::count("shifts_past_the_end"); vm::nontrivial(in);
}
// Arrays of up to 2^32 entries, few of them touched
template<typename V,int N> void vast_scal (Rng& r) {
  constexpr int R=V::Rank; auto e=vast_ext(r,R,31.97-std::log2(N)); Kokkos::View<typename V::data_type,Kokkos::LayoutRight,Kokkos::MemoryTraits<Kokkos::Unmanaged>> v=vast_view<decltype(v)>(e); using T=typename V::non_const_value_type::scalar; if ((double)e.back()*N>2e9) return; auto se=e; se.back()*=N; const T* sp=(const T*)vast(); const string in="packs of "+vm::str(N)+" "+vm::list(e);
  auto s=scalarize(v); same_entries<1>("scalarize",s,sp,se,in); if (N%4==0) { auto q=repack<4>(v); same_entries<4>("repack",q,sp,se,in); } vm::count("vast_arrays"); vm::nontrivial(in);
}
template<typename T,int R,int N,typename I> void vast_gather (Rng& r) {
  using V=Kokkos::View<typename DataND<T,R>::type,Kokkos::LayoutRight,Kokkos::MemoryTraits<Kokkos::Unmanaged>>; auto e=vast_ext(r,R); V v=vast_view<V>(e); Pack<I,N> ip[5]; const bool last=r.chance(0.3); for (int d=0;d<R;++d) for (int i=0;i<N;++i) ip[d][i]=(I)(last&&r.range(0,1)?e[d]-1:r.range(0,e[d]-1));
  const string in="rank "+vm::str(R)+" "+vm::list(e)+" at "+show(ip[0])+(R>1?show(ip[1]):""); auto where=[&](int i){ size_t k=0; for (int d=0;d<R;++d) k=k*(size_t)e[d]+(size_t)ip[d][i]; return (T*)vast()+k; }; for (int i=0;i<N;++i) *where(i)=(T)r.range(1,100);
  auto got=[&]{ if constexpr (R==1) return index(v,ip[0]); else if constexpr (R==2) return index(v,ip[0],ip[1]); else if constexpr (R==3) return index(v,ip[0],ip[1],ip[2]); else if constexpr (R==4) return index(v,ip[0],ip[1],ip[2],ip[3]); else return index(v,ip[0],ip[1],ip[2],ip[3],ip[4]); }();
  lanes("gather",got,[&](int i){ return *where(i); },in); vast_clean(); vm::count("vast_arrays"); vm::nontrivial(in);
}
template<int S,int N,typename T> void vast_shift (Rng& r) {
  const int n=(int)(std::pow(2.0,r.real(6,31))-50); Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::MemoryTraits<Kokkos::Unmanaged>> v=vast_view<decltype(v)>({n}); Pack<int,N> k; for (int i=0;i<N;++i) k[i]=r.chance(0.2)?(int)r.range(0,3):r.chance(0.2)?n-1-(int)r.range(0,3):(int)r.range(0,n-1);
  auto oob=[&](int i){ const long j=(long)k[i]+S; return j<0||j>=n; }; for (int i=0;i<N;++i) { v(k[i])=(T)r.range(1,100); if (!oob(i)) v(k[i]+S)=(T)r.range(1,100); }
  Pack<T,N> a((T)-5),b((T)-6); const string in=show(k)+" shift "+vm::str(S)+" of "+vm::str(n); index_and_shift<S>(v,k,a,b); lanes("index",a,[&](int i){ return v(k[i]); },in); lanes("shifted",b,[&](int i){ return oob(i)?ekat::invalid<T>():v(k[i]+S); },in);
  for (int s=0;s<4;++s) { const int i=s==0?0:s==1?n-1:(int)r.range(0,n-1); auto w=[&](long j){ return j<0||j>=n?T(0):(T)v((int)j); }; VM_CHECK((adj_diff<true>(v,i)==(T)(w((long)i+1)-w(i))),"forward",i<<" of "<<n); VM_CHECK((adj_diff<false>(v,i)==(T)(w(i)-w((long)i-1))),"backward",i<<" of "<<n); }
  vast_clean(); vm::count("vast_arrays"); vm::nontrivial(in);
}
template<typename T> void adj_scalar (Rng& r) {
  const int n=(int)r.range(1,12), end=r.chance(0.5)?n:(int)r.range(1,n); Kokkos::View<T*> v("v",n); for (int i=0;i<n;++i) v(i)=whole<T>(r); Kokkos::View<const T*> cv=v; auto prov=[&](int i)->T { return v(i); };
  for (int i=0;i<end;++i) { const T f=(i+1<end?v(i+1):T(0))-v(i), b=v(i)-(i>0?v(i-1):T(0)); const string in=vm::str(i)+" of "+vm::str(end);
    VM_CHECK((adj_diff<true>(v,i,end)==f && adj_diff<true>(prov,i,end)==f),"forward",in); VM_CHECK((adj_diff<false>(cv,i,end)==b && adj_diff<false>(prov,i,end)==b),"backward",in);
    if (end==n) VM_CHECK((adj_diff<true>(cv,i)==f && adj_diff<false>(v,i)==b),"whole-view",in); } vm::count("adjacent"); vm::nontrivial(r.u64());
}
template<typename T,int N> void adj_pack (Rng& r) {
  const int n=(int)r.range(1,7), end=r.chance(0.5)?n:(int)r.range(1,n); Kokkos::View<Pack<T,N>*> v("v",n); for (int i=0;i<n;++i) v(i)=rp<T,N>(r,[](Rng& k){ return whole<T>(k); }); Kokkos::View<const Pack<T,N>*> cv=v; auto prov=[&](int i){ return v(i); };
  auto s=[&](int k){ return v(k/N)[k%N]; };
  for (int p=0;p<end;++p) { const string in="pack "+vm::str(p)+" of "+vm::str(end)+": "+show(v(p)); auto F=[&](int l){ const int k=p*N+l; return (T)((k+1<end*N?s(k+1):T(0))-s(k)); }; auto B=[&](int l){ const int k=p*N+l; return (T)(s(k)-(k>0?s(k-1):T(0))); };
    lanes("pack-forward",adj_diff<true>(v,p,end),F,in); lanes("pack-forward-provider",adj_diff<true>(prov,p,end),F,in); lanes("pack-backward",adj_diff<false>(cv,p,end),B,in); lanes("pack-backward-provider",adj_diff<false>(prov,p,end),B,in); if (end==n) { lanes("pack-whole-forward",adj_diff<true>(cv,p),F,in); lanes("pack-whole-backward",adj_diff<false>(v,p),B,in); } vm::nontrivial(in); }
  vm::count("adjacent");
}

template<int N> using P=Pack<double,N>;
void run () {
  using Kokkos::View; using LR=Kokkos::LayoutRight; using LL=Kokkos::LayoutLeft;
  vm::sub("scalarize",vm::ncases(2500,60000),[&](Rng& r, long long ic) { switch (ic%12) { case 0: scal<View<P<8>,LR>,8,false>(r,{}); break; case 1: scal<View<P<4>*,LR>,4,false>(r,{}); break; case 2: scal<View<P<16>**,LR>,16,true>(r,{}); break; case 3: scal<View<P<2>***,LR>,2,false>(r,{}); break; case 4: scal<View<P<4>****,LR>,4,true>(r,{}); break;
    case 5: scal<View<P<2>*****,LR>,2,false>(r,{}); break; case 6: scal<View<P<2>******,LR>,2,false>(r,{}); break; case 7: scal<View<P<2>*******,LR>,2,true>(r,{}); break; case 8: scal<View<P<8>*[3],LR>,8,false>(r,{3}); break; case 9: scal<View<P<4>**[2],LR>,4,true>(r,{2}); break; case 10: scal<View<P<1>**,LR>,1,false>(r,{}); break; default: scal<View<P<24>**[4][2],LR>,24,false>(r,{4,2}); } });
  vm::sub("repack",vm::ncases(2500,60000),[&](Rng& r, long long ic) { switch (ic%10) { case 0: rep<8,2,View<P<8>*,LR>>(r,{}); break; case 1: rep<2,8,View<P<2>*,LR>>(r,{}); break; case 2: rep<4,4,View<P<4>**,LR>>(r,{}); break; case 3: rep<16,4,View<P<16>**,LR>>(r,{}); break; case 4: rep<2,4,View<P<2>***,LR>>(r,{}); break; case 5: rep<32,8,View<P<32>*[4],LR>>(r,{4}); break; case 6: rep<2,8,View<P<2>*[8],LR>>(r,{8}); break; case 7: rep<0,4,View<double*,LR>>(r,{}); break; case 8: rep<0,8,View<double***,LR>>(r,{}); break; default: rep<1,16,View<P<1>**,LR>>(r,{}); } });
  vm::sub("strided",vm::ncases(1500,40000),[&](Rng& r, long long ic) { switch (ic%9) { case 0: strided<P<4>,4,3>(r); break; case 1: strided<P<8>,8,4>(r); break; case 2: strided<P<2>,2,5>(r); break; case 3: strided<P<4>,4,6>(r); break; case 4: strided<P<1>,1,3>(r); break; case 5: strided<double,1,3>(r); break; case 6: strided<double,1,4>(r); break; case 7: strided<P<16>,16,2>(r); break; default: strided<double,1,2>(r); } });
  vm::sub("refused_repack",3,[&](Rng&, long long ic) { const std::vector<string> how{"bad-repack","bad-repack-stride","bad-repack-last"}; auto c=vm::run_self({how[(size_t)ic]}); VM_CHECK(c.out.find("went on")==string::npos && c.out.find("KERNEL CHECK FAILED")!=string::npos && (c.signaled||c.status!=0),"repack-of-indivisible","status "<<c.status<<" signal "<<c.sig<<": "<<c.out); });
  vm::sub("gather",vm::ncases(4000,100000),[&](Rng& r, long long ic) { switch (ic%11) { case 9: gather<View<double*,LR>,4,int>(r); break; case 10: gather<View<float*,LR>,8,long>(r); break; case 0: gather<View<double*,LR>,16,int>(r); break; case 1: gather<View<float**,LR>,8,int>(r); break; case 2: gather<View<double***,LR>,4,long>(r); break; case 3: gather<View<int****,LR>,2,int>(r); break; case 4: gather<View<double*****,LR>,8,int>(r); break; case 5: gather<View<double**,LL>,8,int>(r); break; case 6: gather<View<double***,LL>,1,int>(r); break; case 7: gather<View<double*****,LL>,4,short>(r); break; default: gather<View<long*,LL>,2,unsigned>(r); } });
  vm::sub("shift",vm::ncases(4000,100000),[&](Rng& r, long long ic) { switch (ic%6) { case 0: shifted<1,8,double>(r); break; case 1: shifted<-1,4,double>(r); break; case 2: shifted<3,16,double>(r); break; case 3: shifted<-2,2,int>(r); break; case 4: shifted<0,8,float>(r); break; default: shifted<1,1,double>(r); } });
  vm::sub("adjacent",vm::ncases(4000,100000),[&](Rng& r, long long ic) { switch (ic%8) { case 0: adj_scalar<double>(r); break; case 1: adj_scalar<int>(r); break; case 2: adj_pack<double,1>(r); break; case 3: adj_pack<double,4>(r); break; case 4: adj_pack<double,8>(r); break; case 5: adj_pack<int,2>(r); break; case 6: adj_pack<float,16>(r); break; default: adj_pack<double,2>(r); } });
}
void run_vast () {
  using Kokkos::View; using LR=Kokkos::LayoutRight;
  vm::sub("vast",vm::ncases(1200,30000),[&](Rng& r, long long ic) { switch (ic%12) { case 0: vast_scal<View<P<8>*,LR>,8>(r); break; case 1: vast_scal<View<Pack<float,4>***,LR>,4>(r); break; case 2: vast_scal<View<Pack<int,2>**,LR>,2>(r); break;
    case 3: vast_scal<View<Pack<float,16>****,LR>,16>(r); break; case 4: vast_gather<float,1,8,int>(r); break; case 5: vast_gather<double,2,4,int>(r); break; case 6: vast_gather<int,3,4,long>(r); break; case 7: vast_gather<double,4,2,int>(r); break; case 8: vast_gather<float,5,4,int>(r); break; case 9: vast_shift<1,8,double>(r); break; case 10: vast_shift<-3,4,float>(r); break; default: vast_shift<2,4,int>(r); } });
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain k;
  if (!vm::st().args.empty() && vm::st().args[0]=="bad-repack") { Kokkos::View<double**> v("v",3,6); auto p=repack<4>(v); printf("went on with extent %d\n",p.extent_int(1)); return 0; }
  if (!vm::st().args.empty() && vm::st().args[0]=="bad-repack-stride") { Kokkos::View<double**,Kokkos::LayoutRight,ekat::DefaultDevice> v("v",3,6); auto p=repack<4>(ekat::subview(v,Kokkos::pair<int,int>(1,5),1)); printf("went on with extent %d\n",p.extent_int(1)); return 0; }
  if (!vm::st().args.empty() && vm::st().args[0]=="bad-repack-last") { Kokkos::View<double**,Kokkos::LayoutRight,ekat::DefaultDevice> v("v",8,6); auto p=repack<4>(ekat::subview_1(v,1)); printf("went on with extent %d\n",p.extent_int(0)); return 0; }
  run(); run_vast(); return vm::finish();
}
