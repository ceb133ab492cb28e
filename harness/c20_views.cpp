// C20: subviews, reshaped and broadcast views name exactly the entries they should of the memory of their source
#include "viewmon.hpp"
#include "ekat_subview_utils.hpp"
#include "ekat_view_utils.hpp"
#include "ekat_view_broadcast.hpp"
#include "ekat_pack.hpp"
#include <random>
using namespace ekat; using Kokkos::View; using LR=Kokkos::LayoutRight; using IX=std::vector<int>;
template<typename F> bool dies (F f) { fflush(nullptr); pid_t p=fork(); if (p==0) { int z=open("/dev/null",O_WRONLY); dup2(z,1); dup2(z,2); signal(SIGABRT,SIG_DFL); f(); _exit(0); } int s=0; waitpid(p,&s,0); return WIFSIGNALED(s)&&WTERMSIG(s)==SIGABRT; }
template<typename E,int R> using VR=View<typename DataND<E,R>::type,LR,ekat::DefaultDevice>;
// s has the extents of the kept dimensions of v, and its entry ix is v's entry full(ix)
template<typename S,typename V,typename M> __attribute__((noinline)) void judge (const char* key, const S& s, const V& v, const IX& want, M full, const string& in) {
  VM_CHECK(extents(s)==want,"shape",key<<" of "<<in<<" has extents "<<vm::list(extents(s))<<", should be "<<vm::list(want)); VM_CHECK(S::traits::memory_traits::is_unmanaged,"unmanaged",key<<" of "<<in);
  static_assert(std::is_same_v<typename S::value_type,typename V::value_type>,"element type"); if (extents(s)!=want) return; string bad; some_index(want,[&](const IX& ix,long){ if (bad.empty() && &at(s,ix)!=&at(v,full(ix))) bad=vm::list(ix); }); VM_CHECK(bad.empty(),"alias",key<<" of "<<in<<": entry "<<bad<<" is elsewhere");
  vm::count("subviews"); vm::nontrivial(string(key)+in);
}
template<int K,typename V,size_t... D> auto sub_at (const V& v, const IX& i, std::index_sequence<D...>) { return ekat::subview(v,i[D]...); }
template<int K,typename V> void leading (const V& v, const IX& e, Rng& r) {
  IX i; for (int d=0;d<K;++d) i.push_back((int)r.range(0,e[d]-1)); const string in=vm::list(e)+" at "+vm::list(i);
  judge("leading",sub_at<K>(v,i,std::make_index_sequence<K>()),v,IX(e.begin()+K,e.end()),[&](const IX& ix){ IX f=i; f.insert(f.end(),ix.begin(),ix.end()); return f; },in);
}
template<typename V> void all_subs (const V& v, Rng& r, bool slices=true) {
  constexpr int R=V::Rank; const IX e=extents(v);
  leading<1>(v,e,r); if constexpr (R>2) leading<2>(v,e,r); if constexpr (R>3) leading<3>(v,e,r); if constexpr (R>4) leading<4>(v,e,r); if constexpr (R>5) leading<5>(v,e,r);
  if constexpr (R>1) { const int i=(int)r.range(0,e[1]-1); IX w=e; w.erase(w.begin()+1); judge("second",ekat::subview_1(v,i),v,w,[&](IX ix){ ix.insert(ix.begin()+1,i); return ix; },vm::list(e)+" at "+vm::str(i)); }
  if (slices) { const int d=(int)r.range(0,R-1); const int a=(int)r.range(0,e[d]-1), b=(int)r.range(a+1,e[d]); IX w=e; w[d]=b-a; const string in=vm::list(e)+" dim "+vm::str(d)+" ["+vm::str(a)+","+vm::str(b)+")"; auto m=[&](IX ix){ ix[d]+=a; return ix; }; judge("slice",ekat::subview(v,Kokkos::pair<int,int>(a,b),d),v,w,m,in); if constexpr (R==1) judge("slice",ekat::subview(v,Kokkos::pair<int,int>(a,b)),v,w,m,in); }
}
template<typename V,size_t... D> V padded_view (const IX& e, std::index_sequence<D...>) { return V(Kokkos::view_alloc(string("padded"),Kokkos::AllowPadding),e[D]...); }
template<typename E,int R> void subs (Rng& r) {
  const IX e=rext(r,R,1,R>4?3:5); auto v=make<VR<E,R>>(e); switch (r.range(0,2)) { case 0: all_subs(v,r); break; case 1: { typename VR<E,R>::const_type c=v; all_subs(c,r); break; } default: { Unmanaged<VR<E,R>> u=v; all_subs(u,r); } }
  if constexpr (R>=3) { auto s=ekat::subview_1(v,(int)r.range(0,e[1]-1)); all_subs(s,r,r.range(0,1)); vm::count("from_strided"); }
  if constexpr (R>=2) {   // rows that Kokkos keeps apart for alignment
    const IX pe=rext(r,R,1,R>4?5:R>3?7:R>2?13:150); auto pv=padded_view<VR<E,R>>(pe,std::make_index_sequence<R>()); const bool apart=pv.size()>0 && pv.span()>pv.size();
    if (r.range(0,1)) { typename VR<E,R>::const_type c=pv; all_subs(c,r); } else all_subs(pv,r); if constexpr (R>=3) { auto s=ekat::subview_1(pv,(int)r.range(0,pe[1]-1)); all_subs(s,r,r.range(0,1)); } if (apart) vm::count("padded_views");
  }
#ifndef NDEBUG
  if (r.chance(R==1?0.3:0.05)) {   // out of range is refused
    auto bad=[&](int n){ return r.range(0,1)?-(int)r.range(1,3):n+(int)r.range(0,3); }; const string in=vm::list(e);
    { const int i=bad(e[0]); VM_CHECK(dies([&]{ auto s=ekat::subview(v,i); (void)s; }),"leading-out-of-range",in<<" at "<<i<<" was accepted"); }
    if constexpr (R>2) { constexpr int K=R-1; const int d=(int)r.range(0,K-1); IX i(K,0); i[d]=bad(e[d]); VM_CHECK(dies([&]{ auto s=sub_at<K>(v,i,std::make_index_sequence<K>()); (void)s; }),"leading-out-of-range",in<<" at "<<vm::list(i)<<" was accepted"); }
    if constexpr (R>1) { const int i=bad(e[1]); VM_CHECK(dies([&]{ auto s=ekat::subview_1(v,i); (void)s; }),"second-out-of-range",in<<" at "<<i<<" was accepted"); }
    { int d=(int)r.range(0,R-1), a=(int)r.range(0,e[d]-1), b=(int)r.range(a+1,e[d]); switch (r.range(0,3)) { case 0: a=-1; break; case 1: b=e[d]+(int)r.range(1,3); break; case 2: b=a; break; default: d=r.range(0,1)?-1:R; } VM_CHECK(dies([&]{ auto s=ekat::subview(v,Kokkos::pair<int,int>(a,b),d); (void)s; }),"slice-out-of-range",in<<" dim "<<d<<" ["<<a<<","<<b<<") was accepted"); }
    VM_CHECK(dies([&]{ VR<E,R> n; auto s=ekat::subview(n,0); (void)s; }),"null-view",in); vm::count("refused_subviews");
  }
#endif
}
template<typename Out,typename V,typename... D> void shaped (const V& v, const IX& want, const string& in, D... d) {
  auto s=ekat::reshape<Out>(v,d...); using S=decltype(s); VM_CHECK(extents(s)==want,"reshape-shape",in<<" to "<<vm::list(want)<<" gives "<<vm::list(extents(s))); VM_CHECK(S::traits::memory_traits::is_unmanaged,"unmanaged",in); if (extents(s)!=want) return;
  bool ok=true; some_index(want,[&](const IX& ix,long k){ ok=ok&&&at(s,ix)==v.data()+k; }); VM_CHECK(ok,"reshape-alias",in<<" to "<<vm::list(want)); vm::count("reshapes"); vm::nontrivial(in+vm::list(want));
}
void reshapes (Rng& r) {
  const int a=(int)r.range(1,6), b=(int)r.range(1,6), n=a*b*12; View<double*,LR> v1("v",n); View<double**,LR> v2("v",a*3,b*4); View<double**[4],LR> v3("v",a,b*3); View<const double*,LR> c1=v1; View<Pack<double,4>*,LR> p("v",n); View<double[24],LR> f("v"); View<double*,LR> v24("v",24);
  auto each=[&](const auto& v){ const string in=vm::list(extents(v)); switch (r.range(0,6)) { case 0: shaped<double**>(v,{a,b*12},in,a,b*12); break; case 1: shaped<double**>(v,{b*4,a*3},in,b*4,a*3); break; case 2: shaped<double*>(v,{n},in,n); break; case 3: shaped<double*[12]>(v,{a*b,12},in,a*b); break; case 4: shaped<double*[4][3]>(v,{a*b,4,3},in,a*b); break; case 5: shaped<double**[6]>(v,{a*2,b,6},in,a*2,b); break; default: shaped<double**[2][3]>(v,{a,2*b,2,3},in,a,2*b); } };
  each(v1); each(v2); each(v3); shaped<const double**>(c1,{a,b*12},"const",a,b*12); shaped<Pack<double,4>**>(p,{b,a*12},"packs",b,a*12); shaped<double[4][6]>(f,{4,6},"fixed"); shaped<double[2][3][4]>(v24,{2,3,4},"24"); shaped<double[24]>(v24,{24},"24");
#ifndef NDEBUG
  if (r.chance(0.05)) { const int w=n+(r.range(0,1)?1:-1); VM_CHECK(dies([&]{ auto s=ekat::reshape<double*>(v2,w); (void)s; }),"reshape-size",n<<" to "<<w); VM_CHECK(dies([&]{ auto s=ekat::reshape<double**>(v1,a,b*12+1); (void)s; }),"reshape-size",n); VM_CHECK(dies([&]{ auto s=ekat::reshape<double[25]>(v24); (void)s; }),"reshape-size","25"); VM_CHECK(dies([&]{ auto s=ekat::reshape<double*[5]>(v24,5); (void)s; }),"reshape-size","5x5"); vm::count("refused_reshapes"); }
#endif
}
// Strided views have no entries in order: reshaping them is refused, unless it makes no difference
void strided_shapes (Rng& r) {
  const int a=(int)r.range(1,4), b=(int)r.range(2,4), c=(int)r.range(1,5); View<double***,LR,ekat::DefaultDevice> v("v",a,b,c); auto s=ekat::subview_1(v,(int)r.range(0,b-1)); const string in="second index of "+vm::list(extents(v));
  if (a==1) { shaped<double*>(s,{c},in,c); shaped<double**>(s,{c,1},in,c,1); }
#ifndef NDEBUG
  else if (r.chance(0.2)) { VM_CHECK(dies([&]{ auto t=ekat::reshape<double*>(s,a*c); (void)t; }),"reshape-strided",in); VM_CHECK(dies([&]{ auto t=ekat::reshape<double**>(s,c,a); (void)t; }),"reshape-strided",in); vm::count("refused_reshapes"); }
#endif
}
template<typename V> void fills (const V& v, Rng& r);
// filling a slice leaves the rest of the array alone
void strided_fills (Rng& r) {
  const IX e=rext(r,3,1,6); auto v=make<VR<double,3>>(e); for (size_t i=0;i<v.size();++i) v.data()[i]=100; size_t n=0;
  switch (r.range(0,3)) { case 0: { auto s=ekat::subview_1(v,(int)r.range(0,e[1]-1)); n=s.size(); fills(s,r); break; } case 1: { auto w=ekat::subview(v,0); auto s=ekat::subview_1(w,(int)r.range(0,e[2]>0?std::min(e[1],e[2])-1:0)); n=s.size(); fills(s,r); break; } case 2: { const int d=(int)r.range(0,2), a=(int)r.range(0,e[d]-1), b=(int)r.range(a+1,e[d]); auto s=ekat::subview(v,Kokkos::pair<int,int>(a,b),d); n=s.size(); fills(s,r); break; } default: { auto s=ekat::subview(v,(int)r.range(0,e[0]-1)); n=s.size(); fills(s,r); } }
  size_t other=0; for (size_t i=0;i<v.size();++i) other+=v.data()[i]==100; VM_CHECK(other==v.size()-n,"random-fill-outside","a slice of "<<n<<" of "<<v.size()<<" entries: "<<v.size()-other<<" were written"); vm::count("slice_fills");
}
template<typename V> void fills (const V& v, Rng& r) {
  std::mt19937_64 e(r.u64()), e2=e; std::uniform_real_distribution<double> d(-5,5), d2=d; genRandArray(v,e,d); bool ok=true; each_index(extents(v),[&](const IX& ix,long){ ok=ok&&at(v,ix)==(typename V::value_type)d2(e2); }); VM_CHECK(ok,"random-fill",vm::list(extents(v))); VM_CHECK(e==e2,"random-fill-count",vm::list(extents(v)));
  vm::count("fills"); vm::nontrivial(r.u64());
}
// Views of more entries than an int can number
template<typename E,int R> void vast_subs (Rng& r) {
  const IX e=vast_ext(r,R); Unmanaged<VR<E,R>> u=vast_view<Unmanaged<VR<E,R>>>(e); if (r.range(0,1)) { Unmanaged<typename VR<E,R>::const_type> c=u; all_subs(c,r); } else all_subs(u,r);
  if constexpr (R>=3) { auto s=ekat::subview_1(u,(int)r.range(0,e[1]-1)); all_subs(s,r,r.range(0,1)); } vm::count("vast_views");
}
void vast_shapes (Rng& r) {
  const int a=(int)r.range(1<<13,1<<14), b=(int)r.range(1<<13,21000); auto v=vast_view<Unmanaged<View<float**,LR>>>({a*3,b*4}); const string in=vm::list(extents(v));
  shaped<float**>(v,{b*4,a*3},in,b*4,a*3); shaped<float**[6]>(v,{a*2,b,6},in,a*2,b); shaped<float**[2][3]>(v,{a,2*b,2,3},in,a,2*b); vm::count("vast_views");
}
// Broadcasts
template<int F,int T> void broad (Rng& r, bool big=false) {
  using FV=VR<double,F>; using TV=VR<double,T>; const IX fe=big?vast_ext(r,F):rext(r,F,1,T>5?2:4); FV f; if (big) { f=vast_view<Unmanaged<FV>>(fe); vm::count("vast_views"); } else f=make<FV>(fe);
  IX where; for (int i=0;i<T;++i) where.push_back(i<F); for (int i=T-1;i>0;--i) std::swap(where[i],where[r.range(0,i)]); IX ext, full; int k=0; for (int i=0;i<T;++i) { if (where[i]) { ext.push_back(r.range(0,1)?-1:0); full.push_back(fe[k++]); } else { ext.push_back((int)r.range(1,big?1000000:T>5?2:4)); full.push_back(ext.back()); } }
  const string in=vm::list(fe)+" as "+vm::list(ext); auto b=r.range(0,1)?ekat::broadcast<TV>(f,ext):ViewBroadcast<TV>(f,ext); if (r.range(0,1)) { ViewBroadcast<TV> b2; b2.setup(f,ext); b=b2; }
  bool shape=true; for (int i=0;i<T;++i) shape=shape&&b.extent(i)==full[i]; VM_CHECK(shape,"broadcast-shape",in);
  auto get=[&](const IX& i)->double& { if constexpr (T==1) return b(i[0]); else if constexpr (T==2) return b(i[0],i[1]); else if constexpr (T==3) return b(i[0],i[1],i[2]); else if constexpr (T==4) return b(i[0],i[1],i[2],i[3]); else if constexpr (T==5) return b(i[0],i[1],i[2],i[3],i[4]); else if constexpr (T==6) return b(i[0],i[1],i[2],i[3],i[4],i[5]); else if constexpr (T==7) return b(i[0],i[1],i[2],i[3],i[4],i[5],i[6]); else return b(i[0],i[1],i[2],i[3],i[4],i[5],i[6],i[7]); };
  string bad; some_index(full,[&](const IX& ix,long){ IX p; for (int i=0;i<T;++i) if (where[i]) p.push_back(ix[i]); if (bad.empty() && &get(ix)!=&at(f,p)) bad=vm::list(ix); }); VM_CHECK(bad.empty(),"broadcast-alias",in<<": entry "<<bad); vm::count("broadcasts"); vm::nontrivial(in);
  // malformed extents are refused
  IX e2=ext; switch (r.range(0,3)) { case 0: e2.push_back(2); break; case 1: e2.pop_back(); break; case 2: { int p=-1; for (int i=0;i<T;++i) if (!where[i]) p=i; if (p<0) return; e2[p]=-1; break; } default: for (int i=0;i<T;++i) if (where[i]) { e2[i]=2; break; } }
  VM_CHECK(vm::throws([&]{ ViewBroadcast<TV> x(f,e2); }),"broadcast-malformed",vm::list(fe)<<" as "<<vm::list(e2)<<" was accepted"); vm::count("refused_broadcasts");
#ifndef NDEBUG
  if (r.chance(0.03)) { const int i=r.range(0,1)?-1:T+(int)r.range(0,2); VM_CHECK(dies([&]{ volatile int x=b.extent(i); (void)x; }),"broadcast-extent",in<<": extent("<<i<<") was accepted"); vm::count("refused_extents"); }
#endif
}
// Broadcasts of strided views: right where the layout can express them, refused where it cannot
template<int F,int T,typename TL> void broad_strided (Rng& r) {
  const IX pe=rext(r,F+1,1,T>5?3:4); auto v=make<VR<double,F+1>>(pe); auto f=ekat::subview_1(v,(int)r.range(0,pe[1]-1)); const IX fe=extents(f); using TV=View<typename DataND<double,T>::type,TL,ekat::DefaultDevice>;
  IX where; for (int i=0;i<T;++i) where.push_back(i<F); for (int i=T-1;i>0;--i) std::swap(where[i],where[r.range(0,i)]); IX ext, full; int k=0; for (int i=0;i<T;++i) { if (where[i]) { ext.push_back(-1); full.push_back(fe[k++]); } else { ext.push_back((int)r.range(1,3)); full.push_back(ext.back()); } }
  const string in="second index of "+vm::list(pe)+" as "+vm::list(ext); ViewBroadcast<TV> b; bool ok=true; try { b.setup(f,ext); } catch (const std::exception&) { ok=false; }
  if (!ok) { VM_CHECK((!std::is_same_v<TL,Kokkos::LayoutStride>) && !f.span_is_contiguous(),"broadcast-refused",in); vm::count("refused_strided_broadcasts"); vm::nontrivial(in); return; }
  auto get=[&](const IX& i)->double& { if constexpr (T==1) return b(i[0]); else if constexpr (T==2) return b(i[0],i[1]); else if constexpr (T==3) return b(i[0],i[1],i[2]); else if constexpr (T==4) return b(i[0],i[1],i[2],i[3]); else return b(i[0],i[1],i[2],i[3],i[4]); };
  string bad; each_index(full,[&](const IX& ix,long){ IX p; for (int i=0;i<T;++i) if (where[i]) p.push_back(ix[i]); if (bad.empty() && &get(ix)!=&at(f,p)) bad=vm::list(ix); }); VM_CHECK(bad.empty(),"broadcast-strided",in<<": entry "<<bad<<" is elsewhere"); vm::count("strided_broadcasts"); vm::nontrivial(in);
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain k;
  vm::sub("subviews",vm::ncases(1800,60000),[&](Rng& r, long long ic) { switch (ic%9) { case 0: subs<double,1>(r); break; case 1: subs<double,2>(r); break; case 2: subs<double,3>(r); break; case 3: subs<double,4>(r); break; case 4: subs<double,5>(r); break; case 5: subs<double,6>(r); break; case 6: subs<Pack<double,4>,3>(r); break; case 7: subs<int,4>(r); break; default: subs<Pack<double,2>,2>(r); } });
  vm::sub("reshape",vm::ncases(1000,30000),[&](Rng& r, long long) { reshapes(r); strided_shapes(r); });
  vm::sub("slice_fill",vm::ncases(300,6000),[&](Rng& r, long long) { strided_fills(r); });
  vm::sub("broadcast_strided",vm::ncases(600,20000),[&](Rng& r, long long ic) { using LS=Kokkos::LayoutStride; switch (ic%10) { case 0: broad_strided<2,2,LR>(r); break; case 1: broad_strided<1,2,LR>(r); break; case 2: broad_strided<2,3,LR>(r); break; case 3: broad_strided<3,4,LR>(r); break; case 4: broad_strided<2,4,LR>(r); break; case 5: broad_strided<1,1,LS>(r); break; case 6: broad_strided<2,3,LS>(r); break; case 7: broad_strided<1,3,LS>(r); break; case 8: broad_strided<3,5,LS>(r); break; default: broad_strided<2,4,LS>(r); } });
  vm::sub("fill",vm::ncases(300,6000),[&](Rng& r, long long ic) { IX e=rext(r,ic%3+1,0,6); if (ic%3==0) fills(make<VR<double,1>>(e),r); else if (ic%3==1) fills(make<VR<int,2>>(e),r); else fills(make<VR<float,3>>(e),r); });
  vm::sub("broadcast",vm::ncases(1800,60000),[&](Rng& r, long long ic) { switch (ic%12) { case 0: broad<1,1>(r); break; case 1: broad<1,2>(r); break; case 2: broad<2,3>(r); break; case 3: broad<1,4>(r); break; case 4: broad<3,4>(r); break; case 5: broad<2,5>(r); break; case 6: broad<3,6>(r); break; case 7: broad<2,7>(r); break; case 8: broad<4,8>(r); break; case 9: broad<2,2>(r); break; case 10: broad<1,3>(r); break; default: broad<3,5>(r); } });
  vm::sub("vast",vm::ncases(400,12000),[&](Rng& r, long long ic) { switch (ic%12) { case 0: vast_subs<double,1>(r); break; case 1: vast_subs<double,2>(r); break; case 2: vast_subs<double,3>(r); break; case 3: vast_subs<double,4>(r); break; case 4: vast_subs<double,5>(r); break; case 5: vast_subs<double,6>(r); break; case 6: vast_subs<int,4>(r); break; case 7: vast_shapes(r); break; case 8: broad<2,3>(r,true); break; case 9: broad<3,4>(r,true); break; case 10: broad<2,5>(r,true); break; default: broad<3,6>(r,true); } });
  return vm::finish();
}
