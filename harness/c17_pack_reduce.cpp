// C17: reductions over a pack use every lane once, shifts move lanes by exactly one, and pack index arithmetic is a bijection
#include "packmon.hpp"
#include "ekat_pack_utils.hpp"
#include "ekat_arch.hpp"
#include <random>
#include <limits>
template<typename T,int N> void reduce (Rng& r) {
  using P=Pack<T,N>; auto gf=[](Rng& q){ return fin<T>(q); }; const P a=rp<T,N>(r,gf), b=rp<T,N>(r,gf); const T s=fin<T>(r); const string in=string(tn<T>())+" "+show(a)+show(b)+vm::str(+s);
  T mn=a[0], mx=a[0], seq=0, acc=s; double big=std::fabs((double)s); for (int i=0;i<N;++i) { mn=std::min(mn,a[i]); mx=std::max(mx,a[i]); seq=(T)(seq+a[i]); acc=(T)(acc+a[i]); big+=std::fabs((double)a[i]); }
  VM_CHECK(ekat::min(a)==mn,"min",in<<": "<<+ekat::min(a)); VM_CHECK(ekat::max(a)==mx,"max",in<<": "<<+ekat::max(a));
  const double tol=std::is_floating_point_v<T> ? 2.0*N*big*(double)std::numeric_limits<T>::epsilon() : 0;
  T t=s; ekat::reduce_sum<true>(a,t); VM_CHECK(eq(t,acc) && eq(ekat::reduce_sum<true>(a),seq),"sum-serial",in<<": the serialised sum is "<<+ekat::reduce_sum<true>(a)<<", in order it is "<<+seq);
  t=s; ekat::reduce_sum<false>(a,t); VM_CHECK(std::fabs((double)t-(double)acc)<=tol && std::fabs((double)ekat::reduce_sum<false>(a)-(double)seq)<=tol,"sum",in<<": the sum is "<<+ekat::reduce_sum<false>(a)<<", should be "<<+seq);
  t=s; ekat::reduce_sum(a,t); const T q=ekat::reduce_sum(a); VM_CHECK(std::fabs((double)t-(double)acc)<=tol && std::fabs((double)q-(double)seq)<=tol,"sum-default",in); if (ekat::ekatBFB) VM_CHECK(eq(t,acc) && eq(q,seq),"sum-default-bfb",in);
  { Pack<T,N> w=rp<T,N>(r,[](Rng& k){ return whole<T>(k); }); double e=0; for (int i=0;i<N;++i) e+=(double)w[i]; VM_CHECK((double)ekat::reduce_sum<false>(w)==e,"sum-exact",show(w)<<" sums to "<<+ekat::reduce_sum<false>(w)<<", should be "<<e); }
  lanes("shift-right",ekat::shift_right(b,a),[&](int i){ return i==0?b[N-1]:a[i-1]; },in); lanes("shift-left",ekat::shift_left(b,a),[&](int i){ return i==N-1?b[0]:a[i+1]; },in); lanes("shift-right-scalar",ekat::shift_right(s,a),[&](int i){ return i==0?s:a[i-1]; },in); lanes("shift-left-scalar",ekat::shift_left(s,a),[&](int i){ return i==N-1?s:a[i+1]; },in);
  { P c=a; c=ekat::shift_right(c,c); lanes("rotate-right",c,[&](int i){ return a[(i+N-1)%N]; },in); c=a; c=ekat::shift_left(c,c); lanes("rotate-left",c,[&](int i){ return a[(i+1)%N]; },in); }
  lanes("sum-identity",Kokkos::reduction_identity<P>::sum(),[&](int){ return T(0); },"identity"); P inv=ekat::invalid<P>(); lanes("invalid",inv,[&](int){ return std::is_floating_point_v<T>?std::numeric_limits<T>::quiet_NaN():std::numeric_limits<T>::max(); },"invalid");
  vm::count("reductions"); vm::nontrivial(in); vm::sample(in);
}
template<int N> void info (Rng& r) {
  using I=ekat::PackInfo<N>; const int len=r.chance(0.1)?(int)r.range(1,1<<28):(int)r.range(1,200); const long np=((long)len+N-1)/N;
  VM_CHECK(I::num_packs(len)==np && I::has_padding(len)==(len%N!=0) && I::padding(len)==np*N-len && I::last_pack_idx(len)==np-1 && I::last_vec_end(len)==len-(np-1)*N,"pack-info",len<<" entries in packs of "<<N<<": "<<I::num_packs(len)<<" packs, padding "<<I::padding(len)<<", last end "<<I::last_vec_end(len));
  VM_CHECK((ekat::npack<Pack<double,N>>(len)==np),"npack","");
  const int steps=std::min(len,300); int prev=-1;
  for (int k=0;k<steps;++k) { const int i=len<=300?k:(int)r.range(0,len-1); const int p=I::pack_idx(i), v=I::vec_idx(i); auto pv=I::pack_vec_idx(i); std::pair<int,int> sp(p,v);
    VM_CHECK(p>=0 && p<np && v>=0 && v<I::vec_end(len,p),"index-range",i<<" of "<<len<<" is at ("<<p<<","<<v<<")"); VM_CHECK(I::array_idx(p,v)==i && pv.first==p && pv.second==v && I::array_idx(pv)==i && I::array_idx(sp)==i,"index-bijection",i<<" -> ("<<p<<","<<v<<") -> "<<I::array_idx(p,v)); if (len<=300) { VM_CHECK(p*N+v==prev+1,"index-order",""); prev=p*N+v; } }
  if (np<2000) { long tot=0; for (int p=0;p<np;++p) tot+=I::vec_end(len,p); VM_CHECK(tot==len,"vec-ends","the packs of "<<len<<" entries hold "<<tot); }
  vm::count("lengths"); vm::nontrivial((uint64_t)len*64+N);
}
template<int N> void layout () {
  using namespace ekat; using P=Pack<double,N>;
  VM_CHECK((std::is_same_v<typename ScalarizedDataType<P**>::type,double**> && std::is_same_v<typename ScalarizedDataType<const P*>::type,const double*> && std::is_same_v<typename ScalarizedDataType<P*[3]>::type,double*[3*N]> && std::is_same_v<typename ScalarizedDataType<P*[5][3]>::type,double*[5][3*N]> && std::is_same_v<typename ScalarizedDataType<int**[2]>::type,int**[2]> && std::is_same_v<typename ScalarizedDataType<P>::type,double[N]>),"scalarized-type","packs of "<<N);
  VM_CHECK((std::is_same_v<typename ScalarTraits<const P&>::scalar_type,double> && ScalarTraits<P>::is_simd && !ScalarTraits<double>::is_simd && ScalarTraits<P>::is_floating_point && !ScalarTraits<Pack<int,N>>::is_floating_point && std::is_same_v<typename ScalarTraits<P>::value_type,P> && IsPack<const P&>::value && !IsPack<double>::value),"scalar-traits","packs of "<<N);
}
int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("reduce",vm::ncases(8000,300000),[&](Rng& r, long long ic) { switch (ic%9) { case 0: reduce<double,1>(r); break; case 1: reduce<double,2>(r); break; case 2: reduce<double,4>(r); break; case 3: reduce<double,8>(r); break; case 4: reduce<double,16>(r); break; case 5: reduce<float,8>(r); break; case 6: reduce<int,4>(r); break; case 7: reduce<int,16>(r); break; default: reduce<long,32>(r); } });
  vm::sub("index",vm::ncases(1500,30000),[&](Rng& r, long long ic) { switch (ic%6) { case 0: info<1>(r); break; case 1: info<2>(r); break; case 2: info<4>(r); break; case 3: info<8>(r); break; case 4: info<16>(r); break; default: info<64>(r); } });
  vm::sub("random",vm::ncases(500,5000),[&](Rng& r, long long) { const int n=(int)r.range(0,9); std::vector<Pack<double,4>> x(n+2,Pack<double,4>(-7)); std::mt19937_64 e(r.u64()), e2=e; std::uniform_real_distribution<double> d(0,1), d2=d; ekat::genRandArray(x.data()+1,n,e,d); bool ok=(x[0]==-7.0).all()&&(x[n+1]==-7.0).all(); for (int i=0;i<n;++i) for (int j=0;j<4;++j) ok=ok&&x[i+1][j]==d2(e2); VM_CHECK(ok,"random-packs",n); vm::nontrivial(r.u64()); });
  vm::sub("types",1,[&](Rng&, long long) { layout<1>(); layout<2>(); layout<8>(); layout<16>(); });
  return vm::finish();
}
