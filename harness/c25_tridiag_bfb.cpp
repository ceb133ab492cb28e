// C25: tridiagonal solves do not depend on the team, nor (bfb) on what is solved together
#include "tridiag.hpp"
template<typename A,typename X> std::vector<uint64_t> bits (const std::vector<std::unique_ptr<Prob<A,X>>>& ps, int c0=0, int c1=1<<30, int lane=-1) {
  std::vector<uint64_t> o; for (auto& p : ps) for (int i=0;i<p->n;++i) for (int c=c0;c<std::min(c1,p->nx);++c) for (int l=0;l<Lanes<X>::n;++l) if (lane<0 || lane==l) { auto v=Lanes<X>::get(p->xs[(size_t)i*(p->nx+p->px)+p->off[3]+c],l); uint64_t b=0; memcpy(&b,&v,sizeof v); o.push_back(b); } return o;
}
template<typename A,typename X> void same (const string& tn, int slow) {
  vm::sub("teams "+tn,vm::ncases(slow?120:250,slow?3000:5000),[&](Rng& r, long long) {
    const int nthr=KT::ExeSpace().concurrency(); static const int ms[]={THOMAS_TEAM,CR_11,CR_1M,CR_1M,CR_MM,BFB_1M,BFB_MM,BFB_M1}; int m; do m=ms[r.range(0,7)]; while (!mm_ok<A,X>() && m==CR_MM); if (many_A(m) && !mm_ok<A,X>()) m=BFB_1M;
    const int n=(int)r.range(1,slow?70:120); int nx=rank1_X(m)?1:(int)r.range(1,r.chance(0.3)?24:7); if (m==BFB_M1 && nx==1) nx=2; const int na=many_A(m)?nx:1, league=(int)r.range(1,3); std::vector<std::unique_ptr<Prob<A,X>>> ps; for (int k=0;k<league;++k) ps.emplace_back(new Prob<A,X>(r,n,na,nx,false,rank2_A(m) && r.chance(0.3),!rank1_X(m) && r.chance(0.3)));
    Slow::odds=0; run_problems(m,ps,1,false); const auto want=bits(ps);
    for (int rep=0;rep<(slow?4:3);++rep) {
      const int ts=(int)r.range(2,nthr); for (auto& p : ps) p->rewind(); Slow::odds=slow?(int)r.pick(std::vector<int>{20,60,300}):0; const bool left=r.chance(0.3); run_problems(m,ps,ts,left); Slow::odds=0;
      VM_CHECK(bits(ps)==want,"tridiag.team",tn << ", " << method_name[m] << ", " << n << " rows, " << nx << " right sides, " << league << " teams: the solution with teams of " << ts << " differs from that with teams of 1"); vm::count("solves_compared"); vm::count(string("runs_")+method_name[m]); if (nx%ts && ts%nx) vm::count("threads_and_columns_uneven"); if (ts>nx) vm::count("more_threads_than_columns");
      vm::nontrivial(vm::mix((uint64_t)m*10007+(uint64_t)n*101+(uint64_t)nx*7919+(uint64_t)ts));
    }
    // entries that are not part of the matrix have no effect
    for (auto& p : ps) { for (int c=0;c<na;++c) for (int l=0;l<Lanes<A>::n;++l) { Lanes<A>::set(p->dl0[c],l,NAN); Lanes<A>::set(p->du0[(size_t)(n-1)*na+c],l,NAN); } p->rewind(); } run_problems(m,ps,(int)r.range(1,nthr),false);
    VM_CHECK(bits(ps)==want,"tridiag.outside",tn << ", " << method_name[m] << ", " << n << " rows: the solution depends on dl(0) or du(" << n-1 << ")"); vm::count("outside_entries_nan");
  });
  if (!slow) vm::sub("batches "+tn,vm::ncases(250,5000),[&](Rng& r, long long) {
    // bfb: the same bits for a column however it is solved
    const int nthr=KT::ExeSpace().concurrency(), n=(int)r.range(1,80), nx=(int)r.range(2,10), ts=(int)r.range(1,nthr); const bool many=mm_ok<A,X>() && r.range(0,1); std::vector<std::unique_ptr<Prob<A,X>>> ps; ps.emplace_back(new Prob<A,X>(r,n,many?nx:1,nx,false)); run_problems(many?BFB_MM:BFB_1M,ps,ts,false); auto& P=*ps[0];
    auto part=[&](int c0, int k, bool repl) { auto* q=new Prob<A,X>(r,n,repl||many?k:1,k,false); for (int i=0;i<n;++i) for (int c=0;c<k;++c) { q->x0[(size_t)i*k+c]=P.x0[(size_t)i*nx+c0+c]; if (q->na>1 || c==0) { const size_t f=many?(size_t)i*nx+c0+c:(size_t)i, t=(size_t)i*q->na+c; q->dl0[t]=P.dl0[f]; q->d0[t]=P.d0[f]; q->du0[t]=P.du0[f]; } } q->rewind(); return q; };
    const int c0=(int)r.range(0,nx-1), k=(int)r.range(1,nx-c0); const auto want=bits(ps,c0,c0+k);
    auto check=[&](int m, Prob<A,X>* q, const char* how) { std::vector<std::unique_ptr<Prob<A,X>>> qs; qs.emplace_back(q); const int t2=(int)r.range(1,nthr); run_problems(m,qs,t2,false); VM_CHECK(bits(qs)==want,"bfb.batch",tn << ", " << n << " rows, columns " << c0 << " to " << c0+k-1 << " of " << nx << ", teams of " << ts << " and " << t2 << ": bfb gives other bits " << how); vm::count("batches_compared"); };
    check(many?BFB_MM:BFB_1M,part(c0,k,false),"when only these are solved"); if (mm_ok<A,X>() && !many) check(BFB_MM,part(c0,k,true),"when each column has its copy of the matrix"); if (!many && k>1) check(BFB_M1,part(c0,k,false),"when the matrix is given as one column of a rank-2 array");
    if (Lanes<X>::n>1) {   // each lane alone
      using SA=typename Lanes<A>::S; using SX=typename Lanes<X>::S; const int l=(int)r.range(0,Lanes<X>::n-1); auto* q=new Prob<SA,SX>(r,n,P.na,nx,false); for (size_t t=0;t<P.x0.size();++t) q->x0[t]=Lanes<X>::get(P.x0[t],l); for (size_t t=0;t<P.d0.size();++t) { const int la=Lanes<A>::n==1?0:l; q->dl0[t]=Lanes<A>::get(P.dl0[t],la); q->d0[t]=Lanes<A>::get(P.d0[t],la); q->du0[t]=Lanes<A>::get(P.du0[t],la); } q->rewind();
      std::vector<std::unique_ptr<Prob<SA,SX>>> qs; qs.emplace_back(q); run_problems(many?BFB_MM:BFB_1M,qs,(int)r.range(1,nthr),false); VM_CHECK(bits(qs)==bits(ps,0,nx,l),"bfb.lane",tn << ", " << n << " rows, " << nx << " columns: lane " << l << " solved as plain scalars gives other bits"); vm::count("lanes_compared");
    }
    vm::nontrivial(vm::mix(want.size()?want.back():0));
  });
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain km;
  same<Slow,Slow>("delayed",1); same<double,double>("double",0); same<float,double>("float/double",0); same<Pack<double,4>,Pack<double,4>>("pack4",0); same<double,Pack<double,4>>("double/pack4",0);
  vm::count("delays_injected",Slow::naps);
  return vm::finish();
}
