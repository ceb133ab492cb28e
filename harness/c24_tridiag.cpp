// C24: every tridiagonal solver gives the solution, for every size, format, type and team
#include "tridiag.hpp"
template<typename A,typename X> void correct (const string& tn) {
  vm::sub("solve "+tn,vm::ncases(500,8000),[&](Rng& r, long long icase) {
    int m; do m=(int)r.range(0,NMETHODS-1); while (!mm_ok<A,X>() && (m==THOMAS_MM || m==CR_MM));
    const int n=icase<40?(int)icase/2+1:r.chance(0.5)?(int)r.range(1,40):r.chance(0.5)?std::max(1,(1<<r.range(0,8))+(int)r.range(-1,1)):r.chance(0.03)?(int)r.range(300,3000):(int)r.range(1,300); const int nthr=KT::ExeSpace().concurrency();
    int nx=rank1_X(m)?1:r.chance(0.3)?1:(int)r.range(1,n<100&&r.chance(0.03)?150:r.chance(0.2)?30:9); if (m==BFB_M1 && nx==1) nx=2; const int na=many_A(m)?nx:1; const bool wide_a=rank2_A(m) && r.chance(0.4), wide_x=!rank1_X(m) && r.chance(0.4);
    const int ts=(int)r.range(1,nthr), league=(int)r.range(1,4); const bool nan=r.chance(0.3), left=r.chance(0.3); std::vector<std::unique_ptr<Prob<A,X>>> ps; for (int k=0;k<league;++k) ps.emplace_back(new Prob<A,X>(r,n,na,nx,nan,wide_a,wide_x));
    run_problems(m,ps,ts,left);
    const double eps=std::max<double>(std::numeric_limits<typename Lanes<A>::S>::epsilon(),std::numeric_limits<typename Lanes<X>::S>::epsilon());
    for (int k=0;k<league;++k) for (int c=0;c<nx;++c) for (int l=0;l<Lanes<X>::n;++l) {
      auto x=ps[k]->solve(c,l); long double mx=0; for (auto v : x) mx=std::max(mx,std::fabs(v)); const double tol=(double)mx*eps*40*(1+1/ps[k]->delta); double worst=0; int at=-1;
      for (int i=0;i<n;++i) { const double e=std::fabs((double)((long double)ps[k]->got(i,c,l)-x[i])); if (!(e<=worst)) { worst=e; at=i; } }
      VM_CHECK(worst<=tol,"tridiag.solution",tn << ", " << method_name[m] << ", " << n << " rows, " << nx << " right sides, column " << c << " lane " << l << ", team of " << ts << ": x(" << at << ") = " << ps[k]->got(std::max(at,0),c,l) << ", exactly " << (double)(at>=0?x[at]:0) << ", allowed error " << tol);
      vm::count_max("worst_error_in_millitolerances",(long long)(mx>0?1000*worst/(double)tol:0));
    }
    for (int k=0;k<league;++k) VM_CHECK(ps[k]->kept(),"tridiag.outside",tn << ", " << method_name[m] << ": entries beside the columns given were changed (" << n << " rows, " << nx << " right sides)"); if (wide_a || wide_x) vm::count("column_ranges");
    vm::count("systems",(long long)league*nx*Lanes<X>::n); vm::count(string("runs_")+method_name[m]); if (ts>1) vm::count("multi_thread_solves"); if (nan) vm::count("outside_entries_nan"); if (n<=3) vm::count("tiny_systems");
    vm::nontrivial(vm::mix((uint64_t)m*1000003+(uint64_t)n*101+(uint64_t)nx*7919+(uint64_t)ts));
  });
}
int main (int argc, char** argv) {
  vm::init(argc,argv); KokkosMain km;
  correct<double,double>("double"); correct<float,float>("float"); correct<double,float>("double/float"); correct<float,double>("float/double"); correct<Pack<double,4>,Pack<double,4>>("pack4"); correct<double,Pack<double,4>>("double/pack4"); correct<Pack<float,2>,Pack<double,2>>("pack2 float/double"); correct<Pack<double,1>,Pack<double,1>>("pack1"); correct<Slow,Slow>("class");
  return vm::finish();
}
