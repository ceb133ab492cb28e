// C21: kernel checks end the program exactly when they fail, and the device-safe helpers agree with their definitions
#include "viewmon.hpp"
#include "ekat_kernel_assert.hpp"
#include "ekat_math_utils.hpp"
#include "ekat_upper_bound.hpp"
#include "ekat_kokkos_str_utils.hpp"
#include "ekat_kokkos_session.hpp"
#include "ekat_type_traits.hpp"
#include "ekat_arch.hpp"
#include <algorithm>
#ifdef EKAT_ENABLE_GPU
constexpr bool on_device=true;    // EKAT's replacements for devices, with the host as the device (standin_gpu.hpp)
#else
constexpr bool on_device=false;
#endif
using namespace ekat;
static std::atomic<int> evaluated{0};
static bool cond (bool c) { ++evaluated; return c; }
static int child (const std::vector<string>& a) {   // --check form cond where
  const int form=std::stoi(a[0]), where=std::stoi(a[2]); const bool c=a[1]=="1"; Kokkos::InitializationSettings s; s.set_disable_warnings(true); Kokkos::initialize(s);
  auto body=[=](){ switch (form) { case 0: EKAT_KERNEL_REQUIRE(cond(c)); break; case 1: EKAT_KERNEL_REQUIRE_MSG(cond(c),"the-user-message"); break; case 2: EKAT_KERNEL_ASSERT(cond(c)); break; case 3: EKAT_KERNEL_ASSERT_MSG(cond(c),"the-user-message"); break; default: if (!c) EKAT_KERNEL_ERROR_MSG("the-user-message"); else cond(true); } };
  if (where==0) body(); else if (where==1) Kokkos::parallel_for("c",Kokkos::RangePolicy<>(0,1),[=](int){ body(); }); else Kokkos::parallel_for("t",Kokkos::TeamPolicy<>(1,2),[=](const Kokkos::TeamPolicy<>::member_type& t){ Kokkos::single(Kokkos::PerTeam(t),[&]{ body(); }); });
  Kokkos::finalize(); std::cout << "SURVIVED " << evaluated << std::endl; return 0;
}
static int session (const std::vector<string>& a) {   // --session mode
  const int m=std::stoi(a[0]); std::vector<string> args{"prog","--kokkos-num-threads=2","other"}; std::vector<char*> av; for (auto& x : args) av.push_back(&x[0]); int ac=m==1?3:1;
  finalize_kokkos_session(); // not initialised: nothing to do
  if (m==2) initialize_kokkos_session(false); else if (m==3) initialize_kokkos_session(); else initialize_kokkos_session(ac,av.data(),m!=4);
  bool ok=Kokkos::is_initialized(); const int n=KT::ExeSpace().concurrency(); initialize_kokkos_session(false); ok=ok&&Kokkos::is_initialized()&&KT::ExeSpace().concurrency()==n; const string cfg=kokkos_config_string();
  finalize_kokkos_session(); ok=ok&&!Kokkos::is_initialized(); finalize_kokkos_session(); std::cout << "\nSESSION " << ok << " " << n << "\nCONFIG\n" << cfg << std::endl; return 0;
}
template<typename T> void bound (Rng& r) {
  std::vector<T> v((size_t)r.range(0,r.chance(0.2)?2000:12)); for (auto& x : v) x=(T)r.range(-9,9); std::sort(v.begin(),v.end()); const T q=(T)r.range(-11,11); const T* p=v.data(); auto* u=ekat::upper_bound(p,p+v.size(),q); long w=0; while (w<(long)v.size() && !(q<v[w])) ++w;
  VM_CHECK(u-p==w,"upper-bound",q<<" in "<<v.size()<<" entries: "<<u-p<<", should be "<<w); vm::count("bounds"); vm::nontrivial((uint64_t)v.size()*64+(uint64_t)(long)q);
  if (!v.empty()) { std::vector<T> z=v; for (size_t i=z.size();i-->1;) std::swap(z[i],z[r.range(0,(long)i)]); T mx=z[0]; for (T x : z) if (x>mx) mx=x; const T* me=ekat::impl::max_element(z.data(),z.data()+z.size()); VM_CHECK(me>=z.data() && me<z.data()+z.size() && *me==mx && me==std::max_element(z.data(),z.data()+z.size()),"max-element","entry "<<me-z.data()<<" of "<<z.size()); VM_CHECK(ekat::impl::max_element(z.data(),z.data())==z.data(),"max-element-of-none",""); VM_CHECK(ekat::impl::max(z[0],q)==(z[0]>q?z[0]:q) && ekat::impl::min(z[0],q)==(z[0]<q?z[0]:q),"min-max",""); }
}
template<typename I> void minmax (Rng& r) {
  const I a=(I)r.range(0,100000), b=r.chance(0.1)?a:(I)r.range(0,100000); I mn=(I)-1, mx=(I)-1; ekat::impl::set_min_max(a,b,mn,mx); VM_CHECK(mn==std::min(a,b) && mx==std::max(a,b),"set-min-max",a<<","<<b<<" give "<<mn<<","<<mx);
  const int n=1<<r.range(0,5); ekat::impl::set_min_max(a,b,mn,mx,n); VM_CHECK(mn==(I)(std::min(a,b)/(I)n) && mx==(I)(std::max(a,b)/(I)n),"set-min-max-packs",a<<","<<b<<" in packs of "<<n<<" give "<<mn<<","<<mx); vm::count("limits"); vm::nontrivial((uint64_t)a*100003+(uint64_t)b);
}
template<typename T> void floats (Rng& r) {
  const T a=rv<T>(r), b=rv<T>(r); VM_CHECK(ekat::impl::is_nan(a)==(a!=a),"is-nan",a); VM_CHECK(ekat::impl::isfinite(a)==(a-a==0),"isfinite",a);
  if (a-a==0 && b-b==0 && std::fabs(a)>1e-20 && std::fabs(a)<1e20 && std::fabs(b)<1e20) { const double w=std::fabs((double)b-(double)a)/std::fabs((double)a), g=ekat::impl::rel_diff(a,b); VM_CHECK(std::fabs(g-w)<=8*(w+std::fabs((double)b)/std::fabs((double)a)+1)*std::numeric_limits<T>::epsilon(),"rel-diff",a<<","<<b<<" give "<<g<<", should be "<<w); VM_CHECK(ekat::impl::rel_diff(a,a)==0,"rel-diff-zero",a); }
  VM_CHECK(std::isnan(ekat::invalid<T>()),"invalid","the invalid marker is a number"); vm::count("floats"); vm::nontrivial(vm::hash_bytes(&a,sizeof a)*3+vm::hash_bytes(&b,sizeof b));
}
static void strings (Rng& r) {
  auto rs=[&]{ string s((size_t)r.range(0,r.chance(0.2)?130:5),'a'); for (char& c : s) c=r.chance(0.1)?(char)r.range(128,255):(char)r.range('a','c'); return s; }; const string a=rs(), b=r.chance(0.2)?a:rs(); std::vector<char> buf(a.size()+3,'#');
  auto sg=[](int x){ return (x>0)-(x<0); }; VM_CHECK(ekat::impl::strlen(a.c_str())==a.size(),"strlen",a.size()); VM_CHECK(sg(ekat::impl::strcmp(a.c_str(),b.c_str()))==sg(a.compare(b)),"strcmp",""); ekat::impl::strcpy(buf.data(),a.c_str()); VM_CHECK(string(buf.data())==a && buf[a.size()]==0 && buf[a.size()+1]=='#',"strcpy",""); vm::count("strings"); vm::nontrivial(a+"|"+b);
}
struct NoStream {}; struct Streams {}; inline std::ostream& operator<< (std::ostream& o, const Streams&) { return o; } struct Eq { bool operator== (int) const { return true; } };
static void traits () {
  VM_CHECK((std::is_same_v<DataND<double,0>::type,double> && std::is_same_v<DataND<const int,3>::type,const int***> && std::is_same_v<remove_all_pointers<const double***>::type,const double> && std::is_same_v<ekat::ValueType<const double**[3]>::type,const double> && std::is_same_v<ekat::ValueType<float(&)[2][3]>::type,float> && std::is_same_v<ekat::ValueType<int>::type,int>),"types","");
  VM_CHECK(((int)GetRanks<double**[3]>::rank==3 && (int)GetRanks<double**[3]>::rank_dynamic==2 && (int)GetRanks<int>::rank==0 && (int)GetRanks<int>::rank_dynamic==0 && (int)GetRanks<float*[2][5]>::rank==3 && (int)GetRanks<float*[2][5]>::rank_dynamic==1 && (int)GetRanks<float[2][5]>::rank==2 && (int)GetRanks<float[2]>::rank_dynamic==0),"ranks","");
  VM_CHECK((std::is_same_v<remove_all_consts<const double*>::type,double*> && std::is_same_v<remove_all_consts<const double**>::type,double**> && std::is_same_v<remove_all_consts<const int>::type,int>),"no-consts","");
  VM_CHECK((is_single_precision<float>::value && !is_single_precision<double>::value && !is_single_precision<int>::value && is_vector_v<std::vector<int>> && !is_vector_v<int> && !is_vector_v<std::set<int>>),"predicates","");
  VM_CHECK((EqualExists<int,double>::value && EqualExists<Eq,int>::value && !EqualExists<NoStream,NoStream>::value && StreamExists<int>::value && StreamExists<Streams>::value && !StreamExists<NoStream>::value),"operators","");
  using U=Unmanaged<KT::view<const double**[3]>>; VM_CHECK((U::traits::memory_traits::is_unmanaged && std::is_same_v<U::traits::data_type,const double**[3]> && std::is_same_v<U::traits::array_layout,Kokkos::LayoutRight> && std::is_same_v<Unmanaged<U>,U> && !KT::view<int*>::traits::memory_traits::is_unmanaged),"unmanaged","");
  using A=Unmanaged<Kokkos::View<int*,Kokkos::LayoutLeft,DefaultDevice,Kokkos::MemoryTraits<Kokkos::RandomAccess|Kokkos::Atomic>>>; VM_CHECK((A::traits::memory_traits::is_random_access && A::traits::memory_traits::is_atomic && A::traits::memory_traits::is_unmanaged && !A::traits::memory_traits::is_restrict && std::is_same_v<A::traits::array_layout,Kokkos::LayoutLeft>),"unmanaged-traits","");
  VM_CHECK((std::is_same_v<KT::view_ND<float,4>::traits::data_type,float****> && (int)KT::view_3d<int>::Rank==3 && std::is_same_v<KT::view_2d<int>::traits::array_layout,Kokkos::LayoutRight> && std::is_same_v<KT::lview<int**>::traits::array_layout,Kokkos::LayoutLeft> && std::is_same_v<KT::sview<int**>::traits::array_layout,Kokkos::LayoutStride> && std::is_same_v<KT::view_1d_table<double,7>::traits::data_type,const double[7]> && OnGpu<KT::ExeSpace>::value==on_device),"kokkos-types","");
  VM_CHECK((std::is_same_v<ScalarTraits<const double&>::scalar_type,double> && ScalarTraits<float>::is_floating_point && !ScalarTraits<int&&>::is_floating_point && !ScalarTraits<bool>::is_simd),"scalar-traits",""); VM_CHECK(ekat::invalid<int>()==std::numeric_limits<int>::max() && ekat::invalid<char>()==std::numeric_limits<char>::max() && ekat::invalid<long>()==std::numeric_limits<long>::max(),"invalid-int","");
  VM_CHECK(compiler_id_string()=="GCC","compiler",compiler_id_string()); const string s=active_avx_string(); auto has=[&](const char* x){ return (s+"-").find(string("-")+x+"-")!=string::npos; }; bool a=false,b=false,c=false;
#ifdef __AVX__
  a=true;
#endif
#ifdef __AVX2__
  b=true;
#endif
#ifdef __AVX512F__
  c=true;
#endif
  VM_CHECK(has("AVX")==a && has("AVX2")==b && has("AVX512F")==c,"avx",s); vm::nontrivial("traits");
}
int main (int argc, char** argv) {
  if (argc==5 && string(argv[1])=="--check") return child({argv+2,argv+5}); if (argc==3 && string(argv[1])=="--session") return session({argv[2]});
  vm::init(argc,argv);
  vm::sub("checks",30,[&](Rng&, long long ic) { const int form=(int)(ic%5), where=(int)(ic/5%3); const bool c=ic/15; bool debug_only=form==2||form==3, on=true;
#ifdef NDEBUG
    on=!debug_only;
#endif
    (void)debug_only; auto o=vm::run_self({"--check",vm::str(form),c?"1":"0",vm::str(where)}); const string in="form "+vm::str(form)+", condition "+vm::str(c)+", where "+vm::str(where)+": ";
    if (!c && on) { VM_CHECK(o.signaled && o.sig==SIGABRT,"failing-check",in<<"the program went on: "<<o.out<<o.err.substr(0,300)); const string all=o.out+o.err; VM_CHECK(form==4 || all.find("cond(c)")!=string::npos,"failing-check-condition",in<<"the condition is not reported: "<<all.substr(0,500)); VM_CHECK((form!=1&&form!=3&&form!=4) || all.find("the-user-message")!=string::npos,"failing-check-message",in<<"the message is not reported: "<<all.substr(0,500)); vm::count("failing_checks"); }
    else { VM_CHECK(!o.signaled && o.status==0 && o.out.find("SURVIVED "+vm::str(form==4?c:on?1:0))!=string::npos,"passing-check",in<<o.out.substr(0,300)<<o.err.substr(0,300)); VM_CHECK(o.out.find("CHECK FAILED")==string::npos,"passing-check-silent",in); vm::count("passing_checks"); } vm::nontrivial(in); });
  if (!on_device) vm::sub("session",5,[&](Rng&, long long m) { auto o=vm::run_self({"--session",vm::str(m)}); const int n=m==1?2:atoi(getenv("OMP_NUM_THREADS")); auto p=o.out.find("SESSION 1 "); auto q=o.out.find("CONFIG\n"); VM_CHECK(o.status==0 && p!=string::npos && atoi(o.out.c_str()+p+10)==n,"session","mode "<<m<<", status "<<o.status<<": "<<o.out.substr(0,400)<<o.err.substr(0,300));
    if (q!=string::npos) { const string cfg=o.out.substr(q+7); VM_CHECK(cfg.find("OpenMP")!=string::npos && cfg.find("host threads: "+vm::str(n)+"\n")!=string::npos,"session-config",cfg); const bool printed=o.out.substr(0,p).find("host threads: "+vm::str(n)+"\n")!=string::npos; VM_CHECK(printed==(m!=2 && m!=4),"session-print","mode "<<m<<": "<<o.out.substr(0,400)); } vm::count("sessions"); vm::nontrivial((uint64_t)m); });
  vm::sub("bound",vm::ncases(5000,100000),[&](Rng& r, long long ic) { ic%3==0?bound<double>(r):ic%3==1?bound<int>(r):bound<float>(r); });
  vm::sub("limits",vm::ncases(5000,100000),[&](Rng& r, long long ic) { ic%2?minmax<int>(r):minmax<long>(r); });
  vm::sub("floats",vm::ncases(10000,200000),[&](Rng& r, long long ic) { ic%2?floats<double>(r):floats<float>(r); });
  vm::sub("strings",vm::ncases(3000,50000),[&](Rng& r, long long) { strings(r); });
  vm::sub("traits",1,[&](Rng&, long long) { traits(); });
  return vm::finish();
}
