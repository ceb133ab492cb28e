// C12: a communicator has the rank and size of its group, its collectives give every rank the MPI result for that group
// and touch nothing else, barriers separate what is before from what is after, splits group by colour in rank order.
#include "vmon.hpp"
#include "ekat_comm.hpp"
#include <cstddef>
#include <algorithm>
using vm::Rng; using std::string;

template<typename T> struct Guarded {          // n values between two guard zones
  static constexpr int G=8; std::vector<unsigned char> b; int n;
  explicit Guarded (int n_) : b((n_+2*G)*sizeof(T),0xA5), n(n_) {}
  T* p () { return reinterpret_cast<T*>(b.data()+G*sizeof(T)); }
  T& operator[] (int i) { return p()[i]; }
  bool intact () const { for (size_t i=0;i<G*sizeof(T);++i) if (b[i]!=0xA5 || b[b.size()-1-i]!=0xA5) return false; return true; }
};
struct Pt { int a; double x; bool operator== (const Pt& o) const { return a==o.a && x==o.x; } };
namespace ekat {
static MPI_Datatype pt_type;
template<> MPI_Datatype get_mpi_type<Pt> () { return pt_type; }
}
template<typename T> T val (uint64_t key, int rank, int i) {
  const uint64_t h=vm::mix(key^vm::mix(rank*7919+i));
  if constexpr (std::is_same_v<T,Pt>) return Pt{(int)(h%1000),(double)(h>>20&0xfff)/8};
  else if constexpr (std::is_same_v<T,bool>) return h&1;
  else if constexpr (std::is_floating_point_v<T>) return (T)((int)(h%17)-8)/4;
  else if constexpr (sizeof(T)==1) return (T)(h%90+32);
  else return (T)((int)(h%9)-4);
}
struct OpD { MPI_Op op; const char* name; };
template<typename T> T comb (int o, T a, T b) {
  if constexpr (std::is_same_v<T,bool>) return o==4?a&&b:o==6?a||b:a!=b;
  else if constexpr (std::is_same_v<T,Pt>) return a;
  else switch (o) { case 0: return std::max(a,b); case 1: return std::min(a,b); case 2: return (T)(a+b); case 3: return (T)(a*b);
    default: if constexpr (std::is_integral_v<T>) switch (o) { case 4: return a&&b; case 5: return (T)(a&b); case 6: return a||b; case 7: return (T)(a|b); case 8: return !a!=!b; case 9: return (T)(a^b); } return a; }
}
static const OpD OPS[10]={{MPI_MAX,"max"},{MPI_MIN,"min"},{MPI_SUM,"sum"},{MPI_PROD,"prod"},{MPI_LAND,"land"},{MPI_BAND,"band"},{MPI_LOR,"lor"},{MPI_BOR,"bor"},{MPI_LXOR,"lxor"},{MPI_BXOR,"bxor"}};
template<typename T> constexpr bool reducible = !std::is_same_v<T,Pt> && !std::is_same_v<T,char>;
template<typename T> int rop (Rng& r) { if (std::is_same_v<T,bool>) { int o[3]={4,6,8}; return o[r.range(0,2)]; } return (int)r.range(0,std::is_floating_point_v<T>?3:9); }

// one random collective on c; same random choices on all its ranks
template<typename T> void collective (const ekat::Comm& c, Rng& r, const char* tname, int size, int rank, bool serial) {
  const uint64_t key=r.u64(); const int kind=(int)r.range(0,reducible<T>?6:2), n=r.chance(0.05)?0:r.chance(0.05)?(int)r.range(1000,3000):r.chance(0.01)?(int)r.range(3000,150000):(int)r.range(1,12);
  const int root=(int)r.range(0,size-1), o=rop<T>(r); string what; bool ok=true, same=true; string bad;
  auto in=[&](int rk,int i){ return val<T>(key,rk,i); };
  auto expect=[&](const T& got, const T& want, int i){ if (!(got==want)) { if (ok) bad="entry "+std::to_string(i); ok=false; } };
  auto red=[&](int last,int i){ T v=in(0,i); for (int k=1;k<=last;++k) v=comb<T>(o,v,in(k,i)); return v; };
  Guarded<T> a(n), b(kind<3&&kind>0 ? n*size : n);
  for (int i=0;i<n;++i) a[i]=in(rank,i);
  switch (kind) {
    case 0: { what="broadcast"; c.broadcast(a.p(),n,root); for (int i=0;i<n;++i) expect(a[i],in(root,i),i); break; }
    case 1: { what="all_gather"; const T* ca=a.p(); c.all_gather(ca,b.p(),n); for (int k=0;k<size;++k) for (int i=0;i<n;++i) expect(b[k*n+i],in(k,i),k*n+i); break; }
    case 2: { what="all_gather in place"; for (int i=0;i<n;++i) b[rank*n+i]=in(rank,i); c.all_gather(b.p(),n); for (int k=0;k<size;++k) for (int i=0;i<n;++i) expect(b[k*n+i],in(k,i),k*n+i); break; }
    default: if constexpr (reducible<T>) { const T* ca=a.p();
      if (kind==3) { what="all_reduce"; c.all_reduce(ca,b.p(),n,OPS[o].op); for (int i=0;i<n;++i) expect(b[i],red(size-1,i),i); }
      else if (kind==4) { what="all_reduce in place"; for (int i=0;i<n;++i) b[i]=in(rank,i); c.all_reduce(b.p(),n,OPS[o].op); for (int i=0;i<n;++i) expect(b[i],red(size-1,i),i); }
      else if (kind==5) { what="scan"; c.scan(ca,b.p(),n,OPS[o].op); for (int i=0;i<n;++i) expect(b[i],red(rank,i),i); }
      else { what="scan in place"; for (int i=0;i<n;++i) b[i]=in(rank,i); c.scan(b.p(),n,OPS[o].op); for (int i=0;i<n;++i) expect(b[i],red(rank,i),i); }
      what+=string(" ")+OPS[o].name; } }
  if (kind>0) for (int i=0;i<n;++i) if (!(a[i]==in(rank,i))) same=false;
  string d=what+" of "+std::to_string(n)+" "+tname+" in a group of "+std::to_string(size)+" (rank "+std::to_string(rank)+", root "+std::to_string(root)+")";
  VM_CHECK(ok,"result."+what,d<<" gave a wrong "<<bad); VM_CHECK(same,"input-changed",d<<" changed its input");
  VM_CHECK(a.intact() && b.intact(),"out-of-bounds",d<<" wrote outside its buffers");
  vm::count(serial?"serial_ops":"collectives"); vm::nontrivial(d); vm::sample(d);
}
static void any_collective (const ekat::Comm& c, Rng& r, int size, int rank, bool serial) {
  switch (r.range(0,8)) {
    case 0: collective<char>(c,r,"char",size,rank,serial); break; case 1: collective<bool>(c,r,"bool",size,rank,serial); break;
    case 2: collective<short>(c,r,"short",size,rank,serial); break; case 3: collective<int>(c,r,"int",size,rank,serial); break;
    case 4: collective<long>(c,r,"long",size,rank,serial); break; case 5: collective<long long>(c,r,"long long",size,rank,serial); break;
    case 6: collective<float>(c,r,"float",size,rank,serial); break; case 7: collective<double>(c,r,"double",size,rank,serial); break;
    default: collective<Pt>(c,r,"struct",size,rank,serial);
  }
}
#ifndef EKAT_ENABLE_MPI
int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("serial",vm::ncases(6000,100000),[&](Rng& r, long long) {
    ekat::Comm c; if (r.chance(0.3)) c=ekat::Comm(MPI_COMM_WORLD); const bool was_world=c.mpi_comm()==MPI_COMM_WORLD;
    auto is=[&](const ekat::Comm& x){ return x.rank()==0 && x.size()==1 && x.am_i_root() && x.root_rank()==0; };
    VM_CHECK(is(c),"serial-shape","a serial comm has rank "<<c.rank()<<" of "<<c.size()); if (!was_world) VM_CHECK(c.mpi_comm()==MPI_COMM_SELF,"serial-default","");
    MPI_Comm to = r.chance(0.5)?MPI_COMM_WORLD:MPI_COMM_SELF; c.reset_mpi_comm(to); VM_CHECK(c.mpi_comm()==to && is(c),"serial-reset","reset_mpi_comm did not store the comm");
    ekat::Comm s=c.split((int)r.range(0,5)); VM_CHECK(is(s),"serial-split",""); c.barrier();
    any_collective(r.chance(0.5)?c:s,r,1,0,true);
    VM_CHECK(ekat::get_mpi_type<double>()==MPI_DOUBLE && ekat::get_mpi_type<int>()==MPI_INT && ekat::get_mpi_type<long>()==MPI_LONG && ekat::get_mpi_type<float>()==MPI_FLOAT,"serial-types","");
  });
  return vm::finish();
}
#else
int main (int argc, char** argv) {
  MPI_Init(&argc,&argv); vm::init(argc,argv); vm::st().keep_going=true;
  int wr, ws; MPI_Comm_rank(MPI_COMM_WORLD,&wr); MPI_Comm_size(MPI_COMM_WORLD,&ws);
  { int bl[2]={1,1}; MPI_Aint d[2]={offsetof(Pt,a),offsetof(Pt,x)}; MPI_Datatype t[2]={MPI_INT,MPI_DOUBLE}, tmp;
    MPI_Type_create_struct(2,bl,d,t,&tmp); MPI_Type_create_resized(tmp,0,sizeof(Pt),&ekat::pt_type); MPI_Type_commit(&ekat::pt_type); }
  // arrival marks shared by the ranks of this job
  volatile long long* mark; { string f=string(getenv("VMON_SCRATCH")?getenv("VMON_SCRATCH"):"/tmp")+"/marks"; int fd=open(f.c_str(),O_RDWR|O_CREAT,0600); if (ftruncate(fd,4096)) return 2; mark=(volatile long long*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); }
  vm::sub("world",vm::ncases(2500,40000),[&](Rng& r, long long) {
    ekat::Comm c(MPI_COMM_WORLD); VM_CHECK(c.rank()==wr && c.size()==ws && c.mpi_comm()==MPI_COMM_WORLD && c.am_i_root()==(wr==c.root_rank()),"shape","");
    any_collective(c,r,ws,wr,false);
  });
  vm::sub("shape",vm::ncases(200,2000),[&](Rng& r, long long) {
    ekat::Comm self; VM_CHECK(self.size()==1 && self.rank()==0 && self.am_i_root() && self.mpi_comm()==MPI_COMM_SELF,"default","a default comm has rank "<<self.rank()<<" of "<<self.size());
    any_collective(self,r,1,0,false);
    MPI_Comm rev, nul=MPI_COMM_NULL; MPI_Comm_split(MPI_COMM_WORLD,0,ws-wr,&rev);   // ranks in reverse
    ekat::Comm c(MPI_COMM_WORLD); c.reset_mpi_comm(rev); VM_CHECK(c.mpi_comm()==rev && c.rank()==ws-1-wr && c.size()==ws && c.am_i_root()==(c.rank()==0),"reset","after a reset to the reversed group the rank is "<<c.rank()<<", should be "<<ws-1-wr);
    any_collective(c,r,ws,ws-1-wr,false); ekat::Comm d(c); any_collective(d,r,ws,ws-1-wr,false);
    VM_CHECK(vm::outcome([&]{ ekat::Comm x(nul); })==1,"null","a comm of no group was accepted");
    ekat::Comm e(MPI_COMM_WORLD); VM_CHECK(vm::outcome([&]{ e.reset_mpi_comm(nul); })==1 && e.mpi_comm()==MPI_COMM_WORLD && e.size()==ws && e.rank()==wr,"null-reset","a refused reset changed the comm"); vm::count("refused_comms",2);
    MPI_Errhandler h; MPI_Comm_get_errhandler(rev,&h); VM_CHECK(h==MPI_ERRORS_ARE_FATAL,"errhandler",""); if (h!=MPI_ERRHANDLER_NULL) MPI_Errhandler_free(&h);
    MPI_Comm_free(&rev);
  });
  vm::sub("split",vm::ncases(800,10000),[&](Rng& r, long long) {
    ekat::Comm w(MPI_COMM_WORLD); std::vector<int> grp(ws); for (int i=0;i<ws;++i) grp[i]=i; ekat::Comm cur=w; std::vector<MPI_Comm> mine; int my=wr;
    if (r.chance(0.6)) {     // start from a group that is not in the order of the world
      for (int i=ws-1;i>0;--i) std::swap(grp[i],grp[(int)r.range(0,i)]);
      my=(int)(std::find(grp.begin(),grp.end(),wr)-grp.begin()); MPI_Comm p; MPI_Comm_split(MPI_COMM_WORLD,0,my,&p); mine.push_back(p); cur.reset_mpi_comm(p); vm::count("shuffled_groups");
      VM_CHECK(cur.rank()==my && cur.size()==ws,"shuffled","rank "<<cur.rank()<<" of a shuffled group, should be "<<my);
    }
    const int levels=(int)r.range(1,3); bool out=false;
    for (int l=0;l<levels;++l) {     // the colours of all ranks are known to all
      std::vector<int> col(ws); const int nc=(int)r.range(1,4); for (auto& x : col) x=(int)r.range(0,nc-1)*(r.chance(0.2)?1000:1); const bool undef=r.chance(0.2); const int who=(int)r.range(0,ws-1);
      if (out) continue;
      if (undef && wr==who) col[who]=MPI_UNDEFINED;
      if (undef && wr!=who) col[who]=MPI_UNDEFINED;
      if (col[wr]==MPI_UNDEFINED) { VM_CHECK(vm::outcome([&]{ ekat::Comm x=cur.split(col[wr]); })==1,"split-undefined","a split without a colour gave a comm"); vm::count("refused_comms"); out=true; continue; }
      ekat::Comm s=cur.split(col[wr]); std::vector<int> g; for (int x : grp) if (col[x]==col[wr]) g.push_back(x);
      const int rk=(int)(std::find(g.begin(),g.end(),wr)-g.begin());
      VM_CHECK(s.size()==(int)g.size() && s.rank()==rk,"split","split by "<<vm::list(col)<<": rank "<<wr<<" is "<<s.rank()<<" of "<<s.size()<<", should be "<<rk<<" of "<<g.size());
      mine.push_back(s.mpi_comm()); cur=s; grp=g; my=rk; vm::count("splits");
      std::vector<long long> who_in(g.size()); const long long me=wr; cur.all_gather(&me,who_in.data(),1); for (size_t i=0;i<g.size();++i) VM_CHECK(who_in[i]==g[i],"split-members","rank "<<i<<" of the new group is "<<who_in[i]<<" of the world, should be "<<g[i]);
      Rng q(vm::mix(r.s ^ vm::mix((uint64_t)g[0]))); for (int i=0,n=(int)q.range(0,4);i<n;++i) any_collective(cur,q,(int)g.size(),my,false);   // groups act independently
    }
    for (auto it=mine.rbegin(); it!=mine.rend(); ++it) { MPI_Comm m=*it; MPI_Comm_free(&m); }
    w.barrier();
  });
  vm::sub("barrier",vm::ncases(250,3000),[&](Rng& r, long long ic) {
    ekat::Comm w(MPI_COMM_WORLD); const int late=(int)r.range(0,ws-1), us=(int)r.range(0,1500);
    if (wr==late) usleep(us);
    __atomic_store_n(&mark[wr*8],ic+1,__ATOMIC_SEQ_CST); w.barrier();
    for (int k=0;k<ws;++k) VM_CHECK(__atomic_load_n(&mark[k*8],__ATOMIC_SEQ_CST)>=ic+1,"barrier","rank "<<wr<<" left a barrier that rank "<<k<<" had not reached");
    vm::count("barriers"); w.barrier();
  });
  vm::sub("types",1,[&](Rng&, long long) {
    VM_CHECK(ekat::get_mpi_type<char>()==MPI_CHAR && ekat::get_mpi_type<short>()==MPI_SHORT && ekat::get_mpi_type<int>()==MPI_INT && ekat::get_mpi_type<long>()==MPI_LONG && ekat::get_mpi_type<long long>()==MPI_LONG_LONG && ekat::get_mpi_type<float>()==MPI_FLOAT && ekat::get_mpi_type<double>()==MPI_DOUBLE,"types","");
    auto sz=[&](MPI_Datatype t){ int s; MPI_Type_size(t,&s); return s; }; VM_CHECK(sz(ekat::get_mpi_type<bool>())==(int)sizeof(bool),"bool-size","");
  });
  const int rc=vm::finish(); MPI_Finalize(); return rc;
}
#endif
