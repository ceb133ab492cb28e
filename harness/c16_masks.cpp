// C16: masked operations act in exactly the lanes whose mask is true and leave every other lane alone
#include "packmon.hpp"
#include "ekat_where.hpp"
#include <sstream>
template<int N> void masks (Rng& r) {
  Mask<N> a=rmask<N>(r), b=rmask<N>(r); const bool s=r.range(0,1); bool av[N], bv[N]; int ca=0, same=1; for (int i=0;i<N;++i) { av[i]=a[i]; bv[i]=b[i]; ca+=av[i]; same=same&&av[i]==bv[i]; }
  auto sh=[&]{ string o; for (int i=0;i<N;++i) o+=av[i]?'1':'0'; o+=" "; for (int i=0;i<N;++i) o+=bv[i]?'1':'0'; return o; };
  auto cmp=[&](const char* k, const Mask<N>& m, auto w){ bool ok=true; for (int i=0;i<N;++i) ok=ok&&m[i]==w(i); VM_CHECK(ok,k,k<<" of masks "<<sh()); };
  cmp("and",a&&b,[&](int i){ return av[i]&&bv[i]; }); cmp("or",a||b,[&](int i){ return av[i]||bv[i]; }); cmp("not",!a,[&](int i){ return !av[i]; }); cmp("and-bool",a&&s,[&](int i){ return av[i]&&s; }); cmp("or-bool",a||s,[&](int i){ return av[i]||s; }); cmp("splat",Mask<N>(s),[&](int){ return s; });
  VM_CHECK(a.any()==(ca>0),"any",sh()); VM_CHECK(a.all()==(ca==N),"all",sh()); VM_CHECK(a.none()==(ca==0),"none",sh()); VM_CHECK((a==b)==(bool)same && a==a,"mask-eq",sh());
  int k=(int)r.range(0,N-1); Mask<N> c=a; c.set(k,!av[k]); cmp("copy",a,[&](int i){ return av[i]; }); cmp("set",c,[&](int i){ return i==k?!av[i]:av[i]; }); VM_CHECK(!(c==a),"set-eq",sh());
  std::vector<int> seen, want, nv; ekat_masked_loop_no_vec(a,i) nv.push_back(i); for (int i=0;i<N;++i) if (av[i]) want.push_back(i); int hit[N]={0}; ekat_masked_loop(a,i) hit[i]+=1; for (int i=0;i<N;++i) if (hit[i]) seen.push_back(i); bool once=true; for (int h : hit) once=once&&h<2;
  VM_CHECK(seen==want && nv==want && once,"masked-loop",sh()<<" visited "<<vm::list(seen)<<" / "<<vm::list(nv));
  std::ostringstream o; o << a; string w; for (bool x : av) w+=x?"1 ":"0 "; VM_CHECK(o.str()==w,"mask-print",o.str()); vm::count("masks"); if (ca>0&&ca<N) vm::count("partial_masks"); vm::nontrivial(sh());
}
template<typename T,typename S,int N> void masked (Rng& r) {
  using P=Pack<T,N>; using Q=Pack<S,N>; auto gw=[](Rng& q){ return whole<T>(q); }; auto gs=[](Rng& q){ return fine<S>(q); };
  const Mask<N> m=rmask<N>(r); const P a=rp<T,N>(r,gw), b=rp<T,N>(r,gw); const Q x=rp<S,N>(r,gs), y=rp<S,N>(r,gs); const T u=whole<T>(r), v=whole<T>(r); const S z=gs(r); const T al=(T)r.range(0,3), be=(T)r.range(0,3);
  string in="["; for (int i=0;i<N;++i) in+=m[i]?'1':'0'; in+="] "+show(a)+show(b)+show(x)+vm::str(+u)+" "+vm::str(+z);
  { P p=a; auto& q=p.set(m,u); lanes("set-scalar",p,[&](int i){ return m[i]?u:a[i]; },in); VM_CHECK(&q==&p,"set-self",""); } { P p=a; p.set(m,b); lanes("set-pack",p,[&](int i){ return m[i]?b[i]:a[i]; },in); } { P p=a; p.set(m,x); lanes("set-other-pack",p,[&](int i){ return m[i]?(T)x[i]:a[i]; },in); }
  { P p=a; p.set(m,u,v); lanes("set-scalars",p,[&](int i){ return m[i]?u:v; },in); } { P p=a; p.set(m,b,x); lanes("set-packs",p,[&](int i){ return m[i]?b[i]:(T)x[i]; },in); } { P p=a; p.set(m,p,b); lanes("set-self-pack",p,[&](int i){ return m[i]?a[i]:b[i]; },in); }
  lanes("construct-scalar",P(m,u),[&](int i){ return m[i]?u:T(0); },in); lanes("construct-scalars",P(m,u,v),[&](int i){ return m[i]?u:v; },in); lanes("construct-pack",P(m,b),[&](int i){ return m[i]?b[i]:T(0); },in); lanes("construct-packs",P(m,b,x),[&](int i){ return m[i]?b[i]:(T)x[i]; },in);
  { P p=a; auto& q=p.update(m,b,al,be); lanes0("update",p,[&](int i){ return m[i]?(T)(be*a[i]+al*b[i]):a[i]; },in); VM_CHECK(&q==&p,"update-self",""); } { P p=a; p.update(m,x,(T)2,(T)3); lanes0("update-other",p,[&](int i){ return m[i]?(T)(3*a[i]+2*x[i]):a[i]; },in); } { P p=a; p.update(m,b,x,al,be); lanes0("update-two",p,[&](int i){ return m[i]?(T)(be*a[i]+al*b[i]):(T)(be*a[i]+al*x[i]); },in); }
  { P p=a; p.update(m,b); lanes("update-default",p,[&](int i){ return m[i]?b[i]:a[i]; },in); } { const P odd=rp<T,N>(r,[](Rng& q){ return rv<T>(q); }), src=rp<T,N>(r,[](Rng& q){ return rv<T>(q); }); P p=odd; p.update(m,src); lanes("update-as-set",p,[&](int i){ return m[i]?src[i]:odd[i]; },in+show(odd)+show(src)); p=odd; p.update(m,src,b); lanes("update-as-set-two",p,[&](int i){ return m[i]?src[i]:b[i]; },in+show(odd)+show(src)); } { P p=a; p.add(m,b); lanes0("add",p,[&](int i){ return m[i]?(T)(a[i]+b[i]):a[i]; },in); } { P p=a; p.add(m,b,al); lanes0("add-alpha",p,[&](int i){ return m[i]?(T)(a[i]+al*b[i]):a[i]; },in); } { P p=a; p.add(m,b,x,al); lanes0("add-two",p,[&](int i){ return m[i]?(T)(a[i]+al*b[i]):(T)(a[i]+al*x[i]); },in); }
  auto W=[&](const char* k, auto act, auto want){ P p=a; auto& q=act(ekat::where(m,p)); lanes(k,p,[&](int i){ return m[i]?(T)want(i):a[i]; },in); VM_CHECK(&q==&p,"where-returns-value",k); };
  W("where=scalar",[&](auto w)->P&{ return w=z; },[&](int){ return z; }); W("where+=scalar",[&](auto w)->P&{ return w+=z; },[&](int i){ return a[i]+z; }); W("where-=scalar",[&](auto w)->P&{ return w-=z; },[&](int i){ return a[i]-z; }); W("where*=scalar",[&](auto w)->P&{ return w*=z; },[&](int i){ return a[i]*z; }); W("where/=scalar",[&](auto w)->P&{ return w/=z; },[&](int i){ return a[i]/z; });
  W("where=pack",[&](auto w)->P&{ return w=x; },[&](int i){ return x[i]; }); W("where+=pack",[&](auto w)->P&{ return w+=x; },[&](int i){ return a[i]+x[i]; }); W("where-=pack",[&](auto w)->P&{ return w-=x; },[&](int i){ return a[i]-x[i]; }); W("where*=pack",[&](auto w)->P&{ return w*=x; },[&](int i){ return a[i]*x[i]; }); W("where/=pack",[&](auto w)->P&{ return w/=x; },[&](int i){ return a[i]/x[i]; });
  { P p=a; auto w=ekat::where(m,p); VM_CHECK(w.any()==m.any() && w.all()==m.all() && w.none()==m.none() && &w.value()==&p && w.mask()==m,"where-state",in); const T e=whole<T>(r);
    T mx=e, mn=e; for (int i=0;i<N;++i) if (m[i]) { mx=std::max(mx,a[i]); mn=std::min(mn,a[i]); }
    VM_CHECK(w.max(e)==mx && ekat::max(m,e,a)==mx,"masked-max",in<<" from "<<+e<<" is "<<+ekat::max(m,e,a)<<" / "<<+w.max(e)<<", should be "<<+mx); VM_CHECK(w.min(e)==mn && ekat::min(m,e,a)==mn,"masked-min",in<<" from "<<+e<<" is "<<+ekat::min(m,e,a)<<", should be "<<+mn); VM_CHECK(ekat::max(w,e)==mx && ekat::min(w,e)==mn,"where-minmax",in);
    P one=a; for (int i=0;i<N;++i) one[i]=(T)(1<<r.range(0,1)); auto o=ekat::where(m,one); T s1=e,s2=e,s3=e,s4=(T)256, t1=e,t2=e,t3=e,t4=(T)256; for (int i=0;i<N;++i) if (m[i]) { t1+=a[i]; t2-=a[i]; t3*=one[i]; t4/=one[i]; }
    s1+=w; s2-=w; s3*=o; s4/=o; VM_CHECK(s1==t1,"scalar+=where",in<<": "<<+s1<<", should be "<<+t1); VM_CHECK(s2==t2,"scalar-=where",in<<": "<<+s2); VM_CHECK(s3==t3,"scalar*=where",in<<": "<<+s3); VM_CHECK(s4==t4,"scalar/=where",in<<": "<<+s4); lanes("where-reads-only",p,[&](int i){ return a[i]; },in); }
  vm::count("masked_packs"); vm::nontrivial(in); vm::sample(in);
}
template<typename T,typename S> void scalar_where (Rng& r) {
  const bool m=r.range(0,1); const T a=whole<T>(r); const S z=fine<S>(r); const T e=whole<T>(r); const string in=string(tn<T>())+" "+vm::str(+a)+" with "+vm::str(+z)+(m?" (on)":" (off)");
  auto W=[&](const char* k, auto act, T want){ T p=a; auto& q=act(ekat::where(m,p)); VM_CHECK(p==(m?want:a),k,in<<" gives "<<+p); VM_CHECK(&q==&p,"where-returns-value",k); };
  W("s-where=",[&](auto w)->T&{ return w=z; },(T)z); W("s-where+=",[&](auto w)->T&{ return w+=z; },(T)(a+z)); W("s-where-=",[&](auto w)->T&{ return w-=z; },(T)(a-z)); W("s-where*=",[&](auto w)->T&{ return w*=z; },(T)(a*z)); W("s-where/=",[&](auto w)->T&{ return w/=z; },(T)(a/z));
  T p=a; auto w=ekat::where(m,p); VM_CHECK(w.any()==m && w.all()==m && w.none()==!m && &w.value()==&p && w.mask()==m,"s-where-state",in); VM_CHECK(w.max(e)==(m?std::max(e,a):e) && ekat::max(w,e)==w.max(e),"s-where-max",in); VM_CHECK(w.min(e)==(m?std::min(e,a):e) && ekat::min(w,e)==w.min(e),"s-where-min",in);
  T s=e; s+=w; VM_CHECK(s==(m?(T)(e+a):e),"s+=where",in); s=e; s-=w; VM_CHECK(s==(m?(T)(e-a):e),"s-=where",in); s=e; s*=w; VM_CHECK(s==(m?(T)(e*a):e),"s*=where",in); if (a!=0) { s=e; s/=w; VM_CHECK(s==(m?(T)(e/a):e),"s/=where",in); } vm::count("scalar_wheres"); vm::nontrivial(in);
}
int main (int argc, char** argv) {
  vm::init(argc,argv);
  vm::sub("masks",vm::ncases(6000,200000),[&](Rng& r, long long ic) { switch (ic%5) { case 0: masks<1>(r); break; case 1: masks<2>(r); break; case 2: masks<4>(r); break; case 3: masks<8>(r); break; default: masks<16>(r); } });
  vm::sub("masked",vm::ncases(5000,150000),[&](Rng& r, long long ic) { switch (ic%7) { case 5: masked<float,double,4>(r); break; case 6: masked<int,double,8>(r); break; case 0: masked<double,double,8>(r); break; case 1: masked<double,int,4>(r); break; case 2: masked<float,float,16>(r); break; case 3: masked<int,int,8>(r); break; default: masked<double,double,1>(r); } });
  vm::sub("scalar_where",vm::ncases(4000,100000),[&](Rng& r, long long ic) { switch (ic%5) { case 3: scalar_where<float,double>(r); break; case 4: scalar_where<int,double>(r); break; case 0: scalar_where<double,double>(r); break; case 1: scalar_where<int,int>(r); break; default: scalar_where<float,int>(r); } });
  return vm::finish();
}
