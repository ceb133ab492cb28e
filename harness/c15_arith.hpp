#include "packmon.hpp"
#include <sstream>
template<typename T,int N> void arith (Rng& r) {
  using P=Pack<T,N>; const bool F=std::is_floating_point_v<T>; auto g=[](Rng& q){ return rv<T>(q); }; auto gz=[](Rng& q){ return nz<T>(q); };
  const P a=rp<T,N>(r,g), b=rp<T,N>(r,g), z=rp<T,N>(r,gz); const T s=rv<T>(r), sz=nz<T>(r); const string in=string(tn<T>())+"x"+std::to_string(N)+" "+show(a)+" with "+show(b)+" "+show(z)+" "+vm::str(+s)+" "+vm::str(+sz);
  lanes("add",a+b,[&](int i){ return (T)(a[i]+b[i]); },in); lanes("sub",a-b,[&](int i){ return (T)(a[i]-b[i]); },in); lanes("mul",a*b,[&](int i){ return (T)(a[i]*b[i]); },in); lanes("div",a/z,[&](int i){ return (T)(a[i]/z[i]); },in);
  lanes("add-scalar",a+s,[&](int i){ return (T)(a[i]+s); },in); lanes("sub-scalar",a-s,[&](int i){ return (T)(a[i]-s); },in); lanes("mul-scalar",a*s,[&](int i){ return (T)(a[i]*s); },in); lanes("div-scalar",a/sz,[&](int i){ return (T)(a[i]/sz); },in);
  lanes("scalar-add",s+a,[&](int i){ return (T)(s+a[i]); },in); lanes("scalar-sub",s-a,[&](int i){ return (T)(s-a[i]); },in); lanes("scalar-mul",s*a,[&](int i){ return (T)(s*a[i]); },in); lanes("scalar-div",s/z,[&](int i){ return (T)(s/z[i]); },in);
  if constexpr (!std::is_unsigned_v<T>) lanes("negate",-a,[&](int i){ return (T)(-a[i]); },in);
  { P c=a; auto& q=(c+=b); lanes("add-assign",c,[&](int i){ return (T)(a[i]+b[i]); },in); VM_CHECK(&q==&c,"assign-returns-self",""); } { P c=a; c-=b; lanes("sub-assign",c,[&](int i){ return (T)(a[i]-b[i]); },in); }
  { P c=a; c*=b; lanes("mul-assign",c,[&](int i){ return (T)(a[i]*b[i]); },in); } { P c=a; c/=z; lanes("div-assign",c,[&](int i){ return (T)(a[i]/z[i]); },in); }
  { P c=a; c+=s; lanes("add-assign-scalar",c,[&](int i){ return (T)(a[i]+s); },in); } { P c=a; c-=s; lanes("sub-assign-scalar",c,[&](int i){ return (T)(a[i]-s); },in); } { P c=a; c*=s; lanes("mul-assign-scalar",c,[&](int i){ return (T)(a[i]*s); },in); } { P c=a; c/=sz; lanes("div-assign-scalar",c,[&](int i){ return (T)(a[i]/sz); },in); }
  { P c; c=a; lanes("assign",c,[&](int i){ return a[i]; },in); P d(a); lanes("copy",d,[&](int i){ return a[i]; },in); P e(s); lanes("splat",e,[&](int){ return s; },in); e=sz; lanes("assign-scalar",e,[&](int){ return sz; },in); P f; lanes("default",f,[&](int){ return T(0); },in); P h(a); h=h; lanes("self-assign",h,[&](int i){ return a[i]; },in); h-=h; lanes("self-sub",h,[&](int i){ return (T)(a[i]-a[i]); },in); }
  auto cmp=[&](const char* k, const Mask<N>& m, auto w){ int bad=-1; for (int i=0;i<N;++i) if (m[i]!=w(i)) bad=i; VM_CHECK(bad<0,k,k<<" "<<in<<": lane "<<bad<<" is "<<!w(bad<0?0:bad)); };
  P b2=b; for (int i=0;i<N;++i) if (r.chance(0.3)) b2[i]=a[i];
  cmp("eq",a==b2,[&](int i){ return a[i]==b2[i]; }); cmp("ne",a!=b2,[&](int i){ return a[i]!=b2[i]; }); cmp("lt",a<b2,[&](int i){ return a[i]<b2[i]; }); cmp("le",a<=b2,[&](int i){ return a[i]<=b2[i]; }); cmp("gt",a>b2,[&](int i){ return a[i]>b2[i]; }); cmp("ge",a>=b2,[&](int i){ return a[i]>=b2[i]; });
  const T t=r.chance(0.5)?a[r.range(0,N-1)]:s;
  cmp("eq-scalar",a==t,[&](int i){ return a[i]==t; }); cmp("ne-scalar",a!=t,[&](int i){ return a[i]!=t; }); cmp("lt-scalar",a<t,[&](int i){ return a[i]<t; }); cmp("le-scalar",a<=t,[&](int i){ return a[i]<=t; }); cmp("gt-scalar",a>t,[&](int i){ return a[i]>t; }); cmp("ge-scalar",a>=t,[&](int i){ return a[i]>=t; });
  cmp("scalar-eq",t==a,[&](int i){ return t==a[i]; }); cmp("scalar-ne",t!=a,[&](int i){ return t!=a[i]; }); cmp("scalar-lt",t<a,[&](int i){ return t<a[i]; }); cmp("scalar-le",t<=a,[&](int i){ return t<=a[i]; }); cmp("scalar-gt",t>a,[&](int i){ return t>a[i]; }); cmp("scalar-ge",t>=a,[&](int i){ return t>=a[i]; });
  if constexpr (std::is_floating_point_v<T>) cmp("isnan",ekat::isnan(a),[&](int i){ return std::isnan(a[i]); });
  auto gf=[](Rng& q){ return rv<T>(q); }; P c=rp<T,N>(r,gf), d=rp<T,N>(r,gf); const T u=rv<T>(r);   // which operand is first matters to NaN and to zeros of both signs
  for (int i=0;i<N;++i) if (r.chance(0.2)) d[i]=c[i]; else if (r.chance(0.1)) { c[i]=T(0); d[i]=-T(0); }
  const string mi=show(c)+" with "+show(d)+" or "+vm::str(+u);
  lanes("min",ekat::min(c,d),[&](int i){ return std::min<T>(c[i],d[i]); },mi); lanes("max",ekat::max(c,d),[&](int i){ return std::max<T>(c[i],d[i]); },mi);
  lanes("min-scalar",ekat::min(c,u),[&](int i){ return std::min<T>(c[i],u); },mi); lanes("max-scalar",ekat::max(c,u),[&](int i){ return std::max<T>(c[i],u); },mi);
  lanes("scalar-min",ekat::min(u,c),[&](int i){ return std::min<T>(u,c[i]); },mi); lanes("scalar-max",ekat::max(u,c),[&](int i){ return std::max<T>(u,c[i]); },mi);
  auto gw=[](Rng& q){ return whole<T>(q); }; const P x=rp<T,N>(r,gw), y=rp<T,N>(r,gw); const T al=(T)r.range(0,3), be=(T)r.range(0,3);
  lanes("square",ekat::square(x),[&](int i){ return (T)(x[i]*x[i]); },in); lanes("cube",ekat::cube(x),[&](int i){ return (T)(x[i]*x[i]*x[i]); },in);
  { P w=y; auto& q=w.update(x,al,be); lanes0("update",w,[&](int i){ return (T)(be*y[i]+al*x[i]); },in); VM_CHECK(&q==&w,"update-returns-self",""); }
  { P w=c; w.update(x); lanes0("update-default",w,[&](int i){ return x[i]; },in+" on "+show(c)); w=c; w.update(d); lanes("update-as-assign",w,[&](int i){ return d[i]; },mi); } { P w=y; w.update(x,al); lanes0("update-alpha",w,[&](int i){ return (T)(al*x[i]); },in); } { P w=y; w.add(x,al); lanes0("add-alpha",w,[&](int i){ return (T)(y[i]+al*x[i]); },in); } { P w=y; w.add(x); lanes0("add-default",w,[&](int i){ return (T)(y[i]+x[i]); },in); } { P w=y; w.update(w,al,be); lanes0("update-self",w,[&](int i){ return (T)(be*y[i]+al*y[i]); },in); }
  lanes("range",ekat::range<P>(u),[&](int i){ return (T)(u+i); },in); const int ns=(int)r.range(0,200); VM_CHECK(ekat::npack<P>(ns)==(ns+N-1)/N,"npack",ns<<" scalars in packs of "<<N);
  std::ostringstream o; o << x; string w; for (int i=0;i<N;++i) w+=vm::str(+x[i])+" "; VM_CHECK(o.str()==w,"print","'"<<o.str()<<"', should be '"<<w<<"'");
  static_assert(sizeof(P)==N*sizeof(T)); VM_CHECK(&x[N-1]-&x[0]==N-1,"contiguous","");
  vm::count("packs"); if (F) vm::count("floating_packs"); vm::nontrivial(in); vm::sample(in);
}
