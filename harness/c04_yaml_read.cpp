// C04: documents generated together with the typed values they denote, parsed by the real reader.
#include "plist_model.hpp"
#include "ekat_yaml.hpp"
#include <climits>
#include <fstream>
using vm::Rng;

static std::string scratch () { const char* s = getenv("VMON_SCRATCH"); return s ? s : "/tmp"; }
static const char* WORDS[] = {"alpha","beta two","x","lon_lat","a-b","path/to/file.nc","v1.2.3","12abc","1.5m","truely","nope","e5","hello world again","C_p","1 2","--5","-","5-","1e","0x1F","yes","off","1_000","..","-.e1","- "};

static std::string mixed_case (Rng& r, std::string s) { int m=(int)r.range(0,3); for (size_t i=0;i<s.size();++i) if (m==1||(m==2&&i==0)||(m==3&&r.chance(0.5))) s[i]=(char)toupper(s[i]); return s; }
static std::string bool_txt (Rng& r, bool b) { return mixed_case(r,b?"true":"false"); }
static std::string int_txt (Rng& r, int& v) {
  switch (r.range(0,3)) { case 0: v=(int)r.range(-9,99); break; case 1: v=(int)r.range(INT_MIN,INT_MAX); break; case 2: v = r.pick(std::vector<int>{INT_MAX,INT_MIN,INT_MAX-1,INT_MIN+1,0,-1}); break; default: v=(int)r.range(-100000,100000); }
  std::string s = std::to_string(v);
  if (r.chance(0.1)) s = (v<0 ? "-00"+s.substr(1) : "00"+s);
  if (v>=0 && r.chance(0.1)) { s = "+"+s; vm::count("plus_signs"); }
  return s;
}
static std::string big_txt (Rng& r) {
  static const char* B[] = {"2147483648","-2147483649","3000000000","9223372036854775807","9223372036854775808","123456789012345678901234567890","-99999999999"};
  return r.pick(B);
}
static std::string dbl_txt (Rng& r) {
  char b[64];
  switch (r.range(0,7)) {
    case 0: snprintf(b,64,"%.17e",r.real(-1,1)*std::pow(10.0,(double)r.range(-300,300))); break;
    case 1: snprintf(b,64,"%.3f",r.real(-1000,1000)); break;
    case 2: snprintf(b,64,"%lld.",(long long)r.range(-50,50)); break;
    case 3: snprintf(b,64,"%s.%03lld",r.chance(0.5)?"-":"",(long long)r.range(0,999)); break;
    case 4: snprintf(b,64,"%llde%lld",(long long)r.range(-99,99),(long long)r.range(-30,30)); break;
    case 5: snprintf(b,64,"%lldE+%02lld",(long long)r.range(1,99),(long long)r.range(0,30)); break;
    case 6: snprintf(b,64,"%.5fe-%lld",r.real(1,9),(long long)r.range(300,323)); break;   // some subnormal
    default: return big_txt(r);
  }
  if (b[0]!='-' && r.chance(0.1)) return std::string("+")+b;
  return b;
}
static std::string quoted (Rng& r, const std::string& s) {
  if (r.chance(0.5)) { std::string o="'"; for (char c : s) { o+=c; if (c=='\'') o+='\''; } return o+"'"; }
  std::string o="\""; for (char c : s) { char x[16]; if (c>0 && r.chance(0.05)) { snprintf(x,16,r.chance(0.5)?"\\x%02x":"\\u%04x",(unsigned)(unsigned char)c); o+=x; vm::count("escapes"); } else if (c=='\n') o+="\\n"; else if (c=='\t') o+="\\t"; else { if (c=='"'||c=='\\') o+='\\'; o+=c; } } return o+"\"";
}
static bool plain_ok (const std::string& s) { return s!="-" && s!="- " && s!=".." && !s.empty() ; }
static bool numeric_lookalike (const std::string& s) {
  char* e; strtod(s.c_str(),&e); (void)e;
  std::string l=s; for (auto& c : l) c=(char)tolower(c);
  if (l=="true"||l=="false") return true;
  std::istringstream is(s); double d; is>>d; return !is.fail() && is.eof();
}
static std::string word (Rng& r, std::string& val, bool& must_quote) {
  must_quote=false;
  switch (r.range(0,3)) {
    case 0: case 1: val = r.pick(WORDS); must_quote = !plain_ok(val); break;
    case 2: { std::vector<std::string> q={"5","-17","true","FALSE","1.5","1e10","null","~",""," padded ","a: b","# no comment","[1, 2]","{a: 1}","it's","tab\there","!x","&y","*z","%d","@q","a, b","3000000000"}; val=r.pick(q); must_quote=true; break; }
    default: { int n=(int)r.range(1,60); val.clear(); for (int i=0;i<n;++i) val += (char)r.range(97,122); if (val=="true"||val=="false"||val=="null"||val=="inf"||val=="nan") val="w"; }
  }
  if (val.find('\t')!=std::string::npos) return quoted(r,val);
  return must_quote || r.chance(0.3) ? quoted(r,val) : val;
}
// one scalar: text and value
static std::string scalar (Rng& r, Val& v) {
  int i; std::string s, t; bool b;
  switch (r.range(0,9)) {
    case 0: b=r.chance(0.5); v=b; vm::count("scalar_bool"); return bool_txt(r,b);
    case 1: s=int_txt(r,i); v=i; vm::count("scalar_int"); return s;
    case 2: s=dbl_txt(r); v=strtod(s.c_str(),nullptr); vm::count("scalar_double"); return s;
    case 3: case 4: t=word(r,s,b); v=s; vm::count("scalar_string"); return t;
    case 5: s=int_txt(r,i); v=i; vm::count("tagged"); return "!!int "+s;
    case 6: s = r.chance(0.5) ? dbl_txt(r) : int_txt(r,i); v=strtod(s.c_str(),nullptr); vm::count("tagged"); return "!!float "+s;
    case 7: b=r.chance(0.5); v=b; vm::count("tagged"); return "!!bool "+bool_txt(r,b);
    case 8: s = r.chance(0.3) ? bool_txt(r,true) : r.chance(0.5) ? dbl_txt(r) : int_txt(r,i); v=s; vm::count("tagged"); return "!!str "+s;
    default: s=int_txt(r,i); v=s; vm::count("quoted_number"); return quoted(r,s);
  }
}
static std::vector<std::string> seq (Rng& r, Val& v) {
  std::vector<std::string> t; int n=(int)r.range(1,7); bool b; int i; std::string s;
  switch (r.range(0,6)) {
    case 0: { std::vector<char> x; for (int k=0;k<n;++k) { b=r.chance(0.5); x.push_back(b); t.push_back(bool_txt(r,b)); } v=x; vm::count("seq_bool"); break; }
    case 1: { std::vector<int> x; for (int k=0;k<n;++k) { s=int_txt(r,i); x.push_back(i); t.push_back(s); } v=x; vm::count("seq_int"); break; }
    case 2: { std::vector<double> x; for (int k=0;k<n;++k) { s=dbl_txt(r); x.push_back(strtod(s.c_str(),nullptr)); t.push_back(s); } v=x; vm::count("seq_double"); break; }
    case 3: { std::vector<double> x; int at=(int)r.range(0,n-1); for (int k=0;k<n;++k) { s = k==at ? dbl_txt(r) : int_txt(r,i); x.push_back(strtod(s.c_str(),nullptr)); t.push_back(s); } v=x; vm::count("seq_int_and_double"); break; }
    case 4: { std::vector<std::string> x; for (int k=0;k<n;++k) { t.push_back(quoted(r,s=int_txt(r,i))); x.push_back(s); } v=x; vm::count("seq_quoted_numbers"); break; }
    case 5: v=Empty(); vm::count("seq_empty"); break;
    default: { std::vector<std::string> x; bool nonnum=false; for (int k=0;k<n;++k) { std::string w=word(r,s,b); bool q = w[0]=='"'||w[0]=='\''; if (q||!numeric_lookalike(s)) nonnum=true;
                 if (!q && s.find(',')!=std::string::npos) w=quoted(r,s); t.push_back(w); x.push_back(s); }
               if (!nonnum) { t[0]=quoted(r,x[0]); } v=x; vm::count("seq_string"); }
  }
  return t;
}
struct Doc { Node n; std::string text; };
static std::string key_txt (Rng& r, const std::string& k) { return r.chance(0.2) || k.empty() ? quoted(r,k) : k; }
static std::string new_key (Rng& r, const Node& n) {
  static const char* K[] = {"a","b","key","Long Key","under_score","num1","5","true","x y z","grid","Output","é","-k"};
  for (;;) { std::string k = r.pick(K); if (r.chance(0.5)) k += std::to_string(r.range(0,99)); if (!n.p.count(k) && !n.s.count(k)) return k; }
}
static std::string comment (Rng& r) { return r.chance(0.15) ? "   # a comment: [1, 2] {x}" : ""; }
static std::string flow_map (Rng& r, Node& n, int depth) {
  std::string o="{"; int m=(int)r.range(0,3);
  for (int i=0;i<m;++i) {
    if (i) o+=", ";
    std::string k=new_key(r,n); o += key_txt(r,k)+": ";
    if (depth>0 && r.chance(0.25)) { n.s[k].name=k; o+=flow_map(r,n.s[k],depth-1); }
    else if (r.chance(0.3)) { Val v; auto t=seq(r,v); n.p[k]=v; o+="["+vm::join(t.begin(),t.end(),", ")+"]"; }
    else { Val v; std::string t; do { t=scalar(r,v); } while (t.find_first_of(",[]{}")!=std::string::npos && t[0]!='"' && t[0]!='\''); n.p[k]=v; o+=t; }
  }
  return o+"}";
}
static void block_map (Rng& r, Node& n, std::string& o, int ind, int depth, int least) {
  int m=(int)r.range(least,6); const std::string tab(ind,' ');
  for (int i=0;i<m;++i) {
    if (r.chance(0.1)) o += tab+"# comment line\n";
    if (r.chance(0.1)) o += "\n";
    std::string k=new_key(r,n); std::string kt = k=="-k" ? quoted(r,k) : key_txt(r,k);
    if (r.chance(0.03)) { o += tab+"nothing "+std::to_string(i)+":"+r.pick(std::vector<std::string>{""," ~"," null"," Null"," NULL"})+comment(r)+"\n"; vm::count("nulls"); }   // a null is no parameter
    double c=r.real01();
    if (depth>0 && c<0.2) { n.s[k].name=k; o += tab+kt+":"+comment(r)+"\n"; block_map(r,n.s[k],o,ind+(int)r.range(1,4),depth-1,1); }
    else if (depth>0 && c<0.3) { n.s[k].name=k; o += tab+kt+": "+flow_map(r,n.s[k],depth-1)+"\n"; }
    else if (c<0.55) { Val v; auto t=seq(r,v); n.p[k]=v;
      if (t.empty()||r.chance(0.6)) o += tab+kt+": ["+vm::join(t.begin(),t.end(),r.chance(0.5)?", ":" , ")+"]"+comment(r)+"\n";
      else { o += tab+kt+":\n"; int e=ind+(int)r.range(0,3); for (auto& x : t) o += std::string(e,' ')+"- "+x+comment(r)+"\n"; vm::count("block_sequences"); } }
    else if (c<0.57) { // a folded block: lines are joined, an empty line is a line break
      std::string w; int nl=(int)r.range(1,4); o+=tab+kt+": >"+(nl%2?"-":"")+"\n";
      for (int q=0;q<nl;++q) { const bool gap = q>0 && r.chance(0.3); if (gap) o+="\n"; if (q) w+= gap ? "\n" : " "; std::string l=r.pick(std::vector<std::string>{"one","two words","a: b","# three","- four","5"}); o+=tab+"  "+l+"\n"; w+=l; }
      n.p[k]= nl%2 ? w : w+"\n"; vm::count("folded_blocks"); }
    else if (c<0.6) { std::string w; int nl=(int)r.range(1,4); o+=tab+kt+": |\n"; for (int q=0;q<nl;++q) { std::string l=r.pick(WORDS); o+=tab+"   "+l+"\n"; w+=l+"\n"; } n.p[k]=w; vm::count("literal_blocks"); }
    else { Val v; std::string t=scalar(r,v); n.p[k]=v; o += tab+kt+": "+t+comment(r)+"\n"; }
  }
}
static void write_file (const std::string& f, const std::string& t) { std::ofstream o(f); o<<t; }

int main (int argc, char** argv) {
  vm::init(argc,argv);
  const std::string f = scratch()+"/doc.yaml";
  vm::sub("documents",vm::ncases(3000,100000),[&](Rng& r, long long) {
    Node n; std::string t;
    if (r.chance(0.3)) t += "%YAML 1.2\n---\n"; else if (r.chance(0.3)) t += "---\n";
    const bool flow = r.chance(0.1);
    if (flow) t += flow_map(r,n,3)+"\n"; else block_map(r,n,t,0,3,1);
    // an alias denotes the value its anchor is on, of whatever kind
    if (!flow && r.chance(0.3)) {
      const int m=(int)r.range(1,3);
      for (int i=0;i<m;++i) {
        const std::string a="anchor "+std::to_string(i), al="alias "+std::to_string(i), sub="alias sub "+std::to_string(i), nm="A"+std::to_string(i);
        const int kind=(int)r.range(0,2);
        if (kind==0) { Val v; std::string x; do { x=scalar(r,v); } while (x.find('!')==0); t+=a+": &"+nm+" "+x+"\n"; n.p[a]=n.p[al]=v; n.s[sub].name=sub; n.s[sub].p["d"]=v; }
        else if (kind==1) { Val v; auto x=seq(r,v); t+=a+": &"+nm+" ["+vm::join(x.begin(),x.end(),", ")+"]\n"; n.p[a]=n.p[al]=v; n.s[sub].name=sub; n.s[sub].p["d"]=v; }
        else { Node c; c.name=a; t+=a+": &"+nm+" "+flow_map(r,c,2)+"\n"; n.s[a]=c; c.name=al; n.s[al]=c; n.s[sub].name=sub; c.name="d"; n.s[sub].s["d"]=c; }
        t+=al+": *"+nm+"\n"+sub+":\n  d: *"+nm+"\n"; vm::count("aliases");
      }
    }
    if (r.chance(0.2)) t += "...\n";
    if (r.chance(0.1)) { std::string c; for (char x : t) { if (x=='\n') c+='\r'; c+=x; } t=c; vm::count("crlf_documents"); }
    if (r.chance(0.05)) { t="\xef\xbb\xbf"+t; vm::count("byte_order_marks"); }
    write_file(f,t);
    std::string msg; PL p; int o;
    if (r.chance(0.5)) {
      // into an existing list, which keeps its name and takes the content of the file
      PL q("my list"); if (r.chance(0.5)) { q.set("stale",3); q.sublist("stale sub").set("a",1); vm::count("into_list_with_content"); }
      n.name="my list"; o = vm::outcome([&]{ ekat::parse_yaml_file(f,q); },&msg);
      if (o==0) p = q;
    } else o = vm::outcome([&]{ p = ekat::parse_yaml_file(f); },&msg);
    VM_CHECK(o==0,"parse-throws","a valid document is refused: "<<msg<<"\n"<<t);
    if (o==0) check_tree(p,n,"document:\n"+t+"\n","read",true);
    vm::nontrivial(tree_hash(n)); vm::sample(t);
    vm::count("documents"); vm::count_max("max_nodes",(long long)tree_size(n));
  });
  vm::sub("refused",vm::ncases(600,6000),[&](Rng& r, long long) {
    Node n; std::string t; block_map(r,n,t,0,2,1);
    std::string bad;
    switch (r.range(0,15)) {
      case 10: bad = t+"nested_seq: [[1, 2], [3]]\n"; break;
      case 11: bad = t+"seq_of_maps: [{a: 1}, {a: 2}]\n"; break;
      case 12: bad = t+"seq_of_maps:\n  - a: 1\n    b: 2\n  - a: 3\n"; break;
      case 13: bad = t+"no_anchor: *nowhere\n"; break;
      case 14: bad = t+"bytes: !!binary aGVsbG8=\n"; break;
      case 15: bad = r.chance(0.5) ? "" : "# nothing but a comment\n"; break;
      case 0: bad = t+"bad_tag1: !!int abc\n"; break;
      case 1: bad = t+"bad_tag2: !!bool 5\n"; break;
      case 2: bad = t+"bad_tag3: !!float word\n"; break;
      case 3: bad = t+"bad_tag4: !custom 5\n"; break;
      case 4: bad = t+"unclosed: [1, 2\n"; break;
      case 5: bad = "- 1\n- 2\n"; break;
      case 6: bad = "just a scalar\n"; break;
      case 7: bad = t+"unclosed: {a: 1\n"; break;
      case 8: bad = t+"bad_tag5: !!int 1.5\n"; break;
      default: bad = t+"nested:\n  deep:\n    x: !!int 99999999999\n";
    }
    write_file(f,bad);
    PL p("keep"); p.set("old",7); p.sublist("s").set("z",1.5);
    Node k; k.name="keep"; k.p["old"]=7; k.s["s"].name="s"; k.s["s"].p["z"]=1.5;
    std::string file = f;
    if (r.chance(0.1)) { file = scratch()+"/does/not/exist.yaml"; vm::count("missing_files"); }
    std::string msg; int o = vm::outcome([&]{ ekat::parse_yaml_file(file,p); },&msg);
    VM_CHECK(o==1,"refuse","not refused (outcome "<<o<<"):\n"<<bad);
    check_tree(p,k,"after a refused file:\n"+bad,"refuse-keeps-list");
    vm::nontrivial(bad); vm::count("refused_documents");
  });
  return vm::finish();
}
