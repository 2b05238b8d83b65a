// Configuration files: what a value written in an .ini file is read as, and what is written back
#include "dy.h"
#include "scratch.h"
#include "utils/config/ConfigMap.h"
#include "enums.h"
#include <cstring>
#include <cfloat>
#include <climits>
using namespace dy;
struct Bad{};
/// C-style decimal literals, by hand
static bool ws(char c){ return c==' '||c=='\t'; }
static bool lex_int(const std::string& s,bool& neg,std::string& dig){ size_t i=0; while(i<s.size()&&ws(s[i])) i++; neg=false; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) neg=s[i++]=='-'; dig.clear(); while(i<s.size()&&isdigit(s[i])) dig+=s[i++]; return i==s.size()&&!dig.empty(); }
template<class T> static bool want_int(const std::string& s,T& v){ bool neg; std::string d; if(!lex_int(s,neg,d)) return false; __int128 x=0; for(char c : d){ x=x*10+(c-'0'); if(x>(__int128)1<<70) return false; } if(neg) x=-x; if(neg && x==0 && std::is_unsigned_v<T>) throw Bad(); if(x<(__int128)std::numeric_limits<T>::min()||x>(__int128)std::numeric_limits<T>::max()) return false; v=(T)x; return true; }
template<class T> static bool want_real(const std::string& s,T& v){ size_t i=0; while(i<s.size()&&ws(s[i])) i++; size_t b=i; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) i++; int n=0; while(i<s.size()&&isdigit(s[i])) i++,n++; if(i<s.size()&&s[i]=='.'){ i++; while(i<s.size()&&isdigit(s[i])) i++,n++; } if(!n) return false; if(i<s.size()&&(s[i]=='e'||s[i]=='E')){ i++; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) i++; int m=0; while(i<s.size()&&isdigit(s[i])) i++,m++; if(!m) return false; } if(i!=s.size()) return false; std::string t=s.substr(b); v= sizeof(T)==4? (T)strtof(t.c_str(),nullptr) : (T)strtod(t.c_str(),nullptr); return std::isfinite(v); }
static bool want_bool(const std::string& s,bool& v){ for(auto t : {"1","yes","true","on"}) if(s==t){ v=true; return true; } for(auto t : {"0","no","false","off"}) if(s==t){ v=false; return true; } return false; }
template<class T> static bool want(const std::string& s,T& v){ if constexpr(std::is_same_v<T,bool>) return want_bool(s,v); else if constexpr(std::is_floating_point_v<T>) return want_real(s,v); else if constexpr(std::is_same_v<T,std::string>){ v=s; return true; } else return want_int(s,v); }
static std::string trim(std::string s){ while(!s.empty()&&isspace((unsigned char)s.back())) s.pop_back(); size_t i=0; while(i<s.size()&&isspace((unsigned char)s[i])) i++; return s.substr(i); }
template<class T> static std::string show(const T& v){ std::ostringstream o; o<<std::setprecision(17)<<v; return o.str(); }
template<class T> static std::string one(ConfigMap& m,const std::string& sec,const std::string& key,const std::string& text){
  T w{}; bool ok; try{ ok=want<T>(text,w); } catch(Bad){ return ""; } bool got=true; T v{}; try{ v=m.getValue<T>(sec,key); } catch(const std::exception&){ got=false; }
  if(ok&&!got) return mc::cat("`",text,"` is refused"); if(!ok&&got) return mc::cat("`",text,"` is accepted and read as ",show(v)); if(ok&&std::memcmp(&v,&w,sizeof(T))&&!(v==w)) return mc::cat("`",text,"` is read as ",show(v),", not ",show(w)); return ""; }
template<class T> static std::string list(ConfigMap& m,const std::string& sec,const std::string& key,const std::string& text){
  std::vector<T> w; bool ok=true, fuzzy=false; std::string tok; std::istringstream ss(text); while(std::getline(ss,tok,',')){ if(tok!=trim(tok)) fuzzy=true; T x{}; if(!want<T>(trim(tok),x)) ok=false; w.push_back(x); } bool got=true; std::vector<T> v; try{ v=m.getValue<std::vector<T>>(sec,key); } catch(const std::exception&){ got=false; }
  if(ok&&!got&&!fuzzy) return mc::cat("list `",text,"` is refused"); if(!ok&&got) return mc::cat("list `",text,"` is accepted"); if(ok&&got&&v!=w) return mc::cat("list `",text,"` is read as ",Impl::to_string(v)); return ""; }
/// the value written by a default, read back from the written file
template<class T> static std::string dflt(const T& d){ ConfigMap m(""); T a=m.getValue<T>("Sec","Key",d); if(!(a==d)) return mc::cat("default ",Impl::to_string(d)," returns ",Impl::to_string(a)); std::ostringstream o; m.output(o); ConfigMap m2(o.str()); if(!m2.hasValue("sec","key")) return mc::cat("default ",Impl::to_string(d)," is not written"); T b=m2.getValue<T>("sec","key"); if(!(b==d)) return mc::cat("default ",Impl::to_string(d)," is read back as ",Impl::to_string(b)); return ""; }

int main(int argc,char** argv){
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); scratch(); bool T=c.thorough; auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };
    // 1. every string over an alphabet, as every type
    { const std::string A="0129-+.e ,x"; int maxlen=T?7:5; std::string s; size_t nA=A.size();
      for(int len=0;len<=maxlen;len++){ uint64_t N=1; for(int i=0;i<len;i++) N*=nA; const uint64_t chunk=20000; for(uint64_t b=0;b<N;b+=chunk){ if(c.skip()) continue; if(!c.begin(mc::cat("strings of length ",len," from ",b))) continue; std::string e; for(uint64_t x=b;x<std::min(N,b+chunk) && e.empty();x++){ s.clear(); uint64_t y=x; for(int i=0;i<len;i++){ s+=A[y%nA]; y/=nA; } if(s!=trim(s)) continue;
            ConfigMap m(mc::cat("[s]\nk = ",s,"\n")); err(e,one<int>(m,"s","k",s)); err(e,one<uint32_t>(m,"s","k",s)); err(e,one<double>(m,"s","k",s)); err(e,one<bool>(m,"s","k",s)); err(e,one<std::string>(m,"s","k",s)); err(e,list<int>(m,"s","k",s)); err(e,list<double>(m,"s","k",s)); c.evaluation(7); c.transition(); }
          c.trace(); c.state(mc::Hash().str(c.desc()).h); if(!e.empty()) c.violation("value",e); } } }
    // 2. limits of each type, and words
    if(!c.skip() && c.begin("limits")){ std::string e; std::vector<std::string> W{"2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","99999999999999999999999","-1","-0","+0","007","18446744073709551615","18446744073709551616","-9223372036854775808","1e308","1e309","-1e309","1e-308","4.9e-324","1e-400","1.7976931348623157e308","0.1","3.4028235e38","3.5e38","1e38","inf","nan","INF","-inf","infinity","0x10","1e","1e+","e5",".","-.","1.","+.5","1.5","1 2","1;2","1,5","true","false","yes","no","on","off","TRUE","True","t","y","2","01","truee"," ","absorbing","1L","1u","1.f","0.1f","1d0","1'000"};
      for(auto& s0 : W){ std::string s=trim(s0); ConfigMap m(mc::cat("[s]\nk=",s,"\n")); err(e,one<int>(m,"s","k",s)); err(e,one<uint32_t>(m,"s","k",s)); err(e,one<size_t>(m,"s","k",s)); err(e,one<long>(m,"s","k",s)); err(e,one<double>(m,"s","k",s)); err(e,one<float>(m,"s","k",s)); err(e,one<bool>(m,"s","k",s)); err(e,one<std::string>(m,"s","k",s)); c.evaluation(8); }
      for(auto b : {BC_REFLECTING,BC_ABSORBING,BC_PERIODIC,BC_USER}){ std::string n=named_enum<BoundaryConditionType>::to_string(b); for(auto& s : {n,std::to_string((int)b)}){ ConfigMap m(mc::cat("[s]\nk=",s,"\n")); if(m.getValue<BoundaryConditionType>("s","k")!=b) err(e,"enum "+s); } err(e,dflt(b)); for(auto& s : {n+"x",n.substr(1),n+" x"}){ ConfigMap m(mc::cat("[s]\nk=",s,"\n")); bool got=true; try{ m.getValue<BoundaryConditionType>("s","k"); } catch(const std::exception&){ got=false; } if(got) err(e,"enum name "+s+" is accepted"); } }
      { ConfigMap m("[s]\nk=1\n"); for(auto p : {std::make_pair("s","j"),std::make_pair("t","k")}){ bool got=true; try{ m.getValue<int>(p.first,p.second); } catch(const std::exception&){ got=false; } if(got||m.hasValue(p.first,p.second)) err(e,"a value that is not there is returned"); } }
      c.trace(); c.state(1); if(!e.empty()) c.violation("limits",e); }
    // 3. defaults
    if(!c.skip() && c.begin("defaults")){ std::string e; for(int x : {0,1,-1,42,INT_MAX,INT_MIN}) err(e,dflt(x)); for(uint32_t x : {0u,1u,UINT_MAX}) err(e,dflt(x)); err(e,dflt(SIZE_MAX)); for(bool x : {true,false}) err(e,dflt(x)); for(double x : {0.,-0.,.1,1/3.,1e-300,5e-324,DBL_MAX,DBL_MIN,-DBL_MAX,DBL_EPSILON,1e22,123456789.123456789,2./3,M_PI,1e16,1e17+2}) { err(e,dflt(x)); err(e,dflt(std::vector<double>{x,-x,1/7.})); } for(float x : {0.f,.1f,FLT_MAX,FLT_MIN,1/3.f,16777217.f}) err(e,dflt(x)); for(std::string x : {"","a","rho,e_tot","./x/y z","a:b","a=b","a;b","#x","[x]","100%","Abc"}) err(e,dflt(x)); err(e,dflt(std::vector<int>{})); err(e,dflt(std::vector<int>{1,-2,3})); err(e,dflt(std::vector<std::string>{"a","b c","d"}));
      for(int p=0;p<2000;p++){ double x=std::ldexp(1+p/7.,(p*37)%2000-1000); err(e,dflt(x)); err(e,dflt((float)std::ldexp(1+p%7/7.f,p%250-125))); c.evaluation(2); } c.trace(); c.state(2); if(!e.empty()) c.violation("default",e); }
    // 4. whole files: every combination of up to 3 assignments and of their spelling
    struct As{ const char* sec,*key,*val; }; std::vector<As> as{{"run","tEnd","1.5"},{"run","tend","2"},{"Run","TEND",""},{"amr","bx","4"},{"amr","name","a b; c=d:e"},{"","bare","x=1"},{"run","bx","[y]"},{"amr","a b","#1"}};
    struct Sp{ const char* pre,*eq,*post,*eol; }; std::vector<Sp> sp{{"","=","","\n"},{""," = ","","\n"},{"","\t=\t","  ; note = 3","\n"},{"","="," ;c","\r\n"},{"",":","\t","\n"},{" ; x = 1\n","  =",""," \n"},{"\n# c [z]\n;d=1\n","=  ","\t;;","\r\n"}};
    std::vector<std::string> secs{"[%s]\n","[%s] ; c\n","[%s]\r\n","\n[%s]\n\n"}; int n=(int)as.size(), ns=(int)sp.size(), nh=(int)secs.size();
    uint64_t total=0; for(int k=1;k<=(T?4:3);k++){ uint64_t N=1; for(int i=0;i<k;i++) N*=n; for(uint64_t x=0;x<N;x++){ std::vector<As> L; uint64_t y=x; for(int i=0;i<k;i++){ L.push_back(as[y%n]); y/=n; } bool ok=true; for(int i=1;i<k;i++) if(!*L[i].sec && *L[i-1].sec) ok=false; if(!ok) continue; if(c.skip()) continue; if(!c.begin(mc::cat("file of ",k,": ",x))) continue; std::string e;
        uint64_t NS=1; for(int i=0;i<k;i++) NS*=ns; for(uint64_t q=0;q<NS*nh && e.empty();q++){ if(k==4 && q%7!=x%7) continue; std::string text, cur=""; uint64_t z=q/nh; std::map<std::pair<std::string,std::string>,std::string> W; auto low=[](std::string s){ for(char& ch : s) ch=(char)tolower(ch); return s; };
          for(int i=0;i<k;i++){ const As& a=L[i]; const Sp& s=sp[z%ns]; z/=ns; if(a.sec!=cur){ std::string h=secs[(q+i)%nh]; h.replace(h.find("%s"),2,a.sec); text+=h; cur=a.sec; } text+=std::string(s.pre)+a.key+s.eq+a.val+s.post+(i+1==k&&q%3==0?"":s.eol); W[{low(a.sec),low(a.key)}]=a.val; }
          try{ ConfigMap m(text); std::string o1,o2; for(int pass=0;pass<3;pass++){ std::unique_ptr<ConfigMap> p; ConfigMap* M=&m; if(pass){ p=std::make_unique<ConfigMap>(pass==1?o1:o2); M=p.get(); } for(auto& w : W){ if(!M->hasValue(w.first.first,w.first.second)){ err(e,mc::cat("pass ",pass,": ",w.first.first,"/",w.first.second," is missing")); continue; } for(int cs=0;cs<2;cs++){ std::string S=w.first.first, K=w.first.second; if(cs) for(auto* t : {&S,&K}) for(char& ch : *t) ch=(char)toupper(ch); std::string v=M->getValue<std::string>(S,K); if(v!=w.second) err(e,mc::cat("pass ",pass,": ",S,"/",K," is `",v,"`, not `",w.second,"`")); } c.evaluation(2); } if(M->hasValue("run","x")||M->hasValue("","d")||M->hasValue("run","d")||M->hasValue("amr","d")||M->hasValue("amr","x")) err(e,"a comment was read as a value"); int df=M->getValue<int>("new","def",7); if(df!=7) err(e,"default"); std::ostringstream o; M->output(o); (pass==0?o1:o2)=o.str();
              if(pass==0){ // flags tell what comes from the file and what is unused
                ConfigMap f(text); std::string s0=W.begin()->first.first, k0=W.begin()->first.second; f.getValue<std::string>(s0,k0); f.getValue<int>("new","def",7); std::ostringstream fo; f.output(fo); std::istringstream fi(fo.str()); std::string l, sec; while(std::getline(fi,l)){ if(l[0]=='['){ sec=l.substr(1,l.find(']')-1); continue; } std::string key=trim(l.substr(0,l.find('='))); bool un=l.size()>9&&l.find(" ; Unused")!=std::string::npos, de=l.find(" ; Default")!=std::string::npos; bool d=sec=="new", u= !d && !(sec==s0&&key==k0) && !(sec=="ini"); if(sec=="ini") continue; if(un!=u||de!=d) err(e,mc::cat("marks of ",sec,"/",key,": ",l)); } }
              if(pass==2 && o2!=o.str()) err(e,"written file changes"); if(pass==2){ ConfigMap m3(o2); for(auto& w : W) m3.getValue<std::string>(w.first.first,w.first.second); m3.getValue<int>("new","def",7); std::ostringstream oo; m3.output(oo); if(oo.str()!=o2) err(e,"the written file is not a fixed point"); } } }
          catch(const std::exception& x){ err(e,mc::cat("refused: ",x.what())); } if(!e.empty()) e+=mc::cat(" in:\n",text); total++; c.transition(); c.state(mc::Hash().str(text).h); }
        c.trace(); if(!e.empty()) c.violation("file",e); } }
    // 5. lines of every length
    for(int kind=0;kind<6;kind++) for(int len=1;len<=(T?9000:1100);len++){ if(c.skip()) continue; if(!c.begin(mc::cat("line kind ",kind," length ",len))) continue; std::string e, v, text; std::vector<int> iv; auto fill=[&](const std::string& unit,size_t l){ std::string s; while(s.size()<l) s+=unit; s.resize(l); return s; };
      try{ if(kind==0){ v=fill("abcdefghijk_",len); text=mc::cat("[a]\nk=",v,"\nn=1\n"); } if(kind==1){ while((int)v.size()<len){ int x=(int)(v.size()*7919%1000); iv.push_back(x); v+=mc::cat(v.empty()?"":",",x); } text=mc::cat("[a]\nk = ",v," ; list\nn=1\n"); } if(kind==2){ v="x"; text=mc::cat("[a]\nk=x\n# ",fill("comment n = 3 ",len),"\nn=1\n"); } if(kind==3){ v="x"; text=mc::cat("[a]\nk=x ; ",fill("n=3 k=2 [a] ",len),"\nn=1\n"); } if(kind==4){ v=fill("a b=c ",len); if(v.back()==' ') v.back()='.'; text=mc::cat("[a]\nk",fill(" ",len),"=",fill(" \t",len),v,fill(" ",len),"\r\nn=1"); } if(kind==5){ v=fill("a, b",len); v=trim(v); text=mc::cat("[a] ; ",fill("[b] ",len),"\nk=",v,fill(" ",len),"; c\nn=1"); }
        ConfigMap m(text); std::string o; for(int pass=0;pass<2;pass++){ std::unique_ptr<ConfigMap> p; ConfigMap* M=&m; if(pass){ p=std::make_unique<ConfigMap>(o); M=p.get(); } if(!M->hasValue("a","k")||!M->hasValue("a","n")){ err(e,"value missing"); break; } std::string g=M->getValue<std::string>("a","k"); if(g!=v) err(e,mc::cat(pass?"written back: ":"","a value of ",v.size()," characters is read as ",g.size()," characters: ...",g.substr(g.size()>30?g.size()-30:0))); if(kind==1 && M->getValue<std::vector<int>>("a","k")!=iv) err(e,"list of numbers is wrong"); if(M->getValue<int>("a","n")!=1) err(e,"the next value is wrong"); std::ostringstream oo; M->output(oo); o=oo.str(); c.evaluation(3); }
        ConfigMap d(""); if(d.getValue<std::string>("a","k",v)!=v) err(e,"default"); std::ostringstream oo; d.output(oo); ConfigMap d2(oo.str()); if(d2.getValue<std::string>("a","k")!=v) err(e,"a long default is not written back"); }
      catch(const std::exception& x){ err(e,mc::cat("refused: ",x.what())); } c.trace(); c.transition(); c.state(mc::Hash().str(text).h); if(!e.empty()) c.violation("line",e); }
    // 6. every process gets the same configuration
    for(int np=1;np<=(T?7:4);np++) for(int len : {0,1,2,50,199,200,201,1000,4095,4096,4097,70000}){ if(c.skip()) continue; if(!c.begin(mc::cat("broadcast ranks=",np," length ",len))) continue; std::string e, text="[a]\nk=1\n"; while((int)text.size()<len) text+=mc::cat("key",text.size()," = ",text.size()*3,"\n"); text.resize(len); { std::ofstream("b.ini")<<text; } std::string ref; { ConfigMap m(""); } bool bad=false; try{ ConfigMap m(text); std::ostringstream o; m.output(o); ref=o.str(); } catch(const std::exception&){ bad=true; }
      std::vector<std::string> got(np); std::vector<int> th(np,0); auto r=fmpi::run(np,[&](int q){ try{ ConfigMap m=ConfigMap::broadcast_parameters("b.ini"); std::ostringstream o; m.output(o); got[q]=o.str(); } catch(const std::exception&){ th[q]=1; } }); if(!r.ok) err(e,mc::cat(r.kind,": ",r.error)); for(int q=0;q<np;q++) if(th[q]!=bad || (!bad && got[q]!=ref)) err(e,mc::cat("process ",q," read something else")); c.evaluation(np); c.trace(); c.transition(); c.state(mc::Hash().str(c.desc()).h); if(!e.empty()) c.violation("broadcast",e); }
    c.count("files",total);
  }); }
