// Fields and particles through creation/deletion, mesh adaptation and load balancing.
#include "cells.h"
#include "amr/MapUserData.h"
#include "utils/monitoring/Timers.h"
#include <cstring>
using namespace dy;
struct Err { std::string key,msg; };
using CI=ForeachCell::CellIndex;
static CI ci(const Block& b,uint32_t o,uint32_t l,bool g=false){ return CI{{o,g},l%b[0],(l/b[0])%b[1],l/b[0]/b[1],b[0],b[1],b[2],CI::LOCAL_TO_BLOCK}; }

/// value that cell c of the mesh after the adapt must hold, from the cells of the mesh before
static double mapped(const Mesh& old, const Block& b, const Cell& c, int f, const std::function<double(const Cell&,int)>& v){
  if(old.find(c.o)>=0) return v(c,f);
  int dim=old.D.dim; Oct p{c.o.l-1,c.o.x/2,c.o.y/2,dim==3?c.o.z/2:0};
  if(old.find(p)>=0){ Cell q; q.o=p; q.i=(c.i+(c.o.x%2)*b[0])/2; q.j=(c.j+(c.o.y%2)*b[1])/2; q.k=dim==3?(c.k+(c.o.z%2)*b[2])/2:0; return v(q,f); }
  double s=0; for(int w=0;w<(1<<dim);w++){ uint32_t g[3]; uint32_t oc[3]; for(int d=0;d<3;d++){ g[d]= d<dim? 2*c.c(d)+((w>>d)&1) : 0; oc[d]= d<dim? 2*c.o.c(d)+g[d]/b[d] : 0; g[d]= d<dim? g[d]%b[d]:0; }
    Cell q{Oct{c.o.l+1,oc[0],oc[1],oc[2]},g[0],g[1],g[2]}; if(old.find(q.o)<0) return NAN; s+=v(q,f)/(1<<dim); }
  return s; }

struct Setup { std::vector<std::string> create, del, keep; };
static const std::vector<Setup> SETUPS{ {{"rho","e_tot","rho_vx"},{},{"rho","e_tot","rho_vx"}}, {{"d","x","c","b"},{"x"},{"d","c","b"}}, {{"a"},{},{"a"}} };
struct Fields { ConfigMap cm; ForeachCell fc; UserData U; const Setup& s; const Block& b;
  Fields(AMRmesh& m,const Domain& D,const Block& b,const Setup& s,const std::string& extra="") : cm(ini(D,b,extra)), fc(m,cm), U(cm,fc), s(s), b(b) {
    for(auto& n : s.create) U.new_fields({n}); for(auto& n : s.del) U.delete_field(n); }
  UserData::FieldAccessor acc(){ std::vector<UserData::FieldAccessor_FieldInfo> v; int i=0; for(auto& n : s.keep) v.push_back({n,(VarIndex)i++}); return U.getAccessor(v); }
  void fill(const std::vector<Oct>& lo,const std::function<double(const Cell&,int)>& v){ auto A=acc(); for(uint32_t o=0;o<lo.size();o++) for(uint32_t l=0;l<ncell(b);l++) for(size_t f=0;f<s.keep.size();f++) A.at(ci(b,o,l),(VarIndex)f)=v(cell_of(b,lo[o],l),f); }
  void compare(const std::vector<Oct>& lo,const std::function<double(const Cell&,int)>& v,const std::function<void(const std::string&,const std::string&)>& fail,const std::string& what){
    if(U.getEnabledFields()!=std::set<std::string>(s.keep.begin(),s.keep.end())) fail("fieldset",what+": the set of fields changed");
    auto A=acc(); for(uint32_t o=0;o<lo.size();o++) for(uint32_t l=0;l<ncell(b);l++) for(size_t f=0;f<s.keep.size();f++){ double g=A.at(ci(b,o,l),(VarIndex)f), e=v(cell_of(b,lo[o],l),f);
      if(!(g==e)) fail(mc::cat(what,":field"),mc::cat(what,": cell ",str(cell_of(b,lo[o],l))," field '",s.keep[f],"' (",f,") is ",g," expected ",e)); } } };

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough;
    struct TC{ Domain D; int maxref; std::vector<int> ranks; std::vector<Block> bs; }; std::vector<TC> tc;
    std::vector<Block> B2{{2,2,1},{3,5,1},{4,1,1}}, B3{{2,2,2},{1,3,2}};
    std::vector<std::array<bool,3>> P2{{0,0,0},{1,1,0}}, P3{{0,0,0},{1,1,1}}; if(T){ P2.push_back({1,0,0}); P3.push_back({0,1,1}); }
    std::vector<int> R= T? std::vector<int>{1,2,3,4,5} : std::vector<int>{1,2,3};
    for(auto& p : P2){ tc.push_back({dom(2,1,3,{2,2,1},p),T?5:3,R,B2}); tc.push_back({dom(2,2,4,{3,2,1},p),T?3:2,R,B2}); }
    for(auto& p : P3){ tc.push_back({dom(3,1,3,{2,1,2},p),T?3:1,R,B3}); if(T) tc.push_back({dom(3,1,3,{2,2,2},p),2,R,B3}); }
    for(auto& p : P2) tc.push_back({dom(2,1,3,{2,1,1},p),T?4:2,{3,4},B2}); // fewer octants than processes
    if(mode=="remap"){
      for(auto& t : tc) all_trees(t.D,t.maxref,[&](const Mesh& m0,const History& h){
        std::vector<std::vector<int>> mks; { std::set<std::vector<int>> s; for(int base=-1;base<=1;base++) all_markers(m0,base,(m0.size()<=(T?16:8))?2:1,[&](const std::vector<int>& mk){ s.insert(mk); }); mks.assign(s.begin(),s.end()); }
        for(int n : t.ranks){
        std::vector<History> parts{h}; if(n>1 && m0.size()>=(size_t)n){ History h2=h; Op o; o.k=Op::LB; h2.push_back(o); parts.push_back(h2); }
        for(auto& hh : parts) for(auto& mk : mks) for(std::string mapper : {"MapUserData_mean","MapUserData_legacy"}){
          if(!c.begin(mc::cat("remap ",mapper.substr(12)," ",t.D.str()," ranks=",n," | ",ref::str(hh)," then "+ref::str(History{Op{Op::ADAPT,mk,0}})))) continue;
          std::vector<Err> errs(n); Mesh m1=m0.adapt(mk); c.distinct(m1.hash());
          auto r=run_history(t.D,n,hh,[&](int rank,AMRmesh& am,const Mesh& rm){
            auto fail=[&](const std::string& k,const std::string& s){ if(errs[rank].key.empty()) errs[rank]={k,mc::cat("rank ",rank,": ",s)}; };
            auto lo=local_octs(am,t.D); std::vector<std::unique_ptr<Fields>> F; std::vector<std::unique_ptr<MapUserData>> M; Timers tm;
            for(size_t q=0;q<t.bs.size();q++){ F.push_back(std::make_unique<Fields>(am,t.D,t.bs[q],SETUPS[q%SETUPS.size()])); M.push_back(MapUserDataFactory::make_instance(mapper,F[q]->cm,F[q]->fc,tm)); F[q]->fill(lo,val); M[q]->save_old_mesh(); }
            set_markers(am,rm,mk); am.adapt(); auto l1=local_octs(am,t.D);
            for(size_t q=0;q<t.bs.size();q++){ M[q]->remap(F[q]->U); F[q]->compare(l1,[&](const Cell& x,int f){ return mapped(rm,t.bs[q],x,f,val); },fail,"remap "+str(t.bs[q])); } });
          c.trace(); c.transition(t.bs.size()); c.state(mc::Hash().add(m0.hash()).add(m1.hash()).add(n).add(hh.size()).h);
          if(!r.ok) c.violation(r.kind+":"+key(t.D,n),r.error); else for(auto& e : errs) if(!e.key.empty()){ c.violation(e.key+":"+key(t.D,n),e.msg); break; }
          if(c.traces%999==1) c.sample(c.desc());
        } } });
      return; }
    if(mode=="balance" || mode=="particles"){
      for(auto& t : tc) all_trees(t.D,t.maxref+(T?0:1),[&](const Mesh& m0,const History& h){ for(int n : t.ranks){ if(mode=="balance"&&((n==1&&!T)||m0.size()<(size_t)n)) continue;
        for(auto& hh : partitions(m0,h,n)) for(int lev=0;lev<(mode=="balance"?3:1);lev++) for(int su=0;su<(mode=="balance"?(int)SETUPS.size():3);su++){
          if(mode=="balance" && final_mesh(t.D,hh).size()<(size_t)n) continue;
          if(!c.begin(mc::cat(mode," ",t.D.str()," ranks=",n," | ",ref::str(hh)," compact=",lev," setup=",su))) continue;
          std::vector<Err> errs(n); bool dyadic=true; for(int d=0;d<t.D.dim;d++) if(t.D.coarse[d]&(t.D.coarse[d]-1)) dyadic=false;
          auto r=run_history(t.D,n,hh,[&](int rank,AMRmesh& am,const Mesh& rm){
            auto fail=[&](const std::string& k,const std::string& s){ if(errs[rank].key.empty()) errs[rank]={k,mc::cat("rank ",rank,": ",s)}; };
            Block b=t.bs[su%t.bs.size()]; const Domain& D=t.D; auto lo=local_octs(am,D);
            Fields F(am,D,b,SETUPS[su],"xmin=-1\nxmax=3\nymin=2\nymax=2.5\nzmin=-8\nzmax=-4\n"); F.fill(lo,val);
            const double lo0[3]={-1,2,-8}, ext[3]={4,.5,4};
            // particles: offsets inside each leaf; attribute p0 = id, p1 = function of id
            std::vector<std::array<double,3>> offs{{.5,.5,.5},{.03,.9,.51},{.99,.01,.97}}; if(dyadic) offs.push_back({0,0,0});
            struct Pt{ int leaf,k; }; std::vector<Pt> mine; int np=0;
            for(size_t q=0;q<rm.size();q++) for(size_t k=0;k<offs.size();k++,np++){ int who; if(mode=="balance" || su==2){ who=-1; for(auto& o : lo) if(o==rm.leaves[q]) who=rank; if(su==2 && mode=="particles") who = who==rank? rank : -1; } else if(su==0) who=0; else who=(int)((q*7+k*3)%n); if(who==rank) mine.push_back({(int)q,(int)k}); }
            F.U.new_ParticleArray("parts",mine.size()); F.U.new_ParticleAttribute("parts","zz"); F.U.new_ParticleAttribute("parts","tmp"); F.U.new_ParticleAttribute("parts","id"); F.U.delete_ParticleAttribute("parts","tmp");
            F.U.new_ParticleArray("empty",0); 
            auto posof=[&](const Pt& p,int d){ const Oct& o=rm.leaves[p.leaf]; if(d>=D.dim) return lo0[d]+ext[d]*.25; double cnt=D.count(d,o.l); return lo0[d]+ext[d]*((o.c(d)+offs[p.k][d])/cnt); };
            { auto P=F.U.getParticleArray("parts"); auto A=F.U.getParticleAccessor("parts",{{"zz",0},{"id",1}}); for(size_t i=0;i<mine.size();i++){ for(int d=0;d<3;d++) P.pos(i,(ComponentIndex3D)d)=posof(mine[i],d); int id=mine[i].leaf*8+mine[i].k; A.at(i,1)=id; A.at(i,0)=rnd(id,5); } }
            if(mode=="balance") am.loadBalance_userdata(lev,F.U);
            F.U.distributeAllParticles();
            auto l1=local_octs(am,D);
            F.compare(l1,val,fail,mode);
            std::map<int,int> seen; auto P=F.U.getParticleArray("parts"); 
            if(F.U.getEnabledParticleAttributes("parts")!=std::set<std::string>{"zz","id"}) fail("attrset","the set of particle attributes changed");
            if(F.U.getParticleArray("empty").getNumParticles()!=0) fail("empty","an empty particle array gained particles");
            auto A=F.U.getParticleAccessor("parts",{{"zz",0},{"id",1}});
            for(uint32_t i=0;i<P.getNumParticles();i++){ int id=(int)A.at(i,1); if(!(A.at(i,1)==id) || id<0 || id/8>=(int)rm.size() || id%8>=(int)offs.size()){ fail("attr",mc::cat("particle ",i," has id ",A.at(i,1))); continue; }
              seen[id]++; if(A.at(i,0)!=rnd(id,5)) fail("attr",mc::cat("attribute of particle ",id," is ",A.at(i,0)," expected ",rnd(id,5)));
              for(int d=0;d<3;d++) if(P.pos(i,(ComponentIndex3D)d)!=posof({id/8,id%8},d)) fail("pos",mc::cat("position of particle ",id," changed along ",d)); }
            for(size_t q=0;q<rm.size();q++) for(size_t k=0;k<offs.size();k++){ bool here=false; for(auto& o : l1) if(o==rm.leaves[q]) here=true; int s=seen.count(q*8+k)?seen[q*8+k]:0; if(s!=(here?1:0)) fail("owner",mc::cat("particle ",q*8+k," in leaf ",ref::str(rm.leaves[q])," appears ",s," times on a rank that ",here?"owns":"does not own"," this leaf")); }
          });
          c.trace(); c.transition(1); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); 
          if(!r.ok) c.violation(r.kind+":"+key(t.D,n),r.error); else for(auto& e : errs) if(!e.key.empty()){ c.violation(e.key+":"+key(t.D,n),e.msg); break; }
          if(c.traces%499==1) c.sample(c.desc());
        } } });
      return; }
    if(mode=="store"){
      // every sequence of operations on the field store (names a,b,c), checked against a map after each operation
      Domain D=dom(2,1,3,{2,1,1},{0,0,0}); Block b{2,1,1};
      struct O{ char k; int x,y; }; std::vector<O> ops; const char* N[3]={"m","c","z"};
      for(int x=0;x<3;x++){ ops.push_back({'n',x,x}); ops.push_back({'d',x,0}); for(int y=0;y<3;y++) ops.push_back({'m',x,y}); for(int y=x+1;y<3;y++) ops.push_back({'n',x,y}); }
      ops.push_back({'w',0,0}); ops.push_back({'r',0,0}); ops.push_back({'l',0,0}); ops.push_back({'g',0,0});
      auto show=[&](const O& o){ std::string s(1,o.k); if(strchr("ndm",o.k)) s+=N[o.x]; if(o.k=='m'||(o.k=='n'&&o.y!=o.x)) s+=N[o.y]; return s; };
      int depth=T?5:4; std::vector<int> seq(depth,0); uint64_t tot=1; for(int i=0;i<depth;i++) tot*=ops.size();
      for(uint64_t w=0;w<tot;w++){ uint64_t q=w; std::string d="fields"; for(int i=0;i<depth;i++){ seq[i]=q%ops.size(); q/=ops.size(); }
        // skip sequences whose prefix already contains an operation that must throw: enumerated once, at the position of the throw
        { std::set<int> st; bool dead=false, redundant=false; for(int i=0;i<depth;i++){ O o=ops[seq[i]]; if(dead){ if(seq[i]!=0) redundant=true; continue; }
            if(o.k=='n'){ if(st.count(o.x)||st.count(o.y)) dead=true; st.insert(o.x); st.insert(o.y); } else if(o.k=='d') st.erase(o.x); else if(o.k=='m'){ if(!st.count(o.x)) dead=true; else { st.erase(o.x); st.insert(o.y);} } else if(st.empty()) redundant=true; } if(redundant) continue; }
        if(c.skip()) continue;
        for(int i=0;i<depth;i++) d+=" "+show(ops[seq[i]]);
        if(!c.begin(d)) continue;
        auto m=make_mesh(D); ConfigMap cm(ini(D,b)); ForeachCell fc(*m,cm); UserData U(cm,fc); Timers tm; std::map<int,int> model; int tok=0; 
        auto v=[&](int t,uint32_t o,uint32_t l){ return t==0? 0. : 100.*t+10*o+l; };
        auto check=[&](const std::string& after){
          std::set<std::string> e; for(auto& p : model) e.insert(N[p.first]);
          if(U.getEnabledFields()!=e || U.nbFields()!=(int)e.size()) c.violation("set","set of fields wrong after "+after);
          for(int x=0;x<3;x++) if(U.has_field(N[x])!=(model.count(x)>0)) c.violation("has_field","has_field wrong after "+after);
          if(model.empty()) return; std::vector<UserData::FieldAccessor_FieldInfo> fi; for(auto& p : model) fi.insert(fi.begin(),{N[p.first],(VarIndex)p.first}); auto A=U.getAccessor(fi);
          int iv=0; for(auto p=model.rbegin();p!=model.rend();++p,++iv) for(uint32_t o=0;o<m->getNumOctants();o++) for(uint32_t l=0;l<ncell(b);l++){ double g=A.at(ci(b,o,l),(VarIndex)p->first), g2=A.at_ivar(ci(b,o,l),iv); if(g!=v(p->second,o,l) || g2!=g) c.violation("value",mc::cat("field ",N[p->first]," cell ",o,",",l," is ",g," (at_ivar ",g2,") expected ",v(p->second,o,l)," after ",after)); } 
          for(auto& p : model){ auto f=U.getField(N[p.first]); for(uint32_t o=0;o<m->getNumOctants();o++) for(uint32_t l=0;l<ncell(b);l++) if(f.at_ivar(ci(b,o,l),0)!=v(p.second,o,l)) c.violation("getField",mc::cat("getField(",N[p.first],") wrong after ",after)); } };
        auto write=[&](int x,int t){ auto A=U.getAccessor({{N[x],(VarIndex)x}}); for(uint32_t o=0;o<m->getNumOctants();o++) for(uint32_t l=0;l<ncell(b);l++) A.at(ci(b,o,l),(VarIndex)x)=v(t,o,l); model[x]=t; };
        std::string done; 
        for(int i=0;i<depth && !c.current_failed();i++){ O o=ops[seq[i]]; done+=" "+show(o); bool expect=false, threw=false;
          if(o.k=='n') expect=model.count(o.x)||model.count(o.y); if(o.k=='m') expect=!model.count(o.x);
          try {
            if(o.k=='n'){ std::set<std::string> s{N[o.x],N[o.y]}; U.new_fields(s); if(!expect){ model[o.x]=0; model[o.y]=0; } }
            if(o.k=='d'){ U.delete_field(N[o.x]); model.erase(o.x); }
            if(o.k=='m'){ U.move_field(N[o.y],N[o.x]); if(!expect){ int t=model[o.x]; model.erase(o.x); model[o.y]=t; } }
            if(o.k=='w') for(auto p : std::map<int,int>(model)) write(p.first,++tok);
            if(o.k=='r'||o.k=='g'){ auto M=MapUserDataFactory::make_instance("MapUserData_mean",cm,fc,tm); M->save_old_mesh(); m->adapt(); M->remap(U); }
            if(o.k=='l') m->loadBalance_userdata(0,U);
          } catch(const std::exception& e){ threw=true; if(!expect) c.violation("throw",mc::cat("unexpected exception after",done,": ",e.what())); }
          if(expect && !threw) c.violation("nothrow","misuse was accepted:"+done);
          c.transition(); if(threw) break; try { check(done); } catch(const std::exception& e){ c.violation("throw",mc::cat("unexpected exception when reading after",done,": ",e.what())); } { mc::Hash hh; for(auto& p : model) hh.add(p); c.state(hh.h); } }
        c.trace(); c.evaluation(); if(c.traces%9999==1) c.sample(c.desc());
      }
      return; }
    if(mode=="pstore"){
      Domain D=dom(2,1,3,{2,1,1},{0,0,0}); Block b{2,1,1};
      struct O{ char k; int x,y; }; std::vector<O> ops; const char* N[3]={"m","c","z"};
      for(int x=0;x<3;x++){ ops.push_back({'n',x,x}); ops.push_back({'d',x,0}); for(int y=0;y<3;y++) ops.push_back({'m',x,y}); }
      ops.push_back({'w',0,0}); ops.push_back({'l',0,0});
      auto show=[&](const O& o){ std::string s(1,o.k); if(strchr("ndm",o.k)) s+=N[o.x]; if(o.k=='m') s+=N[o.y]; return s; };
      int depth=T?6:5; std::vector<int> seq(depth,0); uint64_t tot=1; for(int i=0;i<depth;i++) tot*=ops.size();
      for(uint64_t w=0;w<tot;w++){ uint64_t q=w; std::string d="particles"; for(int i=0;i<depth;i++){ seq[i]=q%ops.size(); q/=ops.size(); }
        { std::set<int> st; bool dead=false, redundant=false; for(int i=0;i<depth;i++){ O o=ops[seq[i]]; if(dead){ if(seq[i]!=0) redundant=true; continue; }
            if(o.k=='n'){ if(st.count(o.x)) dead=true; st.insert(o.x); } else if(o.k=='d') st.erase(o.x); else if(o.k=='m'){ if(!st.count(o.x)) dead=true; else { st.erase(o.x); st.insert(o.y);} } else if(o.k=='w' && st.empty()) redundant=true; } if(redundant) continue; }
        if(c.skip()) continue;
        for(int i=0;i<depth;i++) d+=" "+show(ops[seq[i]]); if(!c.begin(d)) continue;
        auto m=make_mesh(D); ConfigMap cm(ini(D,b)); ForeachCell fc(*m,cm); UserData U(cm,fc); std::map<int,int> model; int tok=0; const int NP=3;
        U.new_ParticleArray("P",NP); U.new_ParticleArray("Q",2); U.new_ParticleAttribute("Q","m"); { auto A=U.getParticleAccessor("Q",{{"m",0}}); A.at(0,0)=-1; A.at(1,0)=-2; }
        { auto P=U.getParticleArray("P"); for(int i=0;i<NP;i++) for(int k=0;k<3;k++) P.pos(i,(ComponentIndex3D)k)=0.1+0.2*i+0.05*k; auto Q=U.getParticleArray("Q"); for(int i=0;i<2;i++) for(int k=0;k<3;k++) Q.pos(i,(ComponentIndex3D)k)=.5; }
        auto v=[&](int t,int i){ return t==0?0.:10.*t+i; };
        auto check=[&](const std::string& after){ std::set<std::string> e; for(auto& p : model) e.insert(N[p.first]);
          if(U.getEnabledParticleAttributes("P")!=e) c.violation("set","set of attributes wrong after"+after);
          if(U.getEnabledParticleArrays()!=std::set<std::string>{"P","Q"}) c.violation("arrays","set of arrays wrong after"+after);
          auto P=U.getParticleArray("P"); if(P.getNumParticles()!=NP){ c.violation("count","number of particles changed after"+after); return; }
          for(int i=0;i<NP;i++) for(int k=0;k<3;k++) if(P.pos(i,(ComponentIndex3D)k)!=0.1+0.2*i+0.05*k) c.violation("pos","positions changed after"+after);
          { auto A=U.getParticleAccessor("Q",{{"m",0}}); if(A.at(0,0)!=-1||A.at(1,0)!=-2) c.violation("other","another array changed after"+after); }
          for(auto& p : model){ auto A=U.getParticleAccessor("P",{{N[p.first],(VarIndex)p.first}}); auto G=U.getParticleAttribute("P",N[p.first]); for(int i=0;i<NP;i++){ if(A.at(i,(VarIndex)p.first)!=v(p.second,i)) c.violation("value",mc::cat("attribute ",N[p.first]," of particle ",i," is ",A.at(i,(VarIndex)p.first)," expected ",v(p.second,i)," after",after)); if(G.at_ivar(i,0)!=v(p.second,i)) c.violation("getAttribute","getParticleAttribute wrong after"+after); } } };
        std::string done;
        for(int i=0;i<depth && !c.current_failed();i++){ O o=ops[seq[i]]; done+=" "+show(o); bool expect=false, threw=false; if(o.k=='n') expect=model.count(o.x); if(o.k=='m') expect=!model.count(o.x);
          try {
            if(o.k=='n'){ U.new_ParticleAttribute("P",N[o.x]); if(!expect) model[o.x]=0; }
            if(o.k=='d'){ U.delete_ParticleAttribute("P",N[o.x]); model.erase(o.x); }
            if(o.k=='m'){ U.move_ParticleAttribute("P",N[o.y],N[o.x]); if(!expect){ int t=model[o.x]; model.erase(o.x); model[o.y]=t; } }
            if(o.k=='w') for(auto p : std::map<int,int>(model)){ int t=++tok; auto A=U.getParticleAccessor("P",{{N[p.first],(VarIndex)p.first}}); for(int i=0;i<NP;i++) A.at(i,(VarIndex)p.first)=v(t,i); model[p.first]=t; }
            if(o.k=='l') U.distributeAllParticles();
          } catch(const std::exception& e){ threw=true; if(!expect) c.violation("throw",mc::cat("unexpected exception after",done,": ",e.what())); }
          if(expect && !threw) c.violation("nothrow","misuse was accepted:"+done);
          c.transition(); if(threw) break; try { check(done); } catch(const std::exception& e){ c.violation("throw",mc::cat("unexpected exception when reading after",done,": ",e.what())); } { mc::Hash hh; for(auto& p : model) hh.add(p); c.state(hh.h); } }
        c.trace(); c.evaluation(); if(c.traces%9999==1) c.sample(c.desc());
      } }
  });
}
