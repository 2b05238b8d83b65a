// Ghost exchange / reduce, view communicator, and independence from the MPI schedule.
#include "cells.h"
#include "mpi/GhostCommunicator.h"
#include "mpi/ViewCommunicator.h"
#include <cstring>
using namespace dy;

static const double SENT=-7.25;
struct BG { Block b; int g; };
struct Err { std::string key,msg; };

template<class GC> static void exchange_probe(int rank, AMRmesh& m, const Mesh& rm, const BG& bg, bool reduce, Err& err){
  const Domain& D=rm.D; const Block& b=bg.b; uint32_t nc=ncell(b);
  auto fail=[&](const std::string& k,const std::string& s){ if(err.key.empty()) err={k,mc::cat(GC::name()," block ",str(b)," ghosts ",bg.g," rank ",rank,": ",s)}; };
  auto lo=local_octs(m,D), gh=ghost_octs(m,D); Grid G{&rm,b};
  ConfigMap cm(ini(D,b)); ForeachCell fc(m,cm); UserData U(cm,fc);
  U.new_fields({"c","a"}); U.new_fields({"b","d"}); 
  enum {IA,IB,IC,ID_};
  // c,a,b are communicated in an order different from the storage order; d is not
  auto all=U.getAccessor({{"a",IA},{"b",IB},{"c",IC},{"d",ID_}});
  UserData::FieldAccessor ex=U.getAccessor({{"c",IC},{"a",IA},{"b",IB}});
  auto at=[&](bool g,uint32_t o,uint32_t l,int f)->double&{ ForeachCell::CellIndex ci{{o,g},l%b[0],(l/b[0])%b[1],l/b[0]/b[1],b[0],b[1],b[2]}; return all.at(ci,(VarIndex)f); };
  std::vector<std::vector<char>> need(gh.size(),std::vector<char>(nc,0));
  for(size_t o=0;o<gh.size();o++) for(uint32_t l=0;l<nc;l++) for(auto& a : lo) if(rm.touch(a,gh[o]) && G.within(cell_of(b,gh[o],l),a,bg.g)){ need[o][l]=1; break; }
  for(size_t o=0;o<lo.size();o++) for(uint32_t l=0;l<nc;l++) for(int f=0;f<4;f++) at(false,o,l,f)=val(cell_of(b,lo[o],l),f);
  for(size_t o=0;o<gh.size();o++) for(uint32_t l=0;l<nc;l++) for(int f=0;f<4;f++) at(true,o,l,f)= reduce ? ((need[o][l]||f==3)? rnd(mc::Hash().add(val(cell_of(b,gh[o],l),f)).h,rank):0.) : SENT;
  GC gc(m,U.getShape(),bg.g);
  if(gc.getNumGhosts()!=gh.size()) fail("numghosts",mc::cat("getNumGhosts ",gc.getNumGhosts()," but the mesh has ",gh.size()));
  if(!reduce){
    gc.exchange_ghosts(ex);
    for(size_t o=0;o<gh.size();o++) for(uint32_t l=0;l<nc;l++) for(int f=0;f<4;f++){ double v=at(true,o,l,f), e=val(cell_of(b,gh[o],l),f);
      if(f==3){ if(v!=SENT) fail("other_field","a field that was not exchanged changed in ghost "+str(cell_of(b,gh[o],l))); continue; }
      if(v!=e && (need[o][l] || v!=SENT)) fail(v==SENT?"missing":"wrong",mc::cat("ghost cell ",str(cell_of(b,gh[o],l))," field ",f," is ",v,", its owner has ",e)); }
    for(size_t o=0;o<lo.size();o++) for(uint32_t l=0;l<nc;l++) for(int f=0;f<4;f++) if(at(false,o,l,f)!=val(cell_of(b,lo[o],l),f)) fail("local","local cell modified");
  } else {
    gc.reduce_ghosts(ex);
    // what every rank put in its ghosts is a pure function of (cell,field,rank), restricted to cells within reach of that rank: recomputed from the global partition
    struct Part{ std::vector<Oct> lo,gh; }; std::vector<void*> slots;
    static thread_local std::vector<Part> parts; Part mine{lo,gh};
    std::vector<Part> got;
    fmpi::collective("parts",[&](const std::vector<void*>& v){ parts.clear(); for(void* p : v) parts.push_back(*(Part*)p); },&mine);
    got=parts;
    fmpi::collective("parts_done",[&](const std::vector<void*>&){},nullptr);
    for(size_t o=0;o<lo.size();o++) for(uint32_t l=0;l<nc;l++) for(int f=0;f<4;f++){ Cell c=cell_of(b,lo[o],l); double e=val(c,f);
      if(f<3) for(int r=0;r<(int)got.size();r++) if(r!=rank) for(auto& q : got[r].gh) if(q==lo[o]){ bool w=false; for(auto& a : got[r].lo) if(rm.touch(a,q) && G.within(c,a,bg.g)) w=true; if(w) e+=rnd(mc::Hash().add(val(c,f)).h,r); }
      if(at(false,o,l,f)!=e) fail(f==3?"other_field":"sum",mc::cat("cell ",str(c)," field ",f," holds ",at(false,o,l,f),", expected own value plus the ghosts' = ",e)); }
  }
}

// ---- view communicator
struct Item{ int src; int idx; };
template<class V,int dd> static V make_view(uint32_t n, const uint32_t* ext){ size_t e[3]={0,0,0}; int q=0; for(int d=0;d<(int)V::rank;d++) e[d]= d==dd? n : ext[q++];
  if constexpr(V::rank==1) return V("v",e[0]); else if constexpr(V::rank==2) return V("v",e[0],e[1]); else return V("v",e[0],e[1],e[2]); }
template<class V,int dd> static double& elem(const V& v, uint32_t item, uint32_t k, const uint32_t* ext){ uint32_t c[3]; uint32_t o[2]={k%ext[0],k/ext[0]}; int q=0; for(int d=0;d<(int)V::rank;d++) c[d]= d==dd? item : (V::rank==2? k : o[q++]);
  if constexpr(V::rank==1) return v(c[0]); else if constexpr(V::rank==2) return v(c[0],c[1]); else return v(c[0],c[1],c[2]); }
template<class V,int dd> static void view_probe(const ViewCommunicator& vc, int rank, const std::vector<std::vector<std::vector<uint32_t>>>& send, const std::vector<uint32_t>& nitems, bool reduce, Err& err, const char* what){
  auto fail=[&](const std::string& k,const std::string& s){ if(err.key.empty()) err={k,mc::cat(what," rank ",rank,": ",s)}; };
  int n=(int)send.size(); const uint32_t ext[2]={3,2}; uint32_t per= V::rank==1?1:V::rank==2?3:6;
  std::vector<Item> exp; for(int r=0;r<n;r++) for(uint32_t i : send[r][rank]) exp.push_back({r,(int)i});
  if(vc.getNumGhosts()!=exp.size()){ fail("count",mc::cat("getNumGhosts ",vc.getNumGhosts()," expected ",exp.size())); }
  uint32_t ng=vc.getNumGhosts();
  V U=make_view<V,dd>(nitems[rank],ext), G=make_view<V,dd>(ng,ext);
  auto v0=[&](int r,int i,int k){ return (double)(1+k+10*i+1000*r); };
  for(uint32_t i=0;i<nitems[rank];i++) for(uint32_t k=0;k<per;k++) elem<V,dd>(U,i,k,ext)=v0(rank,i,k);
  for(uint32_t i=0;i<ng;i++) for(uint32_t k=0;k<per;k++) elem<V,dd>(G,i,k,ext)= SENT;
  vc.exchange_ghosts<dd>(U,G);
  for(uint32_t i=0;i<ng && i<exp.size();i++) for(uint32_t k=0;k<per;k++) if(elem<V,dd>(G,i,k,ext)!=v0(exp[i].src,exp[i].idx,k)) fail("exchange",mc::cat("received item ",i," element ",k," is ",elem<V,dd>(G,i,k,ext),", expected item ",exp[i].idx," of rank ",exp[i].src," = ",v0(exp[i].src,exp[i].idx,k)));
  for(uint32_t i=0;i<nitems[rank];i++) for(uint32_t k=0;k<per;k++) if(elem<V,dd>(U,i,k,ext)!=v0(rank,i,k)) fail("source","source view modified");
  if(!reduce) return;
  auto gv=[&](int r,int slot,int k){ return (double)(((uint64_t)rnd(r*977+slot,k)) & 0xffffff); };
  for(uint32_t i=0;i<ng;i++) for(uint32_t k=0;k<per;k++) elem<V,dd>(G,i,k,ext)=gv(rank,i,k);
  vc.reduce_ghosts<dd>(U,G);
  for(uint32_t i=0;i<nitems[rank];i++) for(uint32_t k=0;k<per;k++){ double e=v0(rank,i,k);
    for(int d=0;d<n;d++){ int slot=0; for(int s=0;s<n;s++) for(uint32_t q : send[s][d]){ if(s==rank && q==i) e+=gv(d,slot,k); slot++; } }
    if(elem<V,dd>(U,i,k,ext)!=e) fail("reduce",mc::cat("item ",i," element ",k," is ",elem<V,dd>(U,i,k,ext)," expected ",e)); }
}

static void view_case(mc::Ctx& c, int n, const std::vector<uint32_t>& ni, const std::vector<std::vector<std::vector<uint32_t>>>& send, bool domains, bool local, const fmpi::Options& opt={}){
  std::vector<Err> errs(n);
  auto r=fmpi::run(n,[&](int rank){
    auto go=[&](const ViewCommunicator& vc,const char* what){
      bool red=!local;
      view_probe<Kokkos::View<double*,Kokkos::LayoutLeft>,0>(vc,rank,send,ni,red,errs[rank],what);
      view_probe<Kokkos::View<double**,Kokkos::LayoutLeft>,0>(vc,rank,send,ni,red,errs[rank],what);
      view_probe<Kokkos::View<double**,Kokkos::LayoutLeft>,1>(vc,rank,send,ni,red,errs[rank],what);
      view_probe<Kokkos::View<double***,Kokkos::LayoutLeft>,2>(vc,rank,send,ni,red,errs[rank],what);
      view_probe<Kokkos::View<double***,Kokkos::LayoutLeft>,1>(vc,rank,send,ni,red,errs[rank],what);
      view_probe<Kokkos::View<double***,Kokkos::LayoutLeft>,0>(vc,rank,send,ni,red,errs[rank],what); };
    if(domains){ Kokkos::View<int*> t("t",ni[rank]); for(int d=0;d<n;d++) for(uint32_t i : send[rank][d]) t(i)=d; ViewCommunicator vc(t); go(vc,"target domains"); }
    else { std::map<int,std::vector<uint32_t>> gm; uint32_t tot=0; for(int d=0;d<n;d++){ tot+=send[rank][d].size(); if(send[rank][d].size()) gm[d]=send[rank][d]; }
      { ViewCommunicator vc(gm); go(vc,"map"); }
      Kokkos::View<uint32_t*> sz("s",n), io("i",tot); uint32_t q=0; for(int d=0;d<n;d++){ sz(d)=send[rank][d].size(); for(uint32_t i : send[rank][d]) io(q++)=i; }
      ViewCommunicator vc(sz,io); go(vc,"views"); }
  },opt);
  c.trace(); c.evaluation(); c.transition(domains?6:12);
  if(!r.ok) c.violation(r.kind,r.error); else for(auto& e : errs) if(!e.key.empty()){ c.violation(e.key,e.msg); break; }
}

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough;
    std::vector<std::array<bool,3>> P2{{0,0,0},{1,0,0},{0,1,0},{1,1,0}}, P3=T? std::vector<std::array<bool,3>>{{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,1}} : std::vector<std::array<bool,3>>{{0,0,0},{0,1,0},{1,1,1}};
    if(mode=="view"){
      // every assignment of at most 3 items per rank to ranks (target domains), and every multicast map for 2 items per rank
      for(int n=1;n<=(T?4:3);n++){ int mx= n==4?2:3; std::vector<uint32_t> ni(n,0);
        std::function<void(int)> sizes=[&](int r){ if(r<n){ for(int k=0;k<=mx;k++){ ni[r]=k; sizes(r+1);} return; }
          uint32_t tot=0; for(auto x : ni) tot+=x; if(!T && tot>6) return; uint64_t combos=1; for(uint32_t i=0;i<tot;i++) combos*=n;
          for(uint64_t q=0;q<combos;q++){ uint64_t w=q; std::vector<std::vector<std::vector<uint32_t>>> send(n,std::vector<std::vector<uint32_t>>(n)); std::string s; bool local=false;
            for(int a=0;a<n;a++){ for(uint32_t i=0;i<ni[a];i++){ int d=w%n; w/=n; send[a][d].push_back(i); s+=(char)('0'+d); if(a==d) local=true; } s+='/'; }
            if(!c.begin(mc::cat("domains n=",n," ",s))) continue; view_case(c,n,ni,send,true,local); c.distinct(mc::Hash().str(c.desc()).h); c.state(mc::Hash().str(c.desc()).h); } };
        sizes(0); }
      for(int n=2;n<=3;n++){ uint32_t items= n==2? 3: (T?2:1); std::vector<uint32_t> ni(n,items); int sub=1<<items; int slots=n*n; uint64_t combos=1; for(int i=0;i<slots;i++) combos*=sub;
        uint64_t step = 1; if(combos>300000) continue;
        for(uint64_t q=0;q<combos;q+=step) for(int rev=0;rev<2;rev++){ uint64_t w=q; std::vector<std::vector<std::vector<uint32_t>>> send(n,std::vector<std::vector<uint32_t>>(n)); bool local=false; 
          for(int a=0;a<n;a++) for(int d=0;d<n;d++){ int msk=w%sub; w/=sub; for(uint32_t i=0;i<items;i++){ uint32_t ii= rev? items-1-i : i; if(msk>>ii&1){ send[a][d].push_back(ii); if(a==d) local=true; } } }
          if(!c.begin(mc::cat("map n=",n," mask=",q," rev=",rev))) continue; view_case(c,n,ni,send,false,local); c.distinct(mc::Hash().str(c.desc()).h); c.state(mc::Hash().str(c.desc()).h); } }
      return;
    }
    struct TC{ Domain D; int maxref; std::vector<int> ranks; std::vector<BG> bg; }; std::vector<TC> tc;
    std::vector<BG> B2{{{1,1,1},1},{{2,2,1},1},{{4,4,1},2},{{3,2,1},2},{{4,1,1},2},{{2,4,1},3}}, B3{{{1,1,1},1},{{2,2,2},1},{{4,2,2},2},{{2,3,4},2},{{4,4,2},3}};
    std::vector<int> R= T? std::vector<int>{2,3,4,5} : std::vector<int>{2,3};
    if(mode=="sched"){ B2={{{2,2,1},1}}; B3={{{2,2,2},1}}; P2={{0,0,0},{1,1,0}}; P3={{1,1,1}}; R={2,3}; }
    for(auto& p : P2){ tc.push_back({dom(2,1,3,{2,2,1},p), mode=="sched"? 1 : T?6:3, R, B2}); tc.push_back({dom(2,2,4,{3,2,1},p), mode=="sched"?1:T?4:2, R, B2}); tc.push_back({dom(2,1,3,{1,2,1},p), mode=="sched"?1:T?5:3, R, B2}); }
    for(auto& p : P2) tc.push_back({dom(2,1,3,{2,1,1},p), mode=="sched"?1:T?4:3, {3,5}, B2}); // fewer octants than processes
    for(auto& p : P3){ tc.push_back({dom(3,1,3,{2,2,2},p), mode=="sched"?1:T?2:1, R, B3}); tc.push_back({dom(3,1,3,{2,1,2},p), mode=="sched"?1:T?3:2, R, B3}); tc.push_back({dom(3,2,3,{3,2,1},p), mode=="sched"?1:T?3:1, R, B3}); }
    if(mode!="sched"){
      for(auto& t : tc) all_trees(t.D,t.maxref,[&](const Mesh& m0,const History& h){ for(int n : t.ranks){
        for(auto& hh : partitions(m0,h,n)){
          if(!c.begin(mc::cat(mode," ",t.D.str()," ranks=",n," | ",ref::str(hh)))) continue;
          std::vector<Err> errs(n); 
          auto r=run_history(t.D,n,hh,[&](int rank,AMRmesh& am,const Mesh& rm){ for(auto& bg : t.bg){ 
            exchange_probe<GhostCommunicator>(rank,am,rm,bg,mode=="reduce",errs[rank]);
            struct Full : GhostCommunicator_full_blocks { Full(const AMRmesh& m,const ForeachCell::CellArray_global_ghosted::Shape_t& s,int g) : GhostCommunicator_full_blocks(m.getMesh(),s,g){} using GhostCommunicator_full_blocks::getNumGhosts; using GhostCommunicator_full_blocks::exchange_ghosts; using GhostCommunicator_full_blocks::reduce_ghosts; };
            if(bg.b[0]==2 || bg.b[0]==3) { if(mode!="reduce") exchange_probe<Full>(rank,am,rm,bg,false,errs[rank]); else exchange_probe<Full>(rank,am,rm,bg,true,errs[rank]); } } });
          c.trace(); c.transition(hh.size()+t.bg.size()); c.state(mc::Hash().add(m0.hash()).add(n).str(ref::str(hh)).h);
          if(!r.ok) c.violation(r.kind+":"+key(t.D,n),r.error);
          else for(auto& e : errs) if(!e.key.empty()){ c.violation(e.key+":"+key(t.D,n),e.msg); break; }
          if(c.traces%499==1) c.sample(c.desc());
        } } });
      return;
    }
    // ---- sched: adapt + load balance + exchange + reduce under every explored schedule and buffering mode gives the result of the default one
    for(auto& t : tc) all_trees(t.D,t.maxref,[&](const Mesh& m0,const History& h){ for(int n : t.ranks){
      std::vector<History> hs; { History h2=h; Op o; o.k=Op::LB; h2.push_back(o); Op a; for(auto& q : m0.leaves) a.markers.push_back(q.l>t.D.lmin?-1:q.l<t.D.lmax&&q.x==0?1:0); h2.push_back(a); h2.push_back(o); hs.push_back(h2); }
      for(auto& hh : hs) if(can_run(t.D,hh,n)) for(int md : T? std::vector<int>{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15} : std::vector<int>{0,3,4,15}){
        fmpi::Options o; o.late_send=md&1; o.late_recv=md&2; o.sync_send=md&4; o.reverse_reduce=md&8;
        if(!c.begin(mc::cat("sched ",t.D.str()," ranks=",n," mode=",md," | ",ref::str(hh)))) continue;
        std::vector<std::vector<double>> base;
        auto exec=[&](const fmpi::Options& op, std::vector<std::vector<double>>& out){
          out.assign(n,{});
          return run_history(t.D,n,hh,[&](int rank,AMRmesh& am,const Mesh& rm){
            auto lo=local_octs(am,rm.D), gh=ghost_octs(am,rm.D); auto& w=out[rank];
            for(auto& o : lo){ w.push_back(o.l); w.push_back(o.x); w.push_back(o.y); w.push_back(o.z); }
            Block b=t.bg[0].b; ConfigMap cm(ini(rm.D,b)); ForeachCell fc(am,cm); UserData U(cm,fc); U.new_fields({"a","b"}); UserData::FieldAccessor A=U.getAccessor({{"a",0},{"b",1}});
            for(uint32_t o=0;o<lo.size();o++) for(uint32_t l=0;l<ncell(b);l++) for(int f=0;f<2;f++) A.at(ForeachCell::CellIndex{{o,false},l%b[0],(l/b[0])%b[1],l/b[0]/b[1],b[0],b[1],b[2]},f)=val(cell_of(b,lo[o],l),f);
            GhostCommunicator gc(am,U.getShape(),1); gc.exchange_ghosts(A); gc.reduce_ghosts(A);
            std::map<Oct,uint32_t> gi; for(uint32_t i=0;i<gh.size();i++) gi[gh[i]]=i;
            for(int g=0;g<2;g++) for(uint32_t q=0;q<(g?gh.size():lo.size());q++){ uint32_t o=q; if(g){ auto it=gi.begin(); std::advance(it,q); o=it->second; }
              for(uint32_t l=0;l<ncell(b);l++) for(int f=0;f<2;f++) w.push_back(A.at(ForeachCell::CellIndex{{o,g!=0},l%b[0],(l/b[0])%b[1],l/b[0]/b[1],b[0],b[1],b[2]},f)); }
          },op); };
        auto r0=exec({},base); if(!r0.ok){ c.violation(r0.kind+":"+key(t.D,n),r0.error); continue; }
        mc::DfsChooser ch(T?2:1); o.chooser=&ch; o.preempt=true; bool bad=false; uint64_t cap=T?4000:400, ex=0; bool more=true;
        do { ch.restart(); std::vector<std::vector<double>> out; auto r=exec(o,out); ex++; c.trace(); c.transition(r.switches+1);
          if(!r.ok){ c.violation(r.kind+":"+key(t.D,n),mc::cat("schedule ",ch.str(),": ",r.error)); bad=true; }
          else if(out!=base){ c.violation("result:"+key(t.D,n),mc::cat("schedule ",ch.str()," gives a result different from the default schedule")); bad=true; }
          c.progress(); more=ch.next();
        } while(more && !bad && ex<cap);
        if(more && !bad) c.count("schedule_trees_truncated"); else c.count("schedule_trees_complete");
        c.count("schedules",ex); c.count("max_schedules_per_case",0); c.state(mc::Hash().str(c.desc()).h);
        if(c.traces%97==1) c.sample(c.desc());
      } } });
  });
}
