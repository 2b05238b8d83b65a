// Mesh properties: adaptation, rank independence, neighbour queries, ghost layer, load balance, location.
// Explores histories of adapt / load-balance operations on small domains, each replayed on the real AMRmesh.
#include "dy.h"
#include <cstring>
using namespace ref;

struct View { // what one rank reports
  std::vector<Oct> local, ghost; std::vector<int> bound; uint64_t g0=0, gend=0, gtot=0; std::string err; std::string errkey;
};
struct Outcome { fmpi::Result r; std::vector<View> v; };

static void snapshot(dy::AMRmesh& m, const Domain& D, View& v){
  v.local.clear(); v.ghost.clear();
  for(uint32_t i=0;i<m.getNumOctants();i++) v.local.push_back(dy::local_oct(m,D,i));
  for(uint32_t i=0;i<m.getNumGhosts();i++) v.ghost.push_back(dy::ghost_oct(m,D,i));
  v.g0=m.getGlobalIdx(0); v.gend=m.getGlobalIdx(m.getNumOctants()); v.gtot=m.getGlobalNumOctants();
}

using Probe = std::function<void(int rank, dy::AMRmesh&, const Mesh& rm, View&)>;

static Outcome execute(const Domain& D, int nranks, const History& h, const Probe& probe = {}, const fmpi::Options& opt = {}){
  Outcome o; o.v.resize(nranks);
  // the corrected model trajectory is computed once
  std::vector<Mesh> traj; traj.push_back(Mesh::initial(D)); for(auto& op : h) traj.push_back(op.k==Op::ADAPT ? traj.back().adapt(op.markers) : traj.back());
  o.r = fmpi::run(nranks, [&](int rank){
    auto m = dy::make_mesh(D);
    for(size_t i=0;i<h.size();i++){
      if(h[i].k==Op::ADAPT){ dy::set_markers(*m,traj[i],h[i].markers); m->adapt(); }
      else m->loadBalance((uint8_t)h[i].compact);
    }
    snapshot(*m,D,o.v[rank]);
    if(probe) probe(rank,*m,traj.back(),o.v[rank]);
  }, opt);
  return o;
}

static Mesh final_mesh(const Domain& D, const History& h){ Mesh m=Mesh::initial(D); for(auto& op : h) if(op.k==Op::ADAPT) m=m.adapt(op.markers); return m; }
static std::string short_key(const Domain& D, int n){ return mc::cat(D.dim,"D,coarse=",D.coarse[0],"x",D.coarse[1],"x",D.coarse[2],",per=",D.per[0],D.per[1],D.per[2],",ranks=",n); }

/// the distributed mesh is the reference mesh, cut in Z-order
static bool check_mesh(mc::Ctx& c, const Domain& D, int n, const Outcome& o, const Mesh& rm){
  std::string k = short_key(D,n);
  if(!o.r.ok){ c.violation(o.r.kind+":"+k, o.r.error); return false; }
  std::vector<Oct> all; uint64_t g=0;
  for(int r=0;r<n;r++){ auto& v=o.v[r];
    if(v.gtot != rm.size()) { c.violation("global_count:"+k, mc::cat("rank ",r," reports ",v.gtot," octants in total, expected ",rm.size())); return false; }
    if(v.g0 != g || v.gend != g+v.local.size()) { c.violation("global_index:"+k, mc::cat("rank ",r," starts at global index ",v.g0,", expected ",g)); return false; }
    g += v.local.size(); all.insert(all.end(), v.local.begin(), v.local.end()); }
  if(all != rm.leaves){ Mesh t; t.D=D; t.leaves=all; c.violation("mesh:"+k, "got " + t.str() + " expected " + rm.str()); return false; }
  return true;
}

static bool check_ghosts(mc::Ctx& c, const Domain& D, int n, const Outcome& o, const Mesh& rm){
  std::string k = short_key(D,n);
  std::map<Oct,int> owner; for(int r=0;r<n;r++) for(auto& x : o.v[r].local) owner[x]=r;
  bool ok=true;
  for(int r=0;r<n && ok;r++){ auto& v=o.v[r];
    std::map<Oct,int> have; for(auto& g : v.ghost){ if(++have[g]>1){ c.violation("ghost_duplicate:"+k, mc::cat("rank ",r," holds ghost ",str(g)," twice")); ok=false; }
      auto it=owner.find(g); if(it==owner.end() || it->second==r){ c.violation("ghost_bogus:"+k, mc::cat("rank ",r," holds ghost ",str(g)," which is ",it==owner.end()?"not a leaf":"its own octant")); ok=false; } }
    for(auto& p : owner) if(p.second!=r && !have.count(p.first)){ bool need=false; for(auto& a : v.local) if(rm.touch(a,p.first)) { need=true; break; }
      if(need){ c.violation("ghost_missing:"+k, mc::cat("rank ",r," has no ghost for adjacent octant ",str(p.first)," of rank ",p.second)); ok=false; break; } }
  }
  return ok;
}

template<class LM> static void probe_neighbors_with(const LM& lm, const Domain& D, const Mesh& rm, dy::AMRmesh& m, View& v, const char* impl){
  using OI = dyablo::LightOctree_base::OctantIndex;
  auto fail=[&](const std::string& key, const std::string& msg){ if(v.err.empty()){ v.errkey=key; v.err=std::string(impl)+": "+msg; } };
  if(lm.getNumOctants()!=v.local.size() || lm.getNumGhosts()!=v.ghost.size() || lm.getNdim()!=D.dim) fail("counts","octant counts differ from the mesh");
  for(uint32_t t=0;t<v.local.size()+v.ghost.size() && v.err.empty();t++){
    bool gh = t>=v.local.size(); OI io{gh? t-(uint32_t)v.local.size():t, gh}; Oct a = gh? v.ghost[io.iOct]:v.local[io.iOct];
    if(lm.getLevel(io)!=a.l) fail("level","wrong level for "+str(a));
    auto corner=lm.getCorner(io), center=lm.getCenter(io), size=lm.getSize(io);
    for(int d=0;d<D.dim;d++){ double s=1.0/D.count(d,a.l); if(std::abs(corner[d]-a.c(d)*s)>1e-13||std::abs(size[d]-s)>1e-13||std::abs(center[d]-(a.c(d)+0.5)*s)>1e-13) fail("position","wrong position for "+str(a)); }
    { bool edge=false, wall=false; for(int d=0;d<D.dim;d++) if(a.c(d)==0 || a.c(d)==D.count(d,a.l)-1){ edge=true; if(!D.per[d]) wall=true; } bool b=lm.getBound(io); if((wall && !b) || (!edge && b)) fail("bound",mc::cat("getBound of ",str(a)," is ",b)); }
    if(gh) continue;
    for(int dz=(D.dim==3?-1:0);dz<=(D.dim==3?1:0);dz++) for(int dy=-1;dy<=1;dy++) for(int dx=-1;dx<=1;dx++){
      if(!dx&&!dy&&!dz){ auto ns=lm.findNeighbors(io,{0,0,0}); if(ns.size()!=1 || ns[0].isGhost || ns[0].iOct!=io.iOct) fail("self","the neighbour of "+str(a)+" at offset 0 is not itself"); if(lm.isBoundary(io,{0,0,0})) fail("self","offset 0 of "+str(a)+" is a boundary"); continue; }
      std::array<int,3> off{dx,dy,dz}; dyablo::LightOctree_base::offset_t o8{(int8_t)dx,(int8_t)dy,(int8_t)dz};
      bool out=rm.outside(a,off); std::string where=mc::cat(str(a)," offset (",dx,",",dy,",",dz,")");
      if(lm.isBoundary(io,o8)!=out) fail("boundary","isBoundary wrong for "+where);
      auto ns=lm.findNeighbors(io,o8);
      std::vector<Oct> got; bool valid=true;
      for(int q=0;q<ns.size();q++){ auto ni=ns[q]; if(ni.iOct >= (ni.isGhost?v.ghost.size():v.local.size())) { valid=false; break; } got.push_back(ni.isGhost? v.ghost[ni.iOct]:v.local[ni.iOct]); }
      if(!valid || ns.size()>4) { fail("neighbor_index","invalid neighbour index for "+where); continue; }
      std::vector<Oct> exp; if(!out) for(int j : rm.neighbors(a,off)) exp.push_back(rm.leaves[j]);
      auto g2=got, e2=exp; std::sort(g2.begin(),g2.end()); std::sort(e2.begin(),e2.end());
      if(g2!=e2){ std::string s1,s2; for(auto& x:got) s1+=str(x)+" "; for(auto& x:exp) s2+=str(x)+" "; fail("neighbors","neighbours of "+where+": got "+s1+"expected "+s2); }
    }
  }
  (void)m;
}

static void probe_neighbors(int, dy::AMRmesh& m, const Mesh& rm, View& v){
  const Domain& D=rm.D;
  for(uint32_t i=0;i<v.local.size() && v.err.empty();i++){ bool b=false; for(int d=0;d<D.dim;d++) if(!D.per[d] && (v.local[i].c(d)==0 || v.local[i].c(d)==D.count(d,v.local[i].l)-1)) b=true; if(m.getBound(i)!=b){ v.errkey="bound"; v.err=mc::cat("getBound of ",str(v.local[i])," is ",!b); } }
  probe_neighbors_with(m.getLightOctree(), D, rm, m, v, "octree");
  dyablo::LightOctree_hashmap_precompute pre(&m.getMesh(), D.lmin, D.lmax);
  probe_neighbors_with(pre, D, rm, m, v, "precomputed octree");
}

static void probe_location(const std::map<Oct,int>* owner, int rank, dy::AMRmesh& m, const Mesh& rm, View& v){
  const Domain& D=rm.D; const auto& lm=m.getLightOctree();
  auto fail=[&](const std::string& key, const std::string& msg){ if(v.err.empty()){ v.errkey=key; v.err=msg; } };
  const double frac[3]={1e-6,0.5,1-1e-6};
  for(auto& p : *owner){ const Oct& a=p.first;
    // sub-cells of the finest level inside a (first, last), three relative positions in each direction
    uint32_t s=1u<<(D.lmax-a.l); std::vector<uint32_t> sub{0}; if(s>1) sub.push_back(s-1);
    for(uint32_t sz : (D.dim==3?sub:std::vector<uint32_t>{0})) for(uint32_t sy : sub) for(uint32_t sx : sub) for(int f=0;f<(D.dim==3?27:9);f++){
      double fr[3]={frac[f%3],frac[(f/3)%3],frac[f/9]}; uint32_t su[3]={sx,sy,sz};
      Kokkos::Array<double,3> pos{0,0,0}; for(int d=0;d<D.dim;d++) pos[d]=((double)a.c(d)*s+su[d]+fr[d])/D.count(d,D.lmax);
      int dom=lm.getDomainFromPos({pos[0],pos[1],pos[2]});
      if(dom!=p.second) { fail("domain", mc::cat("position (",pos[0],",",pos[1],",",pos[2],") in ",str(a)," is owned by rank ",p.second,", got ",dom)); return; }
      if(p.second==rank){ auto io=lm.getiOctFromPos({pos[0],pos[1],pos[2]}); Oct g; if(io.iOct < (io.isGhost?v.ghost.size():v.local.size())) g = io.isGhost? v.ghost[io.iOct]:v.local[io.iOct]; 
        if(g!=a || io.isGhost){ fail("octant_at", mc::cat("position (",pos[0],",",pos[1],",",pos[2],") is in ",str(a),", got ",str(g))); return; } }
    } }
}

// ---------------------------------------------------------------- enumeration

/// all histories of at most `depth` adapt operations; next markers enumerated exhaustively up to 3^n<=full, else by deviations
struct AdaptEnum { int depth; size_t full; int dev; size_t maxleaves; };
static void enum_adapt(const Domain& D, const AdaptEnum& p, const std::function<void(const Mesh&, const History&, const std::vector<int>&)>& f){
  std::set<uint64_t> seen; std::vector<std::pair<Mesh,History>> layer{{Mesh::initial(D),{}}}; seen.insert(layer[0].first.hash());
  for(int d=0; d<p.depth; d++){
    std::vector<std::pair<Mesh,History>> next;
    for(auto& sh : layer){
      const Mesh& m=sh.first; if(m.size()>p.maxleaves) continue;
      std::set<std::vector<int>> done;
      auto visit=[&](const std::vector<int>& mk){ if(!done.insert(mk).second) return; f(m,sh.second,mk);
        if(d+1<p.depth){ Mesh m2=m.adapt(mk); if(seen.insert(m2.hash()).second){ History h=sh.second; Op o; o.markers=mk; h.push_back(o); next.push_back({m2,h}); } } };
      double combos=1; for(auto& o : m.leaves) combos *= 1+(o.l>D.lmin)+(o.l<D.lmax);
      if(combos<=(double)p.full) all_markers(m,0,(int)m.size(),visit);
      else for(int b : {0,-1,1}) all_markers(m,b,p.dev,visit);
    }
    layer.swap(next);
  }
}

/// deep narrow trees: at every level the leaf holding a target point is refined (plus what 2:1 balance asks for).
/// The target is given per direction by a bit pattern: 0 = 000.., 1 = 111.., 2 = 0111.. (just below the middle), 3 = 1000.. (just above), 4 = 0101.. (a third)
static void deep_paths(const Domain& D, const std::vector<int>& patterns, const std::function<void(const Mesh&, const History&)>& f){
  int np=(int)patterns.size(), tot=1; for(int d=0;d<D.dim;d++) tot*=np;
  for(int k=0;k<tot;k++){ int pat[3]={patterns[k%np],patterns[(k/np)%np],D.dim==3?patterns[k/np/np]:0};
    uint32_t pt[3]={0,0,0}; for(int d=0;d<D.dim;d++){ uint32_t n=D.count(d,D.lmax); // position on the finest lattice
      pt[d] = pat[d]==0?0: pat[d]==1?n-1: pat[d]==2?n/2-1: pat[d]==3?n/2: n/3; }
    Mesh m=Mesh::initial(D); History h;
    for(int l=D.lmin;l<D.lmax;l++){ Op o; o.markers.assign(m.size(),0); for(size_t i=0;i<m.size();i++){ bool in=m.leaves[i].l==l; for(int d=0;d<D.dim;d++) if((pt[d]>>(D.lmax-l))!=m.leaves[i].c(d)) in=false; if(in) o.markers[i]=1; }
      h.push_back(o); m=m.adapt(o.markers); }
    f(m,h); }
}

static Domain dom(int dim,int lmin,int lmax,std::array<uint32_t,3> cg,std::array<bool,3> per){ Domain D; D.dim=dim; D.lmin=lmin; D.lmax=lmax; D.coarse=cg; D.per=per; return D; }

int main(int argc, char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init();
    bool T=c.thorough;
    std::vector<std::array<bool,3>> P2{{0,0,0},{1,0,0},{0,1,0},{1,1,0}}, P3{{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,1}};
    if(mode=="adapt"){
      // M01: serial. every reachable mesh x every marker vector (within bounds)
      struct Cfg{Domain D; AdaptEnum e;}; std::vector<Cfg> cfg;
      for(auto& p : P2){
        cfg.push_back({dom(2,1,3,{2,2,1},p), {3, T?20000u:1500u, T?3:1, T?30u:22u}});
        cfg.push_back({dom(2,0,3,{1,1,1},p), {4, T?20000u:1000u, T?2:1, T?30u:19u}});
        cfg.push_back({dom(2,2,4,{3,2,1},p), {2, T?20000u:800u, T?3:2, 30}});
        cfg.push_back({dom(2,1,3,{1,2,1},p), {3, T?20000u:800u, T?2:1, T?30u:17u}});
      }
      for(auto& p : P3){
        cfg.push_back({dom(3,0,2,{1,1,1},p), {3, T?7000u:300u, T?2:1, T?40u:24u}});
        cfg.push_back({dom(3,1,3,{2,1,1},p), {3, T?7000u:300u, T?2:1, T?30u:16u}});
        cfg.push_back({dom(3,1,2,{2,2,2},p), {2, T?7000u:300u, T?2:1, T?40u:24u}});
        cfg.push_back({dom(3,2,3,{3,2,1},p), {2, T?7000u:100u, T?2:1, 20}});
      }
      for(auto& g : cfg) enum_adapt(g.D,g.e,[&](const Mesh& m,const History& h,const std::vector<int>& mk){
        History h2=h; Op o; o.markers=mk; h2.push_back(o);
        if(!c.begin(mc::cat("M01 ",g.D.str()," | ",str(h2)))) return;
        Mesh rm=m.adapt(mk); if(!rm.tiles()||!rm.balanced()){ fprintf(stderr,"reference model invalid\n"); _Exit(3); }
        Outcome o1=execute(g.D,1,h2,[&](int,dy::AMRmesh& am,const Mesh&,View& v){
          // an adaptation without requests changes nothing
          am.adapt(); View v2; snapshot(am,g.D,v2); if(v2.local!=v.local){ v.errkey="idempotent"; v.err="adapt() without markers modified the mesh"; } });
        c.transition(h2.size()+1); c.trace(); c.state(m.hash()); c.state(rm.hash());
        if(check_mesh(c,g.D,1,o1,rm) && !o1.v[0].err.empty()) c.violation(o1.v[0].errkey+":"+short_key(g.D,1), o1.v[0].err);
        if(c.traces%997==1) c.sample(c.desc()+" -> "+rm.str());
      });
      // deep trees down to the finest representable levels, then coarsened back to the start
      std::vector<Domain> deep; int LD=T?20:14;
      for(auto& p : P2) { deep.push_back(dom(2,0,LD,{1,1,1},p)); deep.push_back(dom(2,1,LD,{2,1,1},p)); deep.push_back(dom(2,2,LD-1,{3,2,1},p)); }
      for(auto& p : T? P3 : std::vector<std::array<bool,3>>{{0,0,0},{1,1,1}}) { deep.push_back(dom(3,0,T?8:6,{1,1,1},p)); deep.push_back(dom(3,1,T?7:6,{2,1,1},p)); }
      for(auto& D : deep) deep_paths(D, D.dim==2? std::vector<int>{0,1,2,3,4}:T? std::vector<int>{0,1,2,4}:std::vector<int>{0,2,4}, [&](const Mesh& m,const History& h){
        for(int back=0;back<2;back++){
          History h2=h; Mesh rm=m; if(back) for(int q=D.lmin;q<D.lmax;q++){ Op o; for(auto& x : rm.leaves) o.markers.push_back(x.l>D.lmin?-1:0); h2.push_back(o); rm=rm.adapt(o.markers); }
          if(!c.begin(mc::cat("M01 deep ",D.str()," | ",str(h2)))) continue;
          if(!rm.tiles() || (back? rm.leaves!=Mesh::initial(D).leaves : !rm.balanced())){ fprintf(stderr,"reference model invalid\n"); _Exit(3); }
          Outcome o1=execute(D,1,h2); c.transition(h2.size()); c.trace(); c.state(rm.hash());
          check_mesh(c,D,1,o1,rm);
        } });
      return;
    }
    // multi-rank histories: sequences over {adapt(markers), loadBalance(k)}
    struct Cfg{Domain D; std::vector<int> ranks; int depth; size_t full; int dev; size_t maxleaves; std::vector<int> compact;};
    std::vector<Cfg> cfg;
    auto ranks_upto=[](int n){ std::vector<int> r; for(int i=1;i<=n;i++) r.push_back(i); return r; };
    if(mode=="dist"){
      std::vector<int> R = T? std::vector<int>{2,3,4,5} : std::vector<int>{2,3,4};
      for(auto& p : T? P2 : std::vector<std::array<bool,3>>{{0,0,0},{1,1,0}}){
        cfg.push_back({dom(2,1,3,{2,2,1},p), R, T?4:3, T?100u:20u, 1, T?16u:10u, {0,1}});
        cfg.push_back({dom(2,2,3,{3,2,1},p), R, 3, 20, 1, T?16u:9u, {0,1}});
        cfg.push_back({dom(2,1,3,{2,1,1},p), {3,4,5}, T?4:3, 20, 1, T?14u:9u, {0,1}}); // fewer octants than processes at first
      }
      for(auto& p : T? P3 : std::vector<std::array<bool,3>>{{0,0,0},{1,1,1}}){
        cfg.push_back({dom(3,1,2,{2,2,2},p), R, T?3:2, 20, 1, T?22u:15u, {0,1}});
        cfg.push_back({dom(3,1,3,{2,1,2},p), R, T?3:2, 20, 1, T?18u:11u, {0,1}});
      }
    } else { // neighbors / ghosts / location / balance : all balanced trees, then rank counts, with and without redistribution
      std::vector<std::array<bool,3>> p2 = P2, p3 = T? P3 : std::vector<std::array<bool,3>>{{0,0,0},{0,1,0},{1,1,1}};
      struct TreeCfg{Domain D; int maxref; std::vector<int> ranks;}; std::vector<TreeCfg> tc;
      std::vector<int> R = mode=="neighbors" ? std::vector<int>{1,3} : mode=="location"? std::vector<int>{1,2,3} : T? std::vector<int>{2,3,4,5,7} : std::vector<int>{2,3,4};
      for(auto& p : p2){
        tc.push_back({dom(2,1,3,{2,2,1},p), T?8:4, R});
        tc.push_back({dom(2,2,4,{3,2,1},p), T?5:3, R});
        tc.push_back({dom(2,1,3,{1,2,1},p), T?8:4, R});
        tc.push_back({dom(2,0,3,{1,1,1},p), T?9:5, {1,2,4}});
      }
      for(auto& p : p3){
        tc.push_back({dom(3,1,3,{2,2,2},p), T?3:2, R});
        tc.push_back({dom(3,1,3,{2,1,2},p), T?4:2, R});
        tc.push_back({dom(3,2,3,{3,2,1},p), T?4:2, R});
      }
      std::vector<TreeCfg> deep;
      for(auto& p : p2){ deep.push_back({dom(2,0,T?20:12,{1,1,1},p), 0, R}); deep.push_back({dom(2,2,T?20:12,{3,2,1},p), 0, R}); }
      for(auto& p : T? p3 : std::vector<std::array<bool,3>>{{0,0,0},{1,1,1}}) deep.push_back({dom(3,1,T?7:5,{2,1,1},p), 0, R});
      auto visit=[&](const TreeCfg& t, const Mesh& m,const History& h){
        for(int n : t.ranks){
          std::vector<History> hs{h}; 
          if(n>1) for(int k=0;k<(mode=="balance"? t.D.lmax+1 : T?3:2);k++){ if(k>4 && k<t.D.lmax-1) continue; History h2=h; Op o; o.k=Op::LB; o.compact=k; h2.push_back(o); hs.push_back(h2); }
          if(n>1 && mode!="balance"){ // a coarsening step after redistribution can move whole families and empty a rank
            History h2=h; Op o; o.k=Op::LB; o.compact=0; h2.push_back(o); Op a; for(auto& q : m.leaves) a.markers.push_back(q.l>t.D.lmin?-1:0); h2.push_back(a); if(!h.empty()) hs.push_back(h2); }
          for(auto& hh : hs){
            const Mesh& m0=m; Mesh m = hh.empty()||hh.back().k==Op::LB||hh.size()==h.size() ? m0 : m0.adapt(hh.back().markers);
            if(mode=="balance" && (hh.empty()||hh.back().k!=Op::LB)) continue;
            if(!can_run(t.D,hh,n)) continue;
            if(!c.begin(mc::cat(mode," ",t.D.str()," ranks=",n," | ",str(hh)))) continue;
            std::string k=short_key(t.D,n);
            Outcome o;
            if(mode=="neighbors") o=execute(t.D,n,hh,probe_neighbors);
            else if(mode=="location"){ Outcome o0=execute(t.D,n,hh); if(!o0.r.ok){ c.violation(o0.r.kind+":"+k,o0.r.error); continue; }
              std::map<Oct,int> owner; for(int r=0;r<n;r++) for(auto& x : o0.v[r].local) owner[x]=r;
              o=execute(t.D,n,hh,[&](int rank,dy::AMRmesh& am,const Mesh& rm,View& v){ probe_location(&owner,rank,am,rm,v); }); }
            else o=execute(t.D,n,hh);
            c.trace(); c.transition(hh.size()); c.state(mc::Hash().add(m.hash()).add(n).add(hh.size()).add(hh.empty()?0:hh.back().compact).h);
            if(!check_mesh(c,t.D,n,o,m)) continue;
            if(mode=="ghosts") check_ghosts(c,t.D,n,o,m);
            for(int r=0;r<n;r++) if(!o.v[r].err.empty()){ c.violation(o.v[r].errkey+":"+k, mc::cat("rank ",r,": ",o.v[r].err)); break; }
            if(mode=="balance"){
              size_t N=m.size(); int comp=hh.back().compact; size_t prev=0;
              auto group=[&](size_t i){ int s=std::min(3*comp,60); return m.key(m.leaves[i])>>s; };
              size_t b=0; std::vector<size_t> starts; for(int r=0;r<n;r++){ starts.push_back(b); b+=o.v[r].local.size(); }
              for(int r=0;r<n;r++) if(o.v[r].local.empty()) { c.violation("empty_rank:"+k, mc::cat("rank ",r," owns no octant")); }
              for(int r=1;r<n && !c.current_failed();r++){
                size_t ideal=(N*r)/n, got=starts[r]; prev=starts[r-1];
                size_t gs=ideal; while(gs>0 && group(gs-1)==group(ideal)) gs--;        // start of the compact group holding the even cut
                if(got>ideal || got<gs) c.violation("cut:"+k, mc::cat("rank ",r," starts at octant ",got,", even split is ",ideal,", compact group starts at ",gs));
                else if(got!=gs && gs>prev) c.violation("compact:"+k, mc::cat("rank ",r," starts at octant ",got,": splits the compact group starting at ",gs," although rank ",r-1," starts at ",prev));
              }
            }
            if(c.traces%499==1) c.sample(c.desc());
          } } };
      for(auto& t : tc) all_trees(t.D,t.maxref,[&](const Mesh& m,const History& h){ visit(t,m,h); });
      for(auto& t : deep) deep_paths(t.D, T&&t.D.dim==2? std::vector<int>{0,1,2,3,4} : t.D.dim==2? std::vector<int>{0,2,4} : std::vector<int>{0,4}, [&](const Mesh& m,const History& h){ visit(t,m,h); });
      return;
    }
    for(auto& g : cfg) for(int n : g.ranks){
      // breadth-first over (mesh, partition as predicted by ownership inheritance), histories deduplicated
      struct St{Mesh m; std::vector<int> own; History h;}; std::set<uint64_t> seen; std::vector<St> layer;
      auto even=[&](size_t N,int k){ std::vector<int> w(N); for(size_t i=0;i<N;i++){ int r=0; while(r+1<n && (N*(r+1))/n<=i) r++; w[i]=r; } (void)k; return w; };
      auto sh=[&](const St& s){ mc::Hash h; h.add(s.m.hash()); for(int w : s.own) h.add(w); h.add(s.h.empty()?-1:s.h.back().k==Op::LB?s.h.back().compact:-1); return h.h; };
      { St s; s.m=Mesh::initial(g.D); s.own=even(s.m.size(),0); layer.push_back(s); seen.insert(sh(s)); }
      for(int d=0; d<g.depth; d++){
        std::vector<St> next;
        for(auto& s : layer){
          std::vector<std::pair<Op,St>> succ;
          auto add=[&](const Op& o){ St t; t.h=s.h; t.h.push_back(o);
            if(o.k==Op::ADAPT) t.m=s.m.apply(s.m.correct(o.markers),&s.own,&t.own); else { t.m=s.m; t.own=even(s.m.size(),o.compact); }
            succ.push_back({o,t}); };
          if(s.m.size()<=g.maxleaves){
            std::set<std::vector<int>> done; auto visit=[&](const std::vector<int>& mk){ if(done.insert(mk).second){ Op o; o.markers=mk; add(o);} };
            double combos=1; for(auto& o : s.m.leaves) combos *= 1+(o.l>g.D.lmin)+(o.l<g.D.lmax);
            if(combos<=(double)g.full) all_markers(s.m,0,(int)s.m.size(),visit); else for(int b : {0,-1,1}) all_markers(s.m,b,g.dev,visit);
          }
          if(s.m.size()>=(size_t)n && (s.h.empty() || s.h.back().k!=Op::LB)) for(int k : g.compact){ Op o; o.k=Op::LB; o.compact=k; add(o); }
          for(auto& os : succ){ St& t=os.second; bool isnew=seen.insert(sh(t)).second;
            if(isnew && d+1<g.depth) next.push_back(t);
            if(!c.begin(mc::cat("M02 ",g.D.str()," ranks=",n," | ",str(t.h)))) continue;
            Outcome o=execute(g.D,n,t.h); c.trace(); c.transition(t.h.size()); c.state(sh(t));
            if(check_mesh(c,g.D,n,o,t.m)) check_ghosts(c,g.D,n,o,t.m);
            if(c.traces%997==1) c.sample(c.desc());
          }
        }
        layer.swap(next);
      }
    }
  });
}
