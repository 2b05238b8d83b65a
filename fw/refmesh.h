// Reference model of the block-AMR mesh: a plain set of leaves on an integer lattice.
// Written from the documented semantics only (2:1 balance across faces, edges and corners,
// families coarsen together, refinement wins over coarsening); shares no code with dyablo.
#pragma once
#include <array>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "mc.h"

namespace ref {

struct Oct {
  int l = 0; uint32_t x = 0, y = 0, z = 0;
  bool operator==(const Oct& o) const { return l==o.l && x==o.x && y==o.y && z==o.z; }
  bool operator!=(const Oct& o) const { return !(*this==o); }
  bool operator<(const Oct& o) const { return std::tie(l,x,y,z) < std::tie(o.l,o.x,o.y,o.z); }
  uint32_t c(int d) const { return d==0?x:d==1?y:z; }
};

inline std::string str(const Oct& o){ return mc::cat("L",o.l,"(",o.x,",",o.y,",",o.z,")"); }

/// interleave, bit by bit (independent from the table/magic-number version of the code)
inline uint64_t zorder(uint32_t x, uint32_t y, uint32_t z){
  uint64_t r = 0;
  for(int b=0;b<21;b++) r |= (uint64_t((x>>b)&1) << (3*b)) | (uint64_t((y>>b)&1) << (3*b+1)) | (uint64_t((z>>b)&1) << (3*b+2));
  return r;
}

struct Domain {
  int dim = 2; int lmin = 1, lmax = 3;
  std::array<uint32_t,3> coarse{2,2,1};
  std::array<bool,3> per{false,false,false};
  uint32_t count(int d, int l) const { return d<dim ? coarse[d] << (l-lmin) : 1; }
  std::string str() const { return mc::cat(dim,"D coarse=",coarse[0],"x",coarse[1],"x",coarse[2]," levels=",lmin,"-",lmax," periodic=",per[0],per[1],per[2]); }
};

struct Mesh {
  Domain D;
  std::vector<Oct> leaves; // in Z-order

  static Mesh initial(const Domain& D){
    Mesh m; m.D = D;
    for(uint32_t z=0; z<(D.dim==3?D.coarse[2]:1); z++) for(uint32_t y=0;y<D.coarse[1];y++) for(uint32_t x=0;x<D.coarse[0];x++) m.leaves.push_back({D.lmin,x,y,z});
    m.sort(); return m;
  }
  uint64_t key(const Oct& o) const { int s = D.lmax-o.l; return zorder(o.x<<s, o.y<<s, D.dim==3 ? o.z<<s : 0); }
  void sort(){ std::sort(leaves.begin(), leaves.end(), [&](const Oct&a,const Oct&b){ uint64_t ka=key(a), kb=key(b); return ka!=kb ? ka<kb : a.l<b.l; }); }
  size_t size() const { return leaves.size(); }
  uint64_t hash() const { mc::Hash h; h.add(D.dim).add(D.lmin).add(D.lmax).add(D.coarse).add(D.per); for(auto& o : leaves) h.add(o.l).add(o.x).add(o.y).add(o.z); return h.h; }
  std::string str() const { std::string s; for(auto& o : leaves) s += ref::str(o) + " "; return s; }

  // box of the leaf on the finest lattice: [lo, hi) ; extra resolution bit so that half-size neighbours exist on the lattice
  long lo(const Oct& o, int d) const { return d<D.dim ? (long)o.c(d) << (D.lmax+1-o.l) : 0; }
  long hi(const Oct& o, int d) const { return d<D.dim ? (long)(o.c(d)+1) << (D.lmax+1-o.l) : 1; }
  long extent(int d) const { return d<D.dim ? (long)D.count(d,D.lmax) << 1 : 1; }

  /// every periodic translation
  template<class F> void images(F f) const {
    for(int iz=(D.dim==3&&D.per[2]?-1:0); iz<=(D.dim==3&&D.per[2]?1:0); iz++)
    for(int iy=(D.per[1]?-1:0); iy<=(D.per[1]?1:0); iy++)
    for(int ix=(D.per[0]?-1:0); ix<=(D.per[0]?1:0); ix++) f(std::array<long,3>{ix*extent(0),iy*extent(1),iz*extent(2)});
  }
  /// do the closed boxes of a and b (any periodic image of b) touch? (a==b through an image counts)
  // (directions are independent: the boxes touch if they do so in every direction for some image)
  bool touch(const Oct& a, const Oct& b) const {
    bool same = a==b, moved=false;
    for(int d=0;d<D.dim;d++){ long al=lo(a,d), ah=hi(a,d), bl=lo(b,d), bh=hi(b,d), e=D.per[d]?extent(d):0; bool t=false;
      for(long s : {0L,-e,e}) if(ah >= bl+s && bh+s >= al){ t=true; if(s) moved=true; }
      if(!t) return false; }
    return !same || moved;
  }
  bool balanced() const {
    for(size_t i=0;i<leaves.size();i++) for(size_t j=i+1;j<leaves.size();j++)
      if(std::abs(leaves[i].l-leaves[j].l)>1 && touch(leaves[i],leaves[j])) return false;
    return true;
  }
  bool tiles() const { // volumes add up and no duplicates/overlaps
    unsigned __int128 vol=0, tot=1; for(int d=0;d<D.dim;d++) tot*=D.count(d,D.lmax);
    uint64_t next=0; bool ok=true; (void)next;
    for(size_t i=0;i<leaves.size();i++){ auto& o=leaves[i]; if(o.l<D.lmin||o.l>D.lmax) return false; for(int d=0;d<D.dim;d++) if(o.c(d)>=D.count(d,o.l)) return false; if(D.dim==2&&o.z!=0) return false;
      vol += (unsigned __int128)1 << (D.dim*(D.lmax-o.l));
      if(i && key(leaves[i]) < key(leaves[i-1]) + ((uint64_t)1 << (3*(D.lmax-leaves[i-1].l)))) ok=false; }
    return ok && vol==tot;
  }
  /// leaves seen from `o` in direction `off`: they meet o's closed box and overlap the same-size virtual box at that offset
  std::vector<int> neighbors(const Oct& o, std::array<int,3> off) const {
    std::vector<int> r; long w = hi(o,0)-lo(o,0);
    for(size_t j=0;j<leaves.size();j++){ const Oct& b=leaves[j]; bool hit=true;
      for(int d=0;d<D.dim && hit;d++){ long vl=lo(o,d)+off[d]*w, vh=vl+w, e=D.per[d]?extent(d):0; bool t=false;
        for(long s : {0L,-e,e}){ long bl=lo(b,d)+s, bh=hi(b,d)+s; if(vl<bh && bl<vh && hi(o,d)>=bl && bh>=lo(o,d)) t=true; } // overlaps the virtual neighbour and touches o
        hit=t; }
      if(hit) r.push_back((int)j); }
    return r;
  }
  bool outside(const Oct& o, std::array<int,3> off) const {
    for(int d=0;d<D.dim;d++){ long p=(long)o.c(d)+off[d]; if(!D.per[d] && (p<0 || p>=(long)D.count(d,o.l))) return true; }
    return false;
  }
  int find(const Oct& o) const { for(size_t i=0;i<leaves.size();i++) if(leaves[i]==o) return (int)i; return -1; }

  /// smallest markers >= request that give a valid mesh
  std::vector<int> correct(std::vector<int> m) const {
    size_t n=leaves.size();
    std::vector<std::vector<int>> adj(n);
    for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) if(i!=j && touch(leaves[i],leaves[j])) adj[i].push_back((int)j);
    std::vector<std::vector<int>> fam(n);
    for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) if(leaves[j].l==leaves[i].l && leaves[i].l>D.lmin && leaves[j].x/2==leaves[i].x/2 && leaves[j].y/2==leaves[i].y/2 && leaves[j].z/2==leaves[i].z/2) fam[i].push_back((int)j);
    bool ch=true;
    while(ch){ ch=false;
      for(size_t i=0;i<n;i++){
        if(m[i]==-1){ bool ok = fam[i].size()==(size_t)(1<<D.dim); for(int j : fam[i]) if(m[j]!=-1) ok=false; if(!ok){ m[i]=0; ch=true; } }
        for(int j : adj[i]) if(leaves[i].l+m[i] < leaves[j].l+m[j]-1){ m[i]=leaves[j].l+m[j]-1-leaves[i].l; ch=true; }
      } }
    return m;
  }
  /// apply corrected markers; owner (optional): rank owning each leaf -> rank owning each new leaf
  Mesh apply(const std::vector<int>& m, const std::vector<int>* owner=nullptr, std::vector<int>* new_owner=nullptr) const {
    Mesh r; r.D=D; std::vector<std::pair<Oct,int>> v;
    for(size_t i=0;i<leaves.size();i++){ const Oct& o=leaves[i]; int w = owner?(*owner)[i]:0;
      if(m[i]==0) v.push_back({o,w});
      else if(m[i]==1){ for(int k=0;k<(1<<D.dim);k++) v.push_back({Oct{o.l+1,o.x*2+(k&1),o.y*2+((k>>1)&1),D.dim==3?o.z*2+((k>>2)&1):0},w}); }
      else if(o.x%2==0&&o.y%2==0&&o.z%2==0) v.push_back({Oct{o.l-1,o.x/2,o.y/2,o.z/2},w}); }
    std::sort(v.begin(),v.end(),[&](auto&a,auto&b){return r.key(a.first)<r.key(b.first);});
    for(auto& p : v){ r.leaves.push_back(p.first); if(new_owner) new_owner->push_back(p.second); }
    return r;
  }
  Mesh adapt(const std::vector<int>& req) const { return apply(correct(req)); }
};

/// one operation of a mesh history
struct Op { enum K { ADAPT, LB } k = ADAPT; std::vector<int> markers; int compact = 0; };
using History = std::vector<Op>;
/// load balancing refuses to leave a process without octants
inline bool can_run(const Domain& D, const History& h, int n){ Mesh m=Mesh::initial(D); for(auto& o : h){ if(o.k==Op::ADAPT) m=m.adapt(o.markers); else if(m.size()<(size_t)n) return false; } return true; }
inline std::string str(const History& h){ std::string s; for(auto& o : h){ if(o.k==Op::LB) s += mc::cat("lb",o.compact," "); else { s+="adapt:"; for(int m : o.markers) s += m<0?'-':m>0?'+':'0'; s+=" "; } } if(!s.empty()) s.pop_back(); return s; }

inline History parse(const std::string& s){ History h; std::istringstream is(s); std::string t; while(is>>t){ Op o; if(t[0]=='l'){ o.k=Op::LB; o.compact=std::stoi(t.substr(2)); } else for(char c : t.substr(6)) o.markers.push_back(c=='-'?-1:c=='+'?1:0); h.push_back(o);} return h; }

/// All 2:1 balanced trees over a coarse grid with at most `depth` refinements, up to `max_refined` refined octants in total,
/// given as refine-only histories. Enumeration is level by level and complete within the bounds.
inline void all_trees(const Domain& D, int max_refined, const std::function<void(const Mesh&, const History&)>& f){
  std::set<uint64_t> seen;
  std::function<void(const Mesh&, const History&, int)> rec = [&](const Mesh& m, const History& h, int used){
    if(seen.insert(m.hash()).second) f(m,h);
    int level = D.lmin + (int)h.size(); if(level >= D.lmax) return;
    // candidates: leaves created by the previous step (level == current)
    std::vector<int> cand; for(size_t i=0;i<m.size();i++) if(m.leaves[i].l==level) cand.push_back((int)i);
    std::vector<int> mk(m.size(),0);
    std::function<void(size_t,int)> pick = [&](size_t k, int n){
      if(k==cand.size()){ if(n==0) return; if(m.correct(mk)!=mk) return; /* would add refinements: not this tree */
        History h2=h; Op o; o.markers=mk; h2.push_back(o); Mesh m2=m.apply(mk); rec(m2,h2,used+n); return; }
      pick(k+1,n);
      if(used+n<max_refined){ mk[cand[k]]=1; pick(k+1,n+1); mk[cand[k]]=0; }
    };
    pick(0,0);
  };
  rec(Mesh::initial(D), {}, 0);
}

/// All marker vectors within the level bounds having at most `dev` entries different from `base` (base in {-1,0,1} clamped)
inline void all_markers(const Mesh& m, int base, int dev, const std::function<void(const std::vector<int>&)>& f){
  size_t n=m.size(); std::vector<int> lo(n),hi(n),mk(n);
  for(size_t i=0;i<n;i++){ lo[i]= m.leaves[i].l>m.D.lmin?-1:0; hi[i]= m.leaves[i].l<m.D.lmax?1:0; mk[i]=std::min(hi[i],std::max(lo[i],base)); }
  std::function<void(size_t,int)> rec=[&](size_t i,int d){
    if(i==n){ f(mk); return; }
    rec(i+1,d);
    if(d<dev){ int b=mk[i]; for(int v=lo[i];v<=hi[i];v++) if(v!=b){ mk[i]=v; rec(i+1,d+1); } mk[i]=b; }
  };
  rec(0,0);
}

} // namespace ref
