// Reference cell grid (blocks of cells on the leaves of the reference mesh) and glue to the real cell containers
#pragma once
#include "dy.h"
#include "foreach_cell/ForeachCell.h"
#include "foreach_cell/ForeachCell_utils.h"
#include "UserData.h"
#include "utils/config/ConfigMap.h"

namespace dy {
using namespace dyablo;
using ref::Oct; using ref::Mesh; using ref::Domain; using ref::History; using ref::Op;
using Block = std::array<uint32_t,3>;

struct Cell { Oct o; uint32_t i=0,j=0,k=0; bool operator<(const Cell& c) const { return std::tie(o,i,j,k)<std::tie(c.o,c.i,c.j,c.k); } bool operator==(const Cell& c) const { return o==c.o&&i==c.i&&j==c.j&&k==c.k; } uint32_t c(int d) const { return d==0?i:d==1?j:k; } };
inline std::string str(const Cell& c){ return mc::cat(ref::str(c.o),"[",c.i,",",c.j,",",c.k,"]"); }
inline std::string str(const Block& b){ return mc::cat(b[0],"x",b[1],"x",b[2]); }
inline uint32_t ncell(const Block& b){ return b[0]*b[1]*b[2]; }
inline uint32_t lin(const Block& b, uint32_t i, uint32_t j, uint32_t k){ return i+b[0]*(j+b[1]*k); }
inline Cell cell_of(const Block& b, const Oct& o, uint32_t l){ return Cell{o,l%b[0],(l/b[0])%b[1],l/b[0]/b[1]}; }

/// integer geometry of cells: boxes on a lattice fine enough for every level and block size (scaled by b[d])
struct Grid {
  const Mesh* m; Block b;
  long lo(const Cell& c,int d) const { long w=m->hi(c.o,d)-m->lo(c.o,d); return d<m->D.dim ? m->lo(c.o,d)*b[d]+c.c(d)*w : 0; }
  long hi(const Cell& c,int d) const { long w=m->hi(c.o,d)-m->lo(c.o,d); return d<m->D.dim ? lo(c,d)+w : 1; }
  long extent(int d) const { return d<m->D.dim ? m->extent(d)*b[d] : 1; }
  /// cell box within g cells (of its own size) of the closed box of octant a, in a periodic image where the cell's block touches a
  bool within(const Cell& c, const Oct& a, int g) const { bool r=false;
    m->images([&](std::array<long,3> s){ bool t=true; for(int d=0;d<m->D.dim;d++){ long w=hi(c,d)-lo(c,d), cl=lo(c,d)+s[d]*(long)b[d], ch=cl+w, al=m->lo(a,d)*(long)b[d], ah=m->hi(a,d)*(long)b[d];
      long gap=std::max(0l,std::max(al-ch,cl-ah)); if(gap>(long)(g-1)*w) t=false; if(m->hi(c.o,d)+s[d]<m->lo(a,d) || m->hi(a,d)<m->lo(c.o,d)+s[d]) t=false; } if(t) r=true; });
    return r; }
  /// cell containing the lattice point (2*coordinates + 1 trick avoided: p must not lie on a cell face)
};

/// a distributed run of a mesh history, followed by probe(rank, mesh, reference mesh) on every rank
inline fmpi::Result run_history(const Domain& D, int nranks, const History& h, const std::function<void(int,AMRmesh&,const Mesh&)>& probe, const fmpi::Options& opt = {}){
  std::vector<Mesh> traj; traj.push_back(Mesh::initial(D)); for(auto& op : h) traj.push_back(op.k==Op::ADAPT ? traj.back().adapt(op.markers) : traj.back());
  return fmpi::run(nranks,[&](int rank){
    auto m=make_mesh(D);
    for(size_t i=0;i<h.size();i++){ if(h[i].k==Op::ADAPT){ set_markers(*m,traj[i],h[i].markers); m->adapt(); } else m->loadBalance((uint8_t)h[i].compact); }
    probe(rank,*m,traj.back());
  },opt);
}
inline Mesh final_mesh(const Domain& D, const History& h){ Mesh m=Mesh::initial(D); for(auto& op : h) if(op.k==Op::ADAPT) m=m.adapt(op.markers); return m; }
inline std::vector<Oct> local_octs(const AMRmesh& m, const Domain& D){ std::vector<Oct> v; for(uint32_t i=0;i<m.getNumOctants();i++) v.push_back(local_oct(m,D,i)); return v; }
inline std::vector<Oct> ghost_octs(const AMRmesh& m, const Domain& D){ std::vector<Oct> v; for(uint32_t i=0;i<m.getNumGhosts();i++) v.push_back(ghost_oct(m,D,i)); return v; }

inline std::string ini(const Domain& D, const Block& b, const std::string& extra=""){
  return mc::cat("[amr]\nbx=",b[0],"\nby=",b[1],"\nbz=",b[2],"\nlevel_min=",D.lmin,"\nlevel_max=",D.lmax,"\ncoarse_oct_resolution_x=",D.coarse[0],"\ncoarse_oct_resolution_y=",D.coarse[1],"\ncoarse_oct_resolution_z=",D.dim==3?D.coarse[2]:1,"\n[mesh]\nndim=",D.dim,"\n",extra,"\n"); }

inline Domain dom(int dim,int lmin,int lmax,std::array<uint32_t,3> cg,std::array<bool,3> per){ Domain D; D.dim=dim; D.lmin=lmin; D.lmax=lmax; D.coarse=cg; D.per=per; return D; }
inline std::string key(const Domain& D, int n){ return mc::cat(D.dim,"D,coarse=",D.coarse[0],"x",D.coarse[1],"x",D.coarse[2],",per=",D.per[0],D.per[1],D.per[2],",ranks=",n); }

/// partitions of a tree worth telling apart: as inherited from its history, rebalanced (compact 0/1), rebalanced then fully coarsened
inline std::vector<History> partitions(const Mesh& m, const History& h, int n){
  std::vector<History> r{h}; if(n==1 || m.size()<(size_t)n) return r;
  for(int k=0;k<2;k++){ History h2=h; Op o; o.k=Op::LB; o.compact=k; h2.push_back(o); r.push_back(h2); }
  if(!h.empty()){ History h2=h; Op o; o.k=Op::LB; h2.push_back(o); Op a; for(auto& q : m.leaves) a.markers.push_back(q.l>m.D.lmin?-1:0); h2.push_back(a); r.push_back(h2); }
  return r;
}
/// deterministic distinct integer value for (cell, field)
inline double val(const Cell& c, int f){ uint64_t h=mc::Hash().add(c.o.l).add(c.o.x).add(c.o.y).add(c.o.z).add(c.i).add(c.j).add(c.k).add(f).h; return (double)(h>>24); }
inline double rnd(uint64_t a, uint64_t b=0, uint64_t c=0){ uint64_t h=mc::Hash().add(a).add(b).add(c).h; h^=h>>29; return (double)((h>>11)&((1ull<<40)-1)); }
} // namespace dy
