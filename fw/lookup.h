// Geometric lookup on a reference mesh with blocks: which cells a box covers, values of virtual same-size neighbours
#pragma once
#include "hyd.h"
namespace dy {
struct Lookup { const Box& B; const Mesh& m; int nc; int fine; std::array<long,3> n{1,1,1}; std::vector<int> at; std::map<Oct,int> idx;
  Lookup(const Box& B,const Mesh& m):B(B),m(m),nc(ncell(B.b)){ fine=0; for(auto& o : m.leaves) fine=std::max(fine,o.l); for(int d=0;d<B.D.dim;d++) n[d]=(long)B.D.count(d,fine)*B.b[d]; at.assign(n[0]*n[1]*n[2],-1);
    for(size_t i=0;i<m.size();i++){ idx[m.leaves[i]]=(int)i; for(int l=0;l<nc;l++){ long lo[3],w; box((int)i*nc+l,lo,w); long e[3]={lo[0]+w,lo[1]+w,B.D.dim==3?lo[2]+w:1}; for(long z=lo[2];z<e[2];z++) for(long y=lo[1];y<e[1];y++) for(long x=lo[0];x<e[0];x++) at[x+n[0]*(y+n[1]*z)]=(int)i*nc+l; } } }
  Cell cell(int g) const { return cell_of(B.b,m.leaves[g/nc],g%nc); }
  int level(int g) const { return m.leaves[g/nc].l; }
  void box(int g,long lo[3],long& w) const { Cell c=cell(g); w=1l<<(fine-c.o.l); for(int d=0;d<3;d++) lo[d]= d<B.D.dim ? ((long)c.o.c(d)*B.b[d]+c.c(d))*w : 0; }
  /// lattice point with periodic wrap; -1 outside
  int get(long x,long y,long z) const { long p[3]={x,y,z}; for(int d=0;d<B.D.dim;d++){ if(p[d]<0||p[d]>=n[d]){ if(!B.D.per[d]) return -1; p[d]=((p[d]%n[d])+n[d])%n[d]; } } return at[p[0]+n[0]*(p[1]+n[1]*p[2])]; }
  /// cells covered by the box of cell g shifted by `off` cells of its own size (with multiplicity 1 each); empty if outside of the domain
  std::vector<int> shifted(int g,std::array<int,3> off) const { long lo[3],w; box(g,lo,w); for(int d=0;d<3;d++) lo[d]+=d<B.D.dim?off[d]*w:0; std::vector<int> r; long wz=B.D.dim==3?w:1; for(long z=lo[2];z<lo[2]+wz;z++) for(long y=lo[1];y<lo[1]+w;y++) for(long x=lo[0];x<lo[0]+w;x++){ int c=get(x,y,z); if(c<0) return {}; if(std::find(r.begin(),r.end(),c)==r.end()) r.push_back(c); } return r; }
  double lo(int g,int d) const { long l[3],w; box(g,l,w); return B.lo[d]+B.len[d]*(double)l[d]/n[d]; }
  double size(int g,int d) const { return d<B.D.dim ? B.len[d]/n[d]*(double)(1l<<(fine-level(g))) : B.len[2]; }
};
}
