// Cell iteration, cell neighbours, ghost-padded patches, Z-order keys.
#include "cells.h"
#include "foreach_cell/AMRBlockForeachCell_scratch.h"
#include "morton_utils.h"
#include <cstring>
using namespace dy;
struct Err { std::string key,msg; };
using CI=ForeachCell::CellIndex;
static CI ci(const Block& b,uint32_t o,uint32_t l,bool g=false){ return CI{{o,g},l%b[0],(l/b[0])%b[1],l/b[0]/b[1],b[0],b[1],b[2],CI::LOCAL_TO_BLOCK}; }
using Off=std::array<int,3>;

/// what lies at offset `off` (in cells of c's size) of cell c
struct Target { enum K { BOUND, LOCAL, SAME, BIGGER, SMALLER } k=BOUND; std::vector<Cell> cells; };
struct Geo {
  const Mesh& m; Block b; std::map<Oct,int> idx;
  Geo(const Mesh& m,const Block& b):m(m),b(b){ for(size_t i=0;i<m.size();i++) idx[m.leaves[i]]=(int)i; }
  Target at(const Cell& c,Off off) const { Target t; const Domain& D=m.D; long g[3]={0,0,0}; bool same=true; 
    for(int d=0;d<D.dim;d++){ g[d]=(long)c.o.c(d)*b[d]+c.c(d)+off[d]; long n=(long)D.count(d,c.o.l)*b[d]; long q=(long)c.c(d)+off[d]; if(q<0||q>=(long)b[d]) same=false; if(g[d]<0||g[d]>=n){ if(!D.per[d]) return t; g[d]=((g[d]%n)+n)%n; } }
    auto mk=[&](int l,const long* p){ Cell q; q.o.l=l; uint32_t oc[3]={0,0,0},cc[3]={0,0,0}; for(int d=0;d<D.dim;d++){ oc[d]=p[d]/b[d]; cc[d]=p[d]%b[d]; } q.o.x=oc[0];q.o.y=oc[1];q.o.z=oc[2];q.i=cc[0];q.j=cc[1];q.k=cc[2]; return q; };
    Cell s=mk(c.o.l,g); if(same){ t.k=Target::LOCAL; t.cells={s}; return t; }
    if(idx.count(s.o)){ t.k=Target::SAME; t.cells={s}; return t; }
    long h[3]={g[0]/2,D.dim>1?g[1]/2:0,D.dim>2?g[2]/2:0}; Cell p=mk(c.o.l-1,h); if(c.o.l>0&&idx.count(p.o)){ t.k=Target::BIGGER; t.cells={p}; return t; }
    t.k=Target::SMALLER; for(int w=0;w<(1<<D.dim);w++){ long f[3]={0,0,0}; for(int d=0;d<D.dim;d++) f[d]=2*g[d]+((w>>d)&1); t.cells.push_back(mk(c.o.l+1,f)); }
    return t; }
};
static const char* kname[]={"boundary","inside the block","same size","bigger","smaller"};

template<class FC> static void iterate(AMRmesh& am,const Domain& D,const Block& b,int group,const std::function<void(const std::string&,const std::string&)>& fail,const char* name){
  ConfigMap cm(ini(D,b,mc::cat("\n[amr]\nnbOctsPerGroup=",group,"\n"))); FC fc(am,cm); uint32_t no=am.getNumOctants(), ng=am.getNumGhosts(), nc=ncell(b);
  auto A=fc.allocate_ghosted_array("a",FieldManager(2)); auto W=[&](const std::string& s){ return mc::cat(name," group=",group," block ",str(b)," ",s); };
  auto ok=[&](const CI& c,bool g){ return c.iOct.isGhost==g && c.iOct.iOct<(g?ng:no) && c.i<b[0]&&c.j<b[1]&&c.k<b[2]&&c.bx==b[0]&&c.by==b[1]&&c.bz==b[2]&&c.is_local()&&c.is_valid(); };
  { std::vector<int> n(no*nc,0); bool bad=false; fc.foreach_cell("f",A,[&](const CI& c){ if(!ok(c,false)) bad=true; else n[c.iOct.iOct*nc+lin(b,c.i,c.j,c.k)]++; }); for(int x : n) if(x!=1) bad=true; if(bad) fail("foreach_cell",W("foreach_cell did not visit every local cell exactly once")); }
  { std::vector<int> n(ng*nc,0); bool bad=false; fc.foreach_ghost_cell("f",A,[&](const CI& c){ if(!ok(c,true)) bad=true; else n[c.iOct.iOct*nc+lin(b,c.i,c.j,c.k)]++; }); for(int x : n) if(x!=1) bad=true; if(bad) fail("foreach_ghost_cell",W("foreach_ghost_cell did not visit every ghost cell exactly once")); }
  { double s=-5, mx=-5; int q=-5; auto v=[&](const CI& c){ return (double)((c.iOct.iOct*37+lin(b,c.i,c.j,c.k)*11)%101)+1; }; double es=0, em=-1e300; int eq=0; for(uint32_t o=0;o<no;o++) for(uint32_t l=0;l<nc;l++){ double x=v(ci(b,o,l)); es+=x; em=std::max(em,x); eq++; }
    fc.reduce_cell("r",A,[&](const CI& c,double& u,int& w){ u+=v(c); w++; },s,q); if(s!=es||q!=eq) fail("reduce",W(mc::cat("sum reduction gives ",s,"/",q," expected ",es,"/",eq)));
    fc.reduce_cell("r",A,[&](const CI& c,double& u){ u=std::max(u,v(c)); },Kokkos::Max<double>(mx)); if(no && mx!=em) fail("reduce",W("max reduction wrong")); }
  if(fc.getNumCells()!=no*nc || fc.getNumCells_global()!=am.getGlobalNumOctants()*nc) fail("numcells",W("number of cells wrong"));
  // patches with temporaries: each block has its own storage during a patch
  int gz=D.dim==3?1:0; id2index_t fm; fm.activate((VarIndex)0); fm.activate((VarIndex)1);
  auto R=fc.reserve_patch_tmp("t",1,1,gz,fm,2); auto R2=fc.reserve_patch_tmp("t2",0,0,0,fm,2);
  std::vector<int> seen(no*nc,0); bool bad=false, mem=false;
  auto pv=[&](const CI& c,int f){ return (double)c.iOct.iOct*1e6+c.i+100*c.j+10000*c.k+f*.5; };
  fc.foreach_patch("p",[&](const typename FC::Patch& p){ auto t=p.allocate_tmp(R); auto t2=p.allocate_tmp(R2);
    p.foreach_cell(t,[&](const CI& c){ for(int f=0;f<2;f++) t.at(c,(VarIndex)f)=pv(c,f); if(c.bx!=b[0]+2||c.by!=b[1]+2||c.bz!=b[2]+2*gz||c.i>=c.bx||c.j>=c.by||c.k>=c.bz) bad=true; });
    p.foreach_cell(t2,[&](const CI& c){ for(int f=0;f<2;f++) t2.at(c,(VarIndex)f)=-pv(c,f)-1; });
    p.foreach_cell(t,[&](const CI& c){ for(int f=0;f<2;f++) if(t.at(c,(VarIndex)f)!=pv(c,f)) mem=true; });
    p.foreach_cell(A,[&](const CI& c){ if(!ok(c,false)){ bad=true; return; } seen[c.iOct.iOct*nc+lin(b,c.i,c.j,c.k)]++; 
      CI q=t.convert_index(c), q2=t2.convert_index(c); if(q.i!=c.i+1||q.j!=c.j+1||q.k!=c.k+gz||!(q2==c)) bad=true; for(int f=0;f<2;f++){ if(t.at(q,(VarIndex)f)!=pv(q,f)) mem=true; if(t2.at(q2,(VarIndex)f)!=-pv(c,f)-1) mem=true; A.at(c,(VarIndex)f)=t.at(q,(VarIndex)f); } }); });
  for(int x : seen) if(x!=1) bad=true; if(bad) fail("patch",W("patches did not visit every local cell exactly once")); if(mem) fail("patch_tmp",W("patch temporaries overlap between blocks"));
  for(uint32_t o=0;o<no;o++) for(uint32_t l=0;l<nc;l++){ CI c=ci(b,o,l); CI q=c; q.i++; q.j++; q.k+=gz; q.iOct=c.iOct; for(int f=0;f<2;f++) if(A.at(c,(VarIndex)f)!=pv(q,f)) fail("patch_tmp",W("value carried through a patch temporary is wrong")); }
}

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough;
    if(mode=="keys"){
      // every coordinate value of every axis, in blocks; keys are linear over the axes so pairs are checked on a product lattice
      auto slow=[](uint64_t v,int dim){ uint64_t r=0; for(int b=0;b<32;b++) r|=((v>>b)&1)<<(dim*b); return r; };
      int nb=T?65536:4096; for(int blk=0;blk<nb;blk++){ if(!c.begin(mc::cat("2D keys block ",blk))) continue; uint64_t per=(1ull<<32)/65536; uint64_t base=(uint64_t)blk*(65536/nb)*per; uint64_t prev=0; bool has=false;
        for(uint64_t q=0;q<per;q++){ uint32_t v=(uint32_t)(base+q); uint64_t e=slow(v,2), k=compute_morton_key(v,0u), ky=compute_morton_key(0u,v);
          if(k!=e || ky!=e<<1) { c.violation("2D","key of coordinate "+std::to_string(v)+" is not the bit interleaving"); break; }
          if(morton_extract_coord<IX>(2,k)!=v || morton_extract_coord<IY>(2,ky)!=v || morton_extract_coord<IY>(2,k)!=0){ c.violation("2Dx","decoding of coordinate "+std::to_string(v)); break; }
          if(has && k<=prev){ c.violation("order","keys not increasing"); break; } prev=k; has=true; }
        c.evaluation(per); c.state(blk); c.transition(per); }
      for(int blk=0;blk<64;blk++){ if(!c.begin(mc::cat("3D keys block ",blk))) continue; for(uint32_t v=blk<<15;v<(uint32_t)(blk+1)<<15;v++){ uint64_t e=slow(v,3); uint64_t k[3]={compute_morton_key(v,0u,0u),compute_morton_key(0u,v,0u),compute_morton_key(0u,0u,v)}; index_t<3> iv; iv[0]=v;iv[1]=v;iv[2]=v;
          for(int d=0;d<3;d++) if(k[d]!=e<<d){ c.violation("3D","key of coordinate "+std::to_string(v)); }
          if(compute_morton_key<3>(iv)!=(e|e<<1|e<<2)) c.violation("3D","key of diagonal point "+std::to_string(v));
          if(morton_extract_coord<IX>(3,k[0])!=v||morton_extract_coord<IY>(3,k[1])!=v||morton_extract_coord<IZ>(3,k[2])!=v||morton_extract_coord<IX>(3,e|e<<1|e<<2)!=v) c.violation("3Dx","decoding of coordinate "+std::to_string(v));
          if(c.current_failed()) break; } c.evaluation(1<<15); c.state(100000+blk); c.transition(1<<15); }
      { std::vector<uint32_t> L; for(uint32_t s=0;s<21;s++) for(uint32_t w : {1u,3u,5u}) if((w<<s)<(1u<<21)) L.push_back(w<<s); for(uint32_t q=0;q<16;q++) L.push_back(q);
        for(size_t a=0;a<L.size();a++){ if(!c.begin(mc::cat("products ",a))) continue; for(auto y : L) for(auto z : L){ uint64_t k=compute_morton_key(L[a],y,z); if(k!=ref::zorder(L[a],y,z)||morton_extract_coord<IX>(3,k)!=L[a]||morton_extract_coord<IY>(3,k)!=y||morton_extract_coord<IZ>(3,k)!=z) c.violation("3Dp",mc::cat("key of (",L[a],",",y,",",z,")")); uint64_t k2=compute_morton_key(L[a],y); if(morton_extract_coord<IX>(2,k2)!=L[a]||morton_extract_coord<IY>(2,k2)!=y) c.violation("2Dp","2D pair"); } c.evaluation(L.size()*L.size()); c.state(200000+a); c.transition(L.size()*L.size()); } }
      return; }
    struct TC{ Domain D; int maxref; std::vector<int> ranks; }; std::vector<TC> tc;
    std::vector<std::array<bool,3>> P2{{0,0,0},{1,0,0},{1,1,0}}, P3{{0,0,0},{1,1,1}}; if(T){ P2.push_back({0,1,0}); P3.push_back({0,1,1}); P3.push_back({1,0,0}); }
    std::vector<int> R= T? std::vector<int>{1,2,3,4} : std::vector<int>{1,3};
    for(auto& p : P2){ tc.push_back({dom(2,1,3,{2,2,1},p),T?6:5,R}); tc.push_back({dom(2,2,4,{3,2,1},p),T?4:3,R}); tc.push_back({dom(2,1,3,{1,2,1},p),T?6:4,R}); }
    for(auto& p : P3){ tc.push_back({dom(3,1,3,{2,1,2},p),T?3:2,R}); tc.push_back({dom(3,1,3,{2,2,2},p),T?2:1,R}); }
    for(auto& t : tc) all_trees(t.D,t.maxref,[&](const Mesh& m0,const History& h){ for(int n : t.ranks){
      for(auto& hh : partitions(m0,h,n)){
        if(!c.begin(mc::cat(mode," ",t.D.str()," ranks=",n," | ",ref::str(hh)))) continue;
        std::vector<Err> errs(n); uint64_t evals=0;
        auto r=run_history(t.D,n,hh,[&](int rank,AMRmesh& am,const Mesh& rm){
          const Domain& D=t.D; auto fail=[&](const std::string& k,const std::string& s){ if(errs[rank].key.empty()) errs[rank]={k,mc::cat("rank ",rank,": ",s)}; };
          auto lo=local_octs(am,D), gh=ghost_octs(am,D);
          if(mode=="iterate"){ uint32_t no=lo.size(); for(Block b : D.dim==2? std::vector<Block>{{1,1,1},{3,2,1}} : std::vector<Block>{{1,1,1},{2,1,3}}) { std::set<int> gs{1,2,3,(int)std::max(1u,no),(int)no+1,1024}; if(no>1) gs.insert(no-1); for(int g : gs){ iterate<AMRBlockForeachCell_group>(am,D,b,g,fail,"group"); evals++; } iterate<AMRBlockForeachCell_scratch>(am,D,b,16,fail,"scratch"); } return; }
          struct BW{ Block b; int g; };
          std::vector<BW> bw= D.dim==2? std::vector<BW>{{{1,1,1},1},{{2,2,1},1},{{3,4,1},2},{{5,3,1},2},{{4,4,1},2}} : std::vector<BW>{{{1,1,1},1},{{2,2,2},1},{{3,3,4},2},{{4,4,4},2}};
          if(D.dim==3 && !T) bw={{{1,1,1},1},{{2,2,2},1},{{3,2,2},1}}; 
          for(auto& w : bw){ const Block& b=w.b; Geo G(rm,b); ConfigMap cm(ini(D,b,"xmin=-1\nxmax=3\nymin=2\nymax=2.5\nzmin=-8\nzmax=-4\n")); ForeachCell fc(am,cm); auto A=fc.allocate_ghosted_array("a",FieldManager(1)); auto S=A.getShape(); auto md=fc.getCellMetaData();
            auto cellof=[&](const CI& q)->Cell{ const auto& v=q.iOct.isGhost?gh:lo; if(q.iOct.iOct>=v.size()||q.i>=b[0]||q.j>=b[1]||q.k>=b[2]) return Cell{Oct{-1,0,0,0},q.i,q.j,q.k}; return Cell{v[q.iOct.iOct],q.i,q.j,q.k}; };
            const double lo0[3]={-1,2,-8}, ext[3]={4,.5,4};
            auto geom=[&](const CI& q,const Cell& cc,Off o,const char* what){ auto sz=md.getCellSize(q); auto ce=md.getCellCenter(q); for(int d=0;d<D.dim;d++){ double n=(double)D.count(d,cc.o.l)*b[d]; double es=ext[d]/n, ec=lo0[d]+ext[d]*((double)cc.o.c(d)*b[d]+cc.c(d)+o[d]+.5)/n; if(std::fabs(sz[d]-es)>1e-12*ext[d] || std::fabs(ce[d]-ec)>1e-12*(ext[d]+std::fabs(lo0[d]))) fail("geometry",mc::cat(what," ",str(cc)," axis ",d," size ",sz[d]," (",es,") center ",ce[d]," (",ec,")")); } };
            if(mode=="neigh"){
              for(int gsel=0;gsel<2;gsel++) for(uint32_t o=0;o<(gsel?gh.size():lo.size());o++) for(uint32_t l=0;l<ncell(b);l++){ CI q=ci(b,o,l,gsel); geom(q,cellof(q),{0,0,0},"cell"); }
              for(uint32_t o=0;o<lo.size();o++) for(uint32_t l=0;l<ncell(b);l++){ CI q=ci(b,o,l); Cell cc=cellof(q);
                { // position lookups at the centre and near the corners of the cell
                  for(double f : {.5,.01,.99}){ ForeachCell::CellMetaData::pos_t p{0,0,-6.}; double n[3]; for(int d=0;d<D.dim;d++){ n[d]=(double)D.count(d,cc.o.l)*b[d]; p[d]=lo0[d]+ext[d]*((double)cc.o.c(d)*b[d]+cc.c(d)+(d==1?1-f:f))/n[d]; } CI z=md.getCellFromPos(p); if(!(cellof(z)==cc)||z.iOct.isGhost) fail("frompos",mc::cat("getCellFromPos in cell ",str(cc)," gives ",str(cellof(z)))); } }
                for(int dx=-w.g;dx<=w.g;dx++) for(int dy=-w.g;dy<=w.g;dy++) for(int dz=D.dim==3?-w.g:0;dz<=(D.dim==3?w.g:0);dz++){ Off off{dx,dy,dz}; bool okb=true; for(int d=0;d<D.dim;d++) if((int)b[d]<2*std::abs(off[d])-1) okb=false; if(!okb) continue;
                  Target tg=G.at(cc,off); CI::offset_t fo{(int16_t)dx,(int16_t)dy,(int16_t)dz}; CI z=q.getNeighbor_ghost(fo,S); evals++;
                  auto bad=[&](const std::string& s){ fail(mc::cat("neighbor:",kname[tg.k]),mc::cat("block ",str(b)," cell ",str(cc)," offset ",dx,",",dy,",",dz,": ",s,", expected ",kname[tg.k]," ",tg.cells.empty()?"":str(tg.cells[0]))); };
                  { const ForeachCell::CellArray_global::Shape_t& SL=S; CI y=q.getNeighbor_ghost(fo,SL); bool in=tg.k==Target::LOCAL; if(in? !(y.is_valid()&&y.is_local()&&cellof(y)==tg.cells[0]) : y.is_valid()) bad(in?"in the local array: not found":"in the local array: valid although outside of the block"); }
                  if(tg.k==Target::BOUND){ if(!z.is_boundary()){ bad("not a boundary"); continue; } CI in; CI::offset_t oo; z.getBoundaryPosAndOffset(in,oo); if(z.is_valid()) bad("boundary index is valid"); if(!(in.iOct.iOct==o&&!in.iOct.isGhost)||in.i>=b[0]||in.j>=b[1]||in.k>=b[2]||in.i+oo[0]!=q.i+dx||in.j+oo[1]!=q.j+dy||in.k+oo[2]!=q.k+dz) bad("getBoundaryPosAndOffset wrong"); 
                    for(int d=0;d<3;d++){ int p=(int)cc.c(d)+off[d]; int cl=std::min(std::max(p,0),(int)b[d]-1); if((d==0?in.i:d==1?in.j:in.k)!=(uint32_t)cl) bad("boundary cell inside is not the closest"); } continue; }
                  if(!z.is_valid()){ bad("invalid index"); continue; }
                  Cell zc=cellof(z); 
                  if(tg.k==Target::LOCAL){ if(!(zc==tg.cells[0])||!z.is_local()||z.level_diff()!=0) bad("got "+str(zc)); }
                  else if(tg.k==Target::SAME){ if(!(zc==tg.cells[0])||z.is_local()||z.level_diff()!=0) bad("got "+str(zc)); }
                  else if(tg.k==Target::BIGGER){ if(!(zc==tg.cells[0])||z.level_diff()!=1) bad("got "+str(zc)); }
                  else { if(z.level_diff()!=-1){ bad("level difference"); continue; }
                    // the part of the virtual neighbour that touches the cell; the first one in Z-order must be returned (offsets of one cell leaving the block)
                    bool strict=true; for(int d=0;d<D.dim;d++){ int p=(int)cc.c(d)+off[d]; bool out=p<0||p>=(int)b[d]; if(std::abs(off[d])>1 || (off[d] && !out)) strict=false; }
                    std::vector<Cell> adj; for(size_t w2=0;w2<tg.cells.size();w2++){ bool a=true; for(int d=0;d<D.dim;d++){ int bit=(w2>>d)&1; if(off[d]>0&&bit!=0) a=false; if(off[d]<0&&bit!=1) a=false; } if(a) adj.push_back(tg.cells[w2]); }
                    if(std::find(tg.cells.begin(),tg.cells.end(),zc)==tg.cells.end()) bad("got "+str(zc)+" which is not in the neighbour");
                    else if(strict && !(zc==adj[0])) bad("got "+str(zc)+" which is not the first adjacent one "+str(adj[0]));
                    else if(strict){ std::vector<Cell> got; auto add=[&](const CI& y){ got.push_back(cellof(y)); }; int cnt= D.dim==2? foreach_smaller_neighbor<2>(z,fo,S,add) : foreach_smaller_neighbor<3>(z,fo,S,add); std::sort(got.begin(),got.end()); std::sort(adj.begin(),adj.end()); if(got!=adj||cnt!=(int)adj.size()) fail("smaller_neighbors",mc::cat("block ",str(b)," cell ",str(cc)," offset ",dx,",",dy,",",dz,": foreach_smaller_neighbor visits ",got.size()," cells, not the ",adj.size()," adjacent ones")); } } }
                }
            } else { // padded
              bool okb=true; for(int d=0;d<D.dim;d++) if(b[d]!=1 && (int)b[d]<2*w.g) okb=false; if(!okb) continue;
              int gz=D.dim==3?w.g:0; Block pb{b[0]+2*w.g,b[1]+2*w.g,b[2]+2*gz}; id2index_t fm; fm.activate((VarIndex)0);
              auto R=fc.reserve_patch_tmp("t",w.g,w.g,gz,fm,1);
              fc.foreach_patch("p",[&](const ForeachCell::Patch& pt){ auto tp=pt.allocate_tmp(R); pt.foreach_cell(tp,[&](const CI& q){ if(q.bx!=pb[0]||q.by!=pb[1]||q.bz!=pb[2]){ fail("shape","padded shape"); return; }
                // relative to the first cell of the block
                Cell c0{lo[q.iOct.iOct],0,0,0}; Off off{(int)q.i-w.g,(int)q.j-w.g,D.dim==3?(int)q.k-gz:0}; Target tg=G.at(c0,off); CI z=S.convert_index_ghost(q); CI z2=S.convert_index_getNeighbor(q); evals++;
                auto bad=[&](const std::string& s){ fail(mc::cat("padded:",kname[tg.k]),mc::cat("block ",str(b)," octant ",ref::str(c0.o)," padded index ",q.i,",",q.j,",",q.k,": ",s,", expected ",kname[tg.k]," ",tg.cells.empty()?"":str(tg.cells[0]))); };
                geom(q,c0,off,"padded cell");
                if(z.is_boundary()!=z2.is_boundary() || (!z.is_boundary() && z.level_diff()!=z2.level_diff())) bad("convert_index_getNeighbor disagrees");
                if(tg.k==Target::BOUND){ if(!z.is_boundary()) bad("not a boundary"); else { CI in; CI::offset_t oo; z.getBoundaryPosAndOffset(in,oo); if((int)in.i+oo[0]!=off[0]||(int)in.j+oo[1]!=off[1]||(D.dim==3&&(int)in.k+oo[2]!=off[2])||in.i>=b[0]||in.j>=b[1]||in.k>=b[2]||in.iOct.iOct!=q.iOct.iOct) bad("boundary offset"); } return; }
                if(!z.is_valid()){ bad("invalid"); return; }
                Cell zc=cellof(z); 
                if(tg.k<=Target::BIGGER){ if(!(zc==tg.cells[0])||z.level_diff()!=(tg.k==Target::BIGGER)||z.is_local()!=(tg.k==Target::LOCAL)) bad("got "+str(zc)); 
                  if(tg.k==Target::LOCAL){ CI back=tp.convert_index(z); if(!(back.i==q.i&&back.j==q.j&&back.k==q.k&&back.iOct.iOct==q.iOct.iOct)) bad("conversion back to the patch"); } }
                else { if(z.level_diff()!=-1){ bad("level difference"); return; } std::vector<Cell> got; auto add=[&](const CI& y){ got.push_back(cellof(y)); }; bool even= b[0]%2==0&&b[1]%2==0&&(D.dim==2||b[2]%2==0); if(even && q.i%2==0 && D.dim==3){} 
                  if(b[0]==1||b[1]==1||(D.dim==3&&b[2]==1)){ if(std::find(tg.cells.begin(),tg.cells.end(),cellof(z2))==tg.cells.end()) bad("cell-based neighbour outside of the virtual neighbour"); return; }
                  int cnt= D.dim==2? foreach_sibling<2>(z,S,add) : foreach_sibling<3>(z,S,add); std::sort(got.begin(),got.end()); std::sort(tg.cells.begin(),tg.cells.end()); if(got!=tg.cells||cnt!=(1<<D.dim)) bad("foreach_sibling does not visit exactly the cells of the smaller neighbour, starts at "+str(zc)); }
              }); });
            } }
        });
        c.trace(); c.transition(1); c.evaluation(evals); c.state(mc::Hash().add(m0.hash()).add(n).str(ref::str(hh)).h);
        if(!r.ok) c.violation(r.kind+":"+key(t.D,n),r.error); else for(auto& e : errs) if(!e.key.empty()){ c.violation(e.key+":"+key(t.D,n),e.msg); break; }
        if(c.traces%299==1) c.sample(c.desc());
      } } });
  });
}
