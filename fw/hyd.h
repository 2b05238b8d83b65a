// One time step of a real hydro/MHD solver on a distributed AMR mesh, seen as a function from cell states to cell states.
#pragma once
#include "cells.h"
#include "hydro/HydroUpdate.h"
#include "mpi/GhostCommunicator.h"
#include "ScalarSimulationData.h"
namespace dy {
struct Scheme { std::string id; int nf; std::string riemann; bool one=false, hancock=false; int grav=0; std::array<double,3> g{0,0,0}; bool wb=false; /* grav: 0 none, 1 scalar, 2 constant field, 3 field varying from cell to cell */ bool mhd() const { return nf>5; } bool glm() const { return nf>8; } std::string str() const { return id+(riemann.empty()?"":"/"+riemann)+(grav?mc::cat(" gravity",grav,wb?" well balanced":""):""); } };
inline const std::vector<std::string>& cons_names(){ static std::vector<std::string> n{"rho","e_tot","rho_vx","rho_vy","rho_vz","Bx","By","Bz","psi"}; return n; }
using Q9=std::array<double,9>;                  // conservative, order of cons_names()
struct Prim { double r=1,p=1,u=0,v=0,w=0,bx=0,by=0,bz=0,psi=0; };
inline Q9 cons(const Prim& q,double g){ return Q9{q.r, q.p/(g-1)+.5*q.r*(q.u*q.u+q.v*q.v+q.w*q.w)+.5*(q.bx*q.bx+q.by*q.by+q.bz*q.bz), q.r*q.u,q.r*q.v,q.r*q.w,q.bx,q.by,q.bz,q.psi}; }
inline Prim prim(const Q9& c,double g){ Prim q; q.r=c[0]; q.u=c[2]/q.r; q.v=c[3]/q.r; q.w=c[4]/q.r; q.bx=c[5]; q.by=c[6]; q.bz=c[7]; q.psi=c[8]; q.p=(g-1)*(c[1]-.5*q.r*(q.u*q.u+q.v*q.v+q.w*q.w)-.5*(q.bx*q.bx+q.by*q.by+q.bz*q.bz)); return q; }
using Field=std::vector<Q9>;                    // indexed by leaf*ncell+cell

struct Box { Domain D; Block b; std::array<double,3> len{1,1,1}; std::array<std::string,6> bc; std::array<double,3> lo{0,0,0};
  double dx(int d,int level) const { return d<D.dim ? len[d]/((double)D.count(d,level)*b[d]) : 1; }
  double vol(int level) const { return dx(0,level)*dx(1,level)*(D.dim==3?dx(2,level):1); }
  void walls(const std::string& w){ for(int d=0;d<3;d++) for(int s=0;s<2;s++) bc[2*d+s]= D.per[d]?"periodic":w; }
  std::string config(const Scheme* s,const std::string& extra="") const { const char* x[3]={"x","y","z"}; std::string r="[mesh]\n"; for(int d=0;d<3;d++){ r+=mc::cat(x[d],"min=",lo[d],"\n",x[d],"max=",lo[d]+len[d],"\n"); for(int k=0;k<2;k++) r+=mc::cat("boundary_type_",x[d],k?"max":"min","=",bc[2*d+k],"\n"); }
    r+="[hydro]\n"; if(s){ r+="update="+s->id+"\n"; if(!s->riemann.empty()) r+="riemann="+s->riemann+"\n"; if(s->wb) r+="well_balanced=true\n"; if(s->grav) r+=mc::cat("[gravity]\ngravity_type=",s->grav==1?"constant_scalar":s->grav==2?"constant_field":"field","\ngx=",s->g[0],"\ngy=",s->g[1],"\ngz=",s->g[2],"\n"); } return ini(D,b,r+extra); } };
inline std::string str(const Box& B){ std::string s=mc::cat(key(B.D,0)," block ",str(B.b)," len ",B.len[0],",",B.len[1],",",B.len[2]," bc"); for(auto& x : B.bc) s+=" "+x.substr(0,3); return s; }

/// per rank: everything needed to run a solver, fields filled from `in`
struct Rank { AMRmesh& am; const Mesh& m; const Box& B; ConfigMap cm; ForeachCell fc; UserData U; Timers tm; std::map<Oct,int> idx; std::vector<int> loc;
  Rank(AMRmesh& am,const Mesh& m,const Box& B,const std::string& cfg):am(am),m(m),B(B),cm(cfg),fc(am,cm),U(cm,fc){ for(size_t i=0;i<m.size();i++) idx[m.leaves[i]]=(int)i; for(auto& o : local_octs(am,B.D)) loc.push_back(idx.count(o)?idx[o]:-1); }
  static ForeachCell::CellIndex ci(const Block& b,uint32_t o,uint32_t l,bool g=false){ return ForeachCell::CellIndex{{o,g},l%b[0],(l/b[0])%b[1],l/b[0]/b[1],b[0],b[1],b[2],ForeachCell::CellIndex::LOCAL_TO_BLOCK}; }
  void set(const std::string& f,const std::function<double(int leaf,uint32_t l)>& v){ if(!U.has_field(f)) U.new_fields({f}); auto A=U.getAccessor({{f,(VarIndex)0}}); for(uint32_t o=0;o<am.getNumOctants();o++) for(uint32_t l=0;l<ncell(B.b);l++) A.at(ci(B.b,o,l),(VarIndex)0)=v(loc[o],l); }
  void get(const std::string& f,const std::function<void(int leaf,uint32_t l,double)>& v){ auto A=U.getAccessor({{f,(VarIndex)0}}); for(uint32_t o=0;o<am.getNumOctants();o++) for(uint32_t l=0;l<ncell(B.b);l++) v(loc[o],l,A.at(ci(B.b,o,l),(VarIndex)0)); }
  void exchange(const std::vector<std::string>& names,int width){ GhostCommunicator gc(am,U.getShape(),std::min({(int)B.b[0],(int)B.b[1],width})); std::vector<UserData::FieldAccessor_FieldInfo> fi; VarIndex k=0; for(auto& n : names) fi.push_back({n,k++}); gc.exchange_ghosts(U.getAccessor(fi)); }
};
struct StepOut { fmpi::Result r; Field out; };
/// one step: fields -> fields; `extra` is appended to the configuration, `more` can create further fields (gravity)
inline StepOut hydro_step(const Box& B,const History& h,int n,const Scheme& s,const Field& in,double dt,const std::string& extra="",const std::function<void(Rank&)>& more={}){
  StepOut R; const int nc=ncell(B.b); Mesh fm=final_mesh(B.D,h); R.out.assign(fm.size()*nc,Q9{}); std::vector<char> seen(fm.size()*nc,0);
  for(auto& q : R.out) q.fill(std::nan(""));
  R.r=run_history(B.D,n,h,[&](int,AMRmesh& am,const Mesh& m){ Rank k(am,m,B,B.config(&s,extra)); std::vector<std::string> nm(cons_names().begin(),cons_names().begin()+s.nf);
    std::set<std::string> all; for(auto& x : nm){ all.insert(x); all.insert(x+"_next"); } k.U.new_fields(all);
    for(int f=0;f<s.nf;f++) k.set(nm[f],[&](int leaf,uint32_t l){ return in[leaf*nc+l][f]; });
    if(s.grav>=2) for(int d=0;d<3;d++) k.set(std::string("g")+"xyz"[d],[&](int leaf,uint32_t l){ return s.g[d]*(s.grav==3? 1+in[leaf*nc+l][0] : 1); });
    if(more) more(k);
    k.exchange(nm, s.one?2:s.hancock?4:2); if(s.grav>=2) k.exchange({"gx","gy","gz"}, s.one?2:s.hancock?4:2); // as the time loop does after the gravity solver
    auto up=HydroUpdateFactory::make_instance(s.id,k.cm,k.fc,k.tm); ScalarSimulationData sd; sd.set<real_t>("dt",dt); up->update(k.U,sd);
    for(int f=0;f<s.nf;f++) k.get(nm[f]+"_next",[&](int leaf,uint32_t l,double v){ R.out[leaf*nc+l][f]=v; }); });
  if(B.D.dim==2) for(auto& q : R.out) q[4]=0; for(auto& q : R.out) for(int f=s.nf;f<9;f++) q[f]=0;
  return R; }
}
