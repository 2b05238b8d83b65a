// Whole simulations: the real DyabloTimeLoop driven in-process, observed through plugins registered by the harness
#pragma once
#include "lookup.h"
#include "scratch.h"
#include "DyabloTimeLoop.h"
#include <hdf5.h>
namespace dy {
/// what the probes saw
struct Ev { std::string k; int iter; double time, dt; std::vector<uint32_t> extra; double aexp=NAN, z=NAN; };
struct Watch { std::vector<std::vector<Ev>> ev; std::vector<std::vector<double>> dts; int stop_rank=-1, stop_iter=-1; bool snaps=false; };
inline Watch& watch(){ static Watch w; return w; }
/// state of the whole simulation, put together from all the processes
struct Snap { int iter=-1; double time=0; int calls=0; std::map<Oct,int> owner; std::map<std::string,std::map<Oct,std::vector<double>>> f; std::map<std::string,std::vector<std::vector<double>>> p; int misplaced=0, twice=0; };
inline std::vector<Snap>& snaps(){ static std::vector<Snap> s; return s; }
inline std::vector<int>& snap_count(){ static std::vector<int> c; return c; }
struct Scene { Box B; };
inline Scene& scene(){ static Scene s; return s; }
inline double scalar(ScalarSimulationData& s,const std::string& n){ double d=NAN; s.foreach_var([&](const std::string& m,auto v){ if(m==n) d=v; }); return d; }
inline double dtnow(ScalarSimulationData& s){ double d=NAN; s.foreach_var([&](const std::string& n,auto v){ if(n=="dt") d=v; }); return d; }

inline void stamp(int r,ScalarSimulationData& sd){ auto& e=watch().ev[r].back(); e.aexp=scalar(sd,"aexp"); e.z=scalar(sd,"z"); }
/// the fields written and read by the plugins of the harness are those of the scene
inline bool of_scene(ForeachCell& fc){ auto b=fc.blockSize(); const Box& B=scene().B; return fc.getDim()==B.D.dim && b[0]==B.b[0] && b[1]==B.b[1] && b[2]==B.b[2]; }
inline void on_scene(ForeachCell& fc){ if(!of_scene(fc)) throw std::runtime_error("verif: not the blocks of the scene"); }
inline void take_snap(ForeachCell& fc,const UserData& Uc,ScalarSimulationData& sd){ if(!of_scene(fc)) return; UserData& U=const_cast<UserData&>(Uc); int r=fmpi::current_rank(); auto& sc=snap_count(); if((int)sc.size()<=r) sc.resize(r+1,0); int k=sc[r]++; auto& S=snaps(); if((int)S.size()<=k) S.resize(k+1); Snap& s=S[k]; s.calls++; s.iter=sd.get<int>("iter"); s.time=sd.get<real_t>("time");
  AMRmesh& am=fc.get_amr_mesh(); const Box& B=scene().B; auto lo=local_octs(am,B.D); int nc=ncell(B.b); for(auto& o : lo) if(!s.owner.emplace(o,r).second) s.twice++;
  for(auto& n : U.getEnabledFields()){ auto A=U.getAccessor({{n,(VarIndex)0}}); for(size_t o=0;o<lo.size();o++){ auto& v=s.f[n][lo[o]]; v.resize(nc); for(int l=0;l<nc;l++) v[l]=A.at(Rank::ci(B.b,o,l),(VarIndex)0); } }
  for(auto& n : U.getEnabledParticleArrays()){ auto P=U.getParticleArray(n); auto& v=s.p[n]; auto at=U.getEnabledParticleAttributes(n); for(size_t i=0;i<P.getNumParticles();i++){ std::vector<double> x; for(int d=0;d<3;d++) x.push_back(P.pos(i,(ComponentIndex3D)d)); bool in=false; for(auto& o : lo){ bool t=true; for(int d=0;d<B.D.dim;d++){ double w=B.len[d]/B.D.count(d,o.l), l=B.lo[d]+o.c(d)*w; if(!(x[d]>=l-1e-12&&x[d]<=l+w+1e-12)) t=false; } if(t){ in=true; break; } } if(!in) s.misplaced++; for(auto& a : at) x.push_back(U.getParticleAccessor(n,{{a,0}}).at(i,0)); v.push_back(x); } } }

struct VProbe : IOManager { ForeachCell& fc; std::string k; VProbe(ForeachCell& fc,const std::string& k):fc(fc),k(k){} void save_snapshot(const UserData& U,ScalarSimulationData& sd){ int r=fmpi::current_rank(); watch().ev[r].push_back({k,sd.get<int>("iter"),sd.get<real_t>("time"),0,{}}); stamp(r,sd); if(watch().snaps && k=="output") take_snap(fc,U,sd); } };
struct VOut : VProbe { VOut(ConfigMap&,ForeachCell& fc,Timers&):VProbe(fc,"output"){} };
struct VChk : VProbe { VChk(ConfigMap&,ForeachCell& fc,Timers&):VProbe(fc,"checkpoint"){} };
template<int K> struct VDt : Compute_dt { VDt(ConfigMap&,ForeachCell&,Timers&){} void compute_dt(const UserData&,ScalarSimulationData& sd){ auto& d=watch().dts[K]; sd.set<real_t>("dt",d[sd.get<int>("iter")%d.size()]); } };
/// every cycle: refine the first octant of the mesh
struct VRef : RefineCondition { ForeachCell& fc; VRef(ConfigMap&,ForeachCell& fc,Timers&):fc(fc){} void mark_cells(UserData&,ScalarSimulationData& sd){ int r=fmpi::current_rank(); watch().ev[r].push_back({"amr",sd.get<int>("iter"),sd.get<real_t>("time"),0,{}}); stamp(r,sd); if(r==0) fc.get_amr_mesh().setMarker(0,1); } };
/// adds one to the density
struct VHyd : HydroUpdate { ForeachCell& fc; VHyd(ConfigMap&,ForeachCell& fc,Timers&):fc(fc){} void update(UserData& U,ScalarSimulationData& sd){ int r=fmpi::current_rank(); AMRmesh& am=fc.get_amr_mesh(); auto A=U.getAccessor({{"rho",(VarIndex)0},{"rho_next",(VarIndex)1}}); const Box& B=scene().B; double v=NAN; for(uint32_t o=0;o<am.getNumOctants();o++) for(uint32_t l=0;l<ncell(B.b);l++){ auto c=Rank::ci(B.b,o,l); v=A.at(c,(VarIndex)0); A.at(c,(VarIndex)1)=v+1; } watch().ev[r].push_back({"step",sd.get<int>("iter"),sd.get<real_t>("time"),sd.get<real_t>("dt"),{am.getNumOctants(),(uint32_t)(am.getNumOctants()?v:1e6)}}); stamp(r,sd); if(watch().stop_rank==r && watch().stop_iter==sd.get<int>("iter")) DyabloTimeLoop::interrupt_handler(2); } };
/// constant state on the coarse mesh
struct VIni : InitialConditions { VIni(ConfigMap&,ForeachCell& fc,Timers&):fc(fc){} ForeachCell& fc; void init(UserData& U){ on_scene(fc); U.new_fields({"rho","e_tot","rho_vx","rho_vy","rho_vz"}); auto A=U.getAccessor({{"rho",(VarIndex)0},{"e_tot",(VarIndex)1},{"rho_vx",(VarIndex)2},{"rho_vy",(VarIndex)3},{"rho_vz",(VarIndex)4}}); const Box& B=scene().B; for(uint32_t o=0;o<fc.get_amr_mesh().getNumOctants();o++) for(uint32_t l=0;l<ncell(B.b);l++) for(int f=0;f<5;f++) A.at(Rank::ci(B.b,o,l),(VarIndex)f)= f<2?1:0; } };

/// one of two states in each quadrant/octant of the domain (bits of the pattern), with fields for MHD
struct VPat : InitialConditions { ForeachCell& fc; int pat; bool mhd,glm; VPat(ConfigMap& cm,ForeachCell& fc,Timers&):fc(fc),pat(cm.getValue<int>("verif","pattern",0)){ auto u=cm.getValue<std::string>("hydro","update"); mhd=u.find("MHD")!=std::string::npos; glm=u.find("GLM")!=std::string::npos; }
  void init(UserData& U){ on_scene(fc); const Box& B=scene().B; int nf=glm?9:mhd?8:5; auto& nm=cons_names(); std::set<std::string> all(nm.begin(),nm.begin()+nf); U.new_fields(all); std::vector<UserData::FieldAccessor_FieldInfo> fi; for(int f=0;f<nf;f++) fi.push_back({nm[f],(VarIndex)f}); auto A=U.getAccessor(fi); auto lo=local_octs(fc.get_amr_mesh(),B.D);
    for(size_t o=0;o<lo.size();o++) for(uint32_t l=0;l<ncell(B.b);l++){ Cell c=cell_of(B.b,lo[o],l); int q=0; for(int d=0;d<B.D.dim;d++) if(2*(lo[o].c(d)*B.b[d]+c.c(d))+1>B.D.count(d,lo[o].l)*B.b[d]) q|=1<<d; if(B.D.dim==3) q=(q&3)^((q>>2)*3); Prim p; if((pat>>q)&1){ p.r=1.5; p.p=2; p.u=.3; p.v=-.2; p.w=.1; p.bx=.2; p.by=.1; p.bz=-.3; } else { p.r=.8; p.p=.7; p.u=-.1; p.v=.4; p.w=-.3; p.bx=-.2; p.by=.3; p.bz=.1; } if(B.D.dim==2) p.w=0; if(!mhd) p.bx=p.by=p.bz=0; Q9 s=cons(p,1.4); for(int f=0;f<nf;f++) A.at(Rank::ci(B.b,o,l),(VarIndex)f)=s[f]; } } };
/// a tracer in every third cell
struct VTra : InitialConditions { ForeachCell& fc; VTra(ConfigMap&,ForeachCell& fc,Timers&):fc(fc){} void init(UserData& U){ on_scene(fc); const Box& B=scene().B; auto lo=local_octs(fc.get_amr_mesh(),B.D); std::vector<std::array<double,4>> P; for(auto& o : lo) for(uint32_t l=0;l<ncell(B.b);l++){ Cell c=cell_of(B.b,o,l); if((c.i+c.j+o.x+2*o.y)%3) continue; std::array<double,4> p{}; for(int d=0;d<B.D.dim;d++) p[d]=B.lo[d]+(o.c(d)*B.b[d]+c.c(d)+.3+.15*d)*B.dx(d,o.l); p[3]=o.x+10*o.y+100*l; P.push_back(p); }
    U.new_ParticleArray("particles",P.size()); for(const char* n : {"tag","mass","vx","vy","vz"}) U.new_ParticleAttribute("particles",n); auto A=U.getParticleArray("particles"); auto T=U.getParticleAccessor("particles",{{"tag",0},{"mass",1},{"vx",2},{"vy",3},{"vz",4}}); for(size_t i=0;i<P.size();i++){ for(int d=0;d<3;d++) A.pos(i,(ComponentIndex3D)d)=P[i][d]; double t=P[i][3]; T.at(i,0)=t; T.at(i,1)=.0005*(1+(int)t%5); T.at(i,2)=.2*((int)t%3-1); T.at(i,3)=.1*((int)t%7-3); T.at(i,4)=0; } } };

/// one simulation on n processes; configuration text
inline fmpi::Result simulate(int n,const std::string& text,const fmpi::Options& opt={}){ { std::ofstream("in.ini")<<text; } DyabloTimeLoop::interrupted=0; watch().ev.assign(n,{}); snaps().clear(); snap_count().clear();
  return fmpi::run(n,[&](int){ ConfigMap cm=ConfigMap::broadcast_parameters("in.ini"); DyabloTimeLoop sim(cm); sim.run(); },opt); }
}
FACTORY_REGISTER(dyablo::IOManagerFactory,dy::VOut,"verif_output") FACTORY_REGISTER(dyablo::IOManagerFactory,dy::VChk,"verif_checkpoint")
FACTORY_REGISTER(dyablo::Compute_dtFactory,dy::VDt<0>,"verif_dt0") FACTORY_REGISTER(dyablo::Compute_dtFactory,dy::VDt<1>,"verif_dt1")
FACTORY_REGISTER(dyablo::RefineConditionFactory,dy::VRef,"verif_refine") FACTORY_REGISTER(dyablo::HydroUpdateFactory,dy::VHyd,"verif_update") FACTORY_REGISTER(dyablo::InitialConditionsFactory,dy::VIni,"verif_init") FACTORY_REGISTER(dyablo::InitialConditionsFactory,dy::VPat,"verif_pattern") FACTORY_REGISTER(dyablo::InitialConditionsFactory,dy::VTra,"verif_tracers")
