// Time step limits, refinement criteria, particle-mesh coupling
#include "lookup.h"
#include "compute_dt/Compute_dt.h"
#include "refine_condition/RefineCondition.h"
#include "particles/ParticleUpdate.h"
#include <cstring>
using namespace dy;
static const double G=1.4;
static double u01(uint64_t a,uint64_t b,uint64_t c,uint64_t d=0){ uint64_t h=mc::Hash().add(a).add(b).add(c).add(d).h; h^=h>>31; h*=0x9E3779B97F4A7C15ull; h^=h>>29; return (double)((h>>13)&((1ull<<40)-1))/(double)(1ull<<40); }
static uint64_t oh(const Oct& o){ return mc::Hash().add(o.l).add(o.x).add(o.y).add(o.z).h; }
struct Part { std::array<double,3> x; std::array<double,3> v; double m; int cell; };

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough;
    struct TC{ Box B; int k; std::vector<int> ranks; }; std::vector<TC> tc;
    auto add=[&](Domain D,Block b,std::array<double,3> len,int k,std::vector<int> r){ Box B; B.D=D; B.b=b; B.len=len; B.lo={-.25,.5,mode=="dt"||D.dim==3?.125:0}; B.walls("reflecting"); tc.push_back({B,k,r}); };
    std::vector<int> R=T?std::vector<int>{1,2,3,4}:std::vector<int>{1,3};
    bool per= mode=="deposit"||mode=="move";
    add(dom(2,1,3,{2,2,1},{1,1,0}),{2,2,1},{1,1,1},T?6:4,R);
    add(dom(2,2,3,{3,2,1},{1,per,0}),{4,3,1},{1.5,1,1},T?4:2,R);
    add(dom(3,1,3,{2,2,2},{1,1,1}),{2,2,2},{1,.5,2},T?2:1,R);
    if(per){ add(dom(2,2,4,{4,4,1},{1,1,0}),{1,1,1},{1,2,1},T?3:2,R); add(dom(3,1,2,{2,1,2},{1,1,1}),{1,2,3},{1,.5,1},T?3:2,R);
      add(dom(2,2,4,{2,3,1},{0,0,0}),{2,2,1},{1,.75,1},T?4:2,R); add(dom(2,1,3,{2,1,1},{0,1,0}),{1,1,1},{1,1,1},T?5:3,R); add(dom(3,1,2,{2,1,2},{0,1,0}),{2,2,2},{1,.5,1.5},T?2:1,R); }
    else { add(dom(2,2,4,{2,3,1},{0,0,0}),{4,4,1},{1,.75,1},T?4:3,R); add(dom(3,1,2,{2,1,2},{0,1,0}),{4,2,4},{1,.5,1.5},T?3:2,R); if(mode=="criteria") add(dom(3,1,2,{2,1,2},{0,1,0}),{4,6,4},{1,.5,1.5},T?2:1,R); }
    auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };

    if(mode=="dt"){
      struct K{ std::string id, update, extra; int nf; }; std::vector<K> ks{{"Compute_dt_hydro","HydroUpdate_hancock","[dt]\nhydro_cfl=0.3\n",5},{"Compute_dt_hydro","MHDUpdate_euler","[dt]\nhydro_cfl=0.3\n",8},{"Compute_dt_hydro","GLMMHDUpdate_euler","[hydro]\ncfl=0.25\n",9},{"Compute_dt_particle_velocity","HydroUpdate_hancock","[dt]\nparticle_cfl=0.4\n",0},
        {"Compute_dt_parabolic","HydroUpdate_hancock","[dt]\nparabolic_cfl=0.2\n[viscosity]\nupdate=ParabolicUpdate_explicit\nviscosity_type=uniform\nmu=0.3\n[thermal_conduction]\nupdate=none\n",0},
        {"Compute_dt_parabolic","HydroUpdate_hancock","[dt]\nparabolic_cfl=0.2\n[viscosity]\nupdate=none\n[thermal_conduction]\nupdate=ParabolicUpdate_explicit\nthermal_conduction_type=uniform\nkappa=0.7\n",0},
        {"Compute_dt_parabolic","HydroUpdate_hancock","[dt]\nparabolic_cfl=0.2\n[viscosity]\nupdate=ParabolicUpdate_explicit\nviscosity_type=uniform\nmu=0.3\n[thermal_conduction]\nupdate=ParabolicUpdate_explicit\nthermal_conduction_type=uniform\nkappa=0.1\n",0},
        {"Compute_dt_legacy","HydroUpdate_legacy","[hydro]\ncfl=0.3\n",5}};
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ for(auto& hh : partitions(m,h,n)) for(size_t q=0;q<ks.size();q++) for(int pat=0;pat<4;pat++){
        if(pat && !(ks[q].nf||q==3)) continue; if(c.skip()) continue; if(!c.begin(mc::cat("dt ",ks[q].id," ",ks[q].update," #",q," ",str(t.B)," ranks=",n," | ",ref::str(hh)," | data ",pat))) continue;
        const Box& B=t.B; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; auto& k=ks[q]; double inv=0; const int dim=B.D.dim;
        std::vector<Q9> F; std::vector<Part> P;
        size_t hot = pat%2 ? (size_t)(u01(oh(fm.leaves[0]),pat,fm.size())*fm.size()*nc) : (pat==0?0:fm.size()*nc-1); // one cell carries the fastest signal
        for(size_t g=0;g<fm.size()*nc;g++){ auto r=[&](int f){ return u01(oh(fm.leaves[g/nc]),g%nc,f,pat); }; Prim p; p.r=.5+r(0); p.p=.5+r(1); p.u=r(2)-.5; p.v=r(3)-.5; p.w=dim==3?r(4)-.5:0; if(k.nf>5){ p.bx=.6*(r(5)-.5); p.by=.6*(r(6)-.5); p.bz=.6*(r(7)-.5); }
          if(g==hot){ double big=30; int what=(pat+q)%4; if(what==0) p.u=-big; else if(what==1){ p.v=dim==3&&pat==3?0:big; if(p.v==0) p.w=big; } else if(what==2) p.p=900; else { if(k.nf>5) (pat%2?p.bz:p.by)=-big; else p.u=big; } }
          F.push_back(cons(p,G)); double s=0, cs=sqrt(G*p.p/p.r), V[3]={p.u,p.v,p.w}, Bq[3]={p.bx,p.by,p.bz}, B2=p.bx*p.bx+p.by*p.by+p.bz*p.bz; for(int d=0;d<dim;d++) s+=(fabs(V[d])+cs)/L.size(g,d);
          if(k.nf) inv=std::max(inv,s); if(k.nf>5) for(int d=0;d<dim;d++){ double a=cs*cs, b=B2/p.r, cf=sqrt(.5*(a+b+sqrt(std::max(0.,(a+b)*(a+b)-4*a*Bq[d]*Bq[d]/p.r)))); inv=std::max(inv,(fabs(V[d])+cf)/L.size(g,d)); } }
        if(q==3) for(size_t g=0;g<fm.size()*nc;g++){ if(pat==1 ? g!=hot : u01(g,3,pat)>.4) continue; Part p; p.cell=(int)g; double mn=1e9,v2=0; for(int d=0;d<3;d++){ p.x[d]= d<dim? L.lo(g,d)+L.size(g,d)*(.1+.8*u01(g,d,7)) : B.lo[2]+.25*B.len[2]; p.v[d]=u01(g,d,9,pat)-.5; if(g==hot) p.v[d]*=20; if(d<dim){ mn=std::min(mn,L.size(g,d)); v2+=p.v[d]*p.v[d]; } } p.m=1; P.push_back(p); inv=std::max(inv,sqrt(v2)/mn); }
        if(q>3&&q<7){ double co=q==4?.3:q==5?.7:.3; for(size_t g=0;g<fm.size()*nc;g++) for(int d=0;d<dim;d++) inv=std::max(inv,co/(L.size(g,d)*L.size(g,d))); }
        double cfl= q<2||q==7?.3:q==2?.25:q==3?.4:.2; std::string e;
        auto r=run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,"[hydro]\nupdate="+k.update+"\ngamma0=1.4\n"+k.extra));
          for(int f=0;f<std::max(5,k.nf);f++) K.set(cons_names()[f],[&](int leaf,uint32_t l){ return F[leaf*nc+l][f]; });
          if(q==3){ std::set<int> mine(K.loc.begin(),K.loc.end()); std::vector<Part> M; for(auto& p : P) if(mine.count(p.cell/nc)) M.push_back(p); K.U.new_ParticleArray("particles",M.size()); for(auto a : {"vx","vy","vz"}) K.U.new_ParticleAttribute("particles",a); auto PP=K.U.getParticleArray("particles"); auto A=K.U.getParticleAccessor("particles",{{"vx",0},{"vy",1},{"vz",2}}); for(size_t i=0;i<M.size();i++) for(int d=0;d<3;d++){ PP.pos(i,(ComponentIndex3D)d)=M[i].x[d]; A.at(i,d)=M[i].v[d]; } }
          auto cd=Compute_dtFactory::make_instance(k.id,K.cm,K.fc,K.tm); ScalarSimulationData sd; sd.set<real_t>("dt",-1); cd->compute_dt(K.U,sd); double dt=sd.get<real_t>("dt"), ex=cfl/inv;
          if(!(fabs(dt-ex)<=1e-8*ex) && !(P.empty()&&q==3&&dt>0)) err(e,mc::cat("dt is ",dt,", the limit of the fastest cell gives ",ex)); });
        c.trace(); c.transition(); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%999==1) c.sample(c.desc());
        if(!r.ok) c.violation(mc::cat(r.kind,":",k.id,":",key(B.D,n)),r.error); else if(!e.empty()) c.violation(mc::cat("dt:",k.id,":",k.update,":",key(B.D,n)),e);
      } } });
      return; }

    if(mode=="criteria"){
      struct K{ std::string id, extra; int kind; }; std::vector<K> ks{{"RefineCondition_pseudo_gradient","[amr]\nepsilon_refine=0.35\nepsilon_coarsen=0.12\n",0},{"RefineCondition_second_derivative_error","[amr]\nerror_min=0.55\nerror_max=0.85\n",1},{"RefineCondition_legacy","[amr]\nerror_min=0.55\nerror_max=0.85\n",1},{"RefineCondition_legacy","[amr]\nerror_min=0.55\nerror_max=0.85\nnbOctsPerGroup=3\n",1},{"RefineCondition_mass","",2},{"RefineCondition_mass","[particles]\nupdate_density=ParticleUpdate_NGP_density\n",3},{"RefineCondition_downflows","[amr]\ndownflow_sign=-1\nvelocity_refine=0.3\nvelocity_coarsen=-0.2\n",4},{"RefineCondition_downflows","[amr]\nvelocity_refine=0.3\nvelocity_coarsen=-0.2\n",5}};
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ for(auto& hh : partitions(m,h,n)) for(size_t q=0;q<ks.size();q++) for(int pat=0;pat<4;pat++){
        auto& k=ks[q]; if(k.kind==1 && (t.B.b[0]<4||t.B.b[1]<4||t.B.b[0]%2||t.B.b[1]%2)) { if(!(t.B.b[0]==2&&t.B.b[1]==2) || k.id=="RefineCondition_legacy") continue; } if(k.id=="RefineCondition_legacy" && t.B.D.dim==3 && (t.B.b[2]<4||t.B.b[1]<4)) continue;
        if(c.skip()) continue; if(!c.begin(mc::cat("criteria ",k.id," #",q," ",str(t.B)," ranks=",n," | ",ref::str(hh)," | data ",pat))) continue;
        const Box& B=t.B; const int dim=B.D.dim; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; std::vector<Q9> F; bool close=false;
        // per leaf: quiet (coarsen), middling, or one active cell (refine)
        for(size_t g=0;g<fm.size()*nc;g++){ uint64_t o=oh(fm.leaves[g/nc]); int act=(int)(u01(o,77,pat)*3); if(pat==2 && act==1) act=0; if(pat==3) act=u01(o,79,fm.size())<.08?2:0; bool hot= act==2 && (int)(u01(o,78,pat)*nc)==(int)(g%nc); auto r=[&](int f){ return 2*u01(o,g%nc,f,pat)-1; }; Prim p;
          double a= k.kind==1?(act==0?.001:.03): act==0?.02:.1; p.r=1+a*r(0); p.p=1+a*r(1); p.u=.1*r(2); p.v=(k.kind>=4?-.4:0)+.05*r(3); p.w=(k.kind>=4?-.4:0)+.05*r(4); if(k.kind==4){ p.v*=-1; p.w*=-1; p.v*=-1; p.w*=-1; }
          if(k.kind==4||k.kind==5){ double base= act==0?-.5:.1; double dn=k.kind==4?-1:1; double v= hot? .8 : base+.05*r(3); (dim==2?p.v:p.w)=dn*v; }
          else if(hot){ if(k.kind==1&&pat==1) p.p*=2.5; else p.r*=(k.kind>=2? 6 : 2.2); }
          if((k.kind==2||k.kind==3) && act==1) p.r*=2; if(dim==2) p.w=0; F.push_back(cons(p,G)); }
        double mref=0; { double v=1; for(int d=0;d<dim;d++) v*=B.len[d]/((double)B.D.count(d,B.D.lmin+1)*B.b[d]); mref=v; }
        std::vector<Part> P; if(k.kind==3) for(size_t g=0;g<fm.size()*nc;g++) if(u01(g,5,pat)<.2){ Part p; p.cell=(int)g; p.m=2.5*mref*u01(g,6,pat); for(int d=0;d<3;d++){ p.x[d]= d<dim? L.lo(g,d)+L.size(g,d)*(.1+.8*u01(g,d,7)) : B.lo[2]; p.v[d]=0; } P.push_back(p); }
        std::vector<double> pm(F.size(),0); for(auto& p : P) pm[p.cell]+=p.m;
        std::string extra=k.extra; if(k.kind==2||k.kind==3) extra+=mc::cat("[amr]\nmass_refine=",3*mref,"\nmass_coarsen=",.7*mref,"\n");
        std::vector<int> want(fm.size(),-1);
        for(size_t g=0;g<F.size();g++){ double lo=0,hi=0,v=0; 
          if(k.kind==0){ lo=.12; hi=.35; for(int d=0;d<dim;d++) for(int s=-1;s<2;s+=2){ std::array<int,3> off{0,0,0}; off[d]=s; for(int j : L.shifted((int)g,off)){ 
                if(L.level(j)>L.level(g)){ long a[3],w,b[3],w2; L.box(g,a,w); L.box(j,b,w2); long p=s>0?a[d]+w:a[d]-w2; p=((p%L.n[d])+L.n[d])%L.n[d]; if(b[d]!=p) continue; } // only smaller cells in contact
                double x=F[g][0], y=F[j][0], mx=std::max(fabs(x),fabs(y)); if(mx>=.001) v=std::max(v,std::min(1.,fabs(x-y)/mx)); } } }
          else if(k.kind==1){ lo=.55; hi=.85; auto val=[&](int d,int s,int f){ std::array<int,3> off{0,0,0}; off[d]=s; auto js=L.shifted((int)g,off); Q9 a{}; if(js.empty()) a=F[g]; else { for(int j : js) for(int e=0;e<9;e++) a[e]+=F[j][e]/js.size(); } Prim p=prim(a,G); return f?p.p:p.r; };
            for(int f=0;f<2;f++) for(int d=0;d<dim;d++){ Prim p=prim(F[g],G); double qc=f?p.p:p.r, ql=val(d,-1,f), qr=val(d,1,f); v=std::max(v,fabs(ql+qr-2*qc)/(fabs(qr-qc)+fabs(ql-qc)+.01*(fabs(qr)+fabs(ql)+2*fabs(qc)))); } }
          else if(k.kind<=3){ lo=.7*mref; hi=3*mref; double vol=1; for(int d=0;d<dim;d++) vol*=L.size(g,d); v=F[g][0]*vol+pm[g]/(dim==2?L.size(g,2):1); }
          else { lo=-.2; hi=.3; v=(k.kind==4?-1:1)*F[g][dim==2?3:4]/F[g][0]; }
          if(fabs(v-lo)<1e-9*fabs(lo)||fabs(v-hi)<1e-9*fabs(hi)) close=true; int mk= v>hi?1:v<=lo?-1:0; want[g/nc]=std::max(want[g/nc],mk); }
        if(close){ c.count("skipped: value at a threshold"); continue; }
        for(size_t i=0;i<fm.size();i++){ if(want[i]==1&&fm.leaves[i].l>=B.D.lmax) want[i]=0; if(want[i]==-1&&fm.leaves[i].l<=B.D.lmin) want[i]=0; c.count(want[i]>0?"refine":want[i]<0?"coarsen":"keep"); }
        std::set<Oct> expect; for(auto& o : fm.adapt(want).leaves) expect.insert(o); std::string e; std::vector<Oct> got;
        auto r=run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,"[hydro]\ngamma0=1.4\n"+extra)); std::vector<std::string> nm(cons_names().begin(),cons_names().begin()+5);
          for(int f=0;f<5;f++) K.set(nm[f],[&](int leaf,uint32_t l){ return F[leaf*nc+l][f]; });
          if(k.kind==3){ std::set<int> mine(K.loc.begin(),K.loc.end()); std::vector<Part> M; for(auto& p : P) if(mine.count(p.cell/nc)) M.push_back(p); K.U.new_ParticleArray("particles",M.size()); K.U.new_ParticleAttribute("particles","mass"); auto PP=K.U.getParticleArray("particles"); auto A=K.U.getParticleAccessor("particles",{{"mass",0}}); for(size_t i=0;i<M.size();i++){ A.at(i,0)=M[i].m; for(int d=0;d<3;d++) PP.pos(i,(ComponentIndex3D)d)=M[i].x[d]; } }
          K.exchange(nm,2); auto before=K.U.getEnabledFields(); auto rc=RefineConditionFactory::make_instance(k.id,K.cm,K.fc,K.tm); ScalarSimulationData sd; rc->mark_cells(K.U,sd);
          if(K.U.getEnabledFields()!=before) err(e,"evaluating the criterion changed the set of fields"); for(int f=0;f<5;f++) K.get(nm[f],[&](int leaf,uint32_t l,double v){ if(v!=F[leaf*nc+l][f]) err(e,"evaluating the criterion changed the data"); });
          am.adapt(); for(auto& o : local_octs(am,B.D)) got.push_back(o); });
        c.trace(); c.transition(); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%999==1) c.sample(c.desc());
        if(!r.ok){ c.violation(mc::cat(r.kind,":",k.id,":",key(B.D,n)),r.error); continue; }
        if(e.empty() && (got.size()!=expect.size() || std::set<Oct>(got.begin(),got.end())!=expect)){ for(auto& o : got) if(!expect.count(o)){ e=mc::cat("after adapting, leaf ",ref::str(o)," should not exist: "); for(size_t i=0;i<fm.size();i++) if(fm.touch(fm.leaves[i],o)) e+=mc::cat(ref::str(fm.leaves[i]),want[i]>0?"+":want[i]<0?"-":"0"," "); break; } if(e.empty()) e="wrong leaves"; }
        if(!e.empty()) c.violation(mc::cat("criteria:",k.id,":",key(B.D,n)),e);
      } } });
      return; }

    if(per){
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ for(auto& hh : partitions(m,h,n)) for(int kind=0;kind<(mode=="move"?3:2);kind++) for(int pat=0;pat<(kind==2?5:4);pat++){ if(pat==4 && t.B.D.per[0]&&t.B.D.per[1]&&(t.B.D.dim==2||t.B.D.per[2])) continue; // 4: tracers that may cross a wall
        std::string id= mode=="move" ? (kind==0?"ParticleUpdate_NGP_move":kind==1?"ParticleUpdate_CIC_move":"ParticleUpdate_tracers_move") : kind==0?"ParticleUpdate_NGP_density":"ParticleUpdate_CIC_density";
        if(c.skip()) continue; if(!c.begin(mc::cat(mode," ",id," ",str(t.B)," ranks=",n," | ",ref::str(hh)," | data ",pat))) continue;
        const Box& B=t.B; const int dim=B.D.dim; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; bool uni=true; for(auto& o : fm.leaves) if(o.l!=fm.leaves[0].l) uni=false; std::string e;
        const double off[5][3]={{.5,.5,.5},{.1,.8,.3},{.75,.3,.9},{.95,.97,.02},{.1,.8,.3}}; const double hx=1./64;
        std::vector<Part> P; for(size_t g=0;g<fm.size()*nc;g++) if(pat!=3||u01(g,4,fm.size())<.5){ Part p; p.cell=(int)g; for(int d=0;d<3;d++){ double f= pat!=3?off[pat][d]:off[(int)(u01(g,2,d)*4)][d]; p.x[d]= d<dim? L.lo(g,d)+L.size(g,d)*f : 0; p.v[d]=d<dim? (u01(g,d,3,pat)-.5)*2 : 0; } p.m=1+(double)(int)(u01(g,8,pat)*8); P.push_back(p); }
        auto vol=[&](int g){ double v=1; for(int d=0;d<3;d++) v*=L.size(g,d); return v; };
        auto gas=[&](int g){ return 1+u01(oh(fm.leaves[g/nc]),g%nc,0); }; const bool walls=!(B.D.per[0]&&B.D.per[1]&&(dim==2||B.D.per[2])); double dt= walls&&pat!=4? 1./4096 : .125; size_t crossing=0; // particles stay in domains with walls
        auto grav=[&](int g,int d){ if(d>=dim) return 0.; return pat==2||!uni? .5-.25*d : u01(oh(fm.leaves[g/nc]),g%nc,d+1)-.5; }; // uniform on meshes with level jumps
        bool ngp= kind!=1; auto gv=[&](int g,int d){ return ngp && d<dim ? u01(oh(fm.leaves[g/nc]),g%nc,d+1)-.5 : grav(g,d); };
        // cloud-in-cell weights of a particle on a uniform mesh
        auto cloud=[&](const Part& p,const std::function<void(int,double)>& f){ std::array<int,3> s{0,0,0}; double w[3]={0,0,0}; for(int d=0;d<dim;d++){ double x=(p.x[d]-L.lo(p.cell,d))/L.size(p.cell,d)-.5; s[d]=x>=0?1:-1; w[d]=fabs(x); } for(int q=0;q<(1<<dim);q++){ std::array<int,3> o{0,0,0}; double ww=1; for(int d=0;d<dim;d++){ if(q>>d&1){ o[d]=s[d]; ww*=w[d]; std::array<int,3> od{0,0,0}; od[d]=s[d]; if(L.shifted(p.cell,od).empty()) o[d]=0; } else ww*=1-w[d]; } f(L.shifted(p.cell,o)[0],ww); } };
        std::vector<double> got(fm.size()*nc,0), want(fm.size()*nc,0); for(size_t g=0;g<want.size();g++) want[g]=gas((int)g); double mass=0,mgas=0; for(size_t g=0;g<want.size();g++) mgas+=gas((int)g)*vol((int)g);
        if(mode=="deposit"){ for(auto& p : P){ mass+=p.m; if(kind==0) want[p.cell]+=p.m/vol(p.cell); else if(uni) cloud(p,[&](int g,double w){ want[g]+=w*p.m/vol(g); }); } }
        std::vector<int> seen(P.size(),0);
        auto r=run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr)); std::set<int> mine(K.loc.begin(),K.loc.end()); std::vector<int> M; for(size_t i=0;i<P.size();i++) if(mine.count(P[i].cell/nc)) M.push_back((int)i);
          K.U.new_ParticleArray("particles",M.size()); for(auto a : {"vx","vy","vz","mass","id"}) K.U.new_ParticleAttribute("particles",a); auto PP=K.U.getParticleArray("particles"); auto A=K.U.getParticleAccessor("particles",{{"vx",0},{"vy",1},{"vz",2},{"mass",3},{"id",4}}); for(size_t i=0;i<M.size();i++){ A.at(i,3)=P[M[i]].m; A.at(i,4)=M[i]; for(int d=0;d<3;d++){ PP.pos(i,(ComponentIndex3D)d)=P[M[i]].x[d]; A.at(i,d)=P[M[i]].v[d]; } }
          auto up=ParticleUpdateFactory::make_instance(id,K.cm,K.fc,K.tm); ScalarSimulationData sd; sd.set<real_t>("dt",dt);
          K.set("rho",[&](int leaf,uint32_t l){ return gas(leaf*nc+l); });
          if(mode=="deposit"){ K.U.new_fields({"rho_g"}); up->update(K.U,sd); if(pat==1) up->update(K.U,sd); // projecting again gives the same density
            K.get("rho_g",[&](int leaf,uint32_t l,double v){ got[leaf*nc+l]=v; }); K.get("rho",[&](int leaf,uint32_t l,double v){ if(v!=gas(leaf*nc+l)) err(e,"the gas density changed"); }); }
          else { for(int d=0;d<3;d++){ K.set(std::string("g")+"xyz"[d],[&](int leaf,uint32_t l){ return gv(leaf*nc+l,d); }); K.set(std::string("rho_v")+"xyz"[d],[&](int leaf,uint32_t l){ return gas(leaf*nc+l)*gv(leaf*nc+l,d); }); } K.exchange({"gx","gy","gz"},1); up->update(K.U,sd); 
            for(size_t i=0;i<M.size();i++){ const Part& p=P[M[i]]; std::array<double,3> v=p.v,x=p.x; for(int d=0;d<dim;d++){ double a=0; if(kind==0||kind==2) a=gv(p.cell,d); else if(uni) cloud(p,[&](int g,double w){ a+=w*gv(g,d); }); else a=gv(p.cell,d); if(kind==2) x[d]+=dt*a; else { v[d]+=dt*a; x[d]+=dt*v[d]; } }
              if(A.at(i,3)!=p.m||A.at(i,4)!=M[i]) err(e,"another attribute changed");
              for(int d=0;d<3;d++){ double g=PP.pos(i,(ComponentIndex3D)d); if(d<dim){ if(x[d]<B.lo[d]) x[d]+=B.len[d]; else if(x[d]>=B.lo[d]+B.len[d]) x[d]-=B.len[d]; } double df=fabs(g-x[d]); if(d<dim) df=std::min(df,fabs(B.len[d]-df)); if(!(df<=1e-12) ) err(e,mc::cat("particle ",M[i]," at ",p.x[0],",",p.x[1],",",p.x[2]," moved to ",g," along ",d,", expected ",x[d])); if(d<dim && !(g>=B.lo[d] && g<B.lo[d]+B.len[d])) err(e,mc::cat("particle ",M[i]," left the periodic domain: ",g," along ",d)); if(!(fabs(A.at(i,d)-v[d])<=1e-12)) err(e,mc::cat("particle ",M[i]," has velocity ",A.at(i,d)," along ",d,", expected ",v[d])); }
              seen[M[i]]++; } K.U.distributeAllParticles(); (void)hx; } });
        c.trace(); c.transition(); c.evaluation(P.size()); c.state(mc::Hash().str(c.desc()).h); if(c.traces%999==1) c.sample(c.desc());
        if(pat==4) for(auto& p : P){ bool out=false; for(int d=0;d<dim;d++) if(!B.D.per[d]){ double x=p.x[d]+dt*gv(p.cell,d); out|= x<B.lo[d]||x>=B.lo[d]+B.len[d]; } crossing+=out; }
        if(crossing){ if(r.ok||r.kind!="exception"||r.error.find("left the domain")==std::string::npos) c.violation(mc::cat("crossing:",id,":",key(B.D,n)),mc::cat(crossing," tracers cross a wall: ",r.ok?"not reported":r.kind+": "+r.error)); else c.count("crossings_reported"); continue; }
        if(!r.ok){ c.violation(mc::cat(r.kind,":",id,":",key(B.D,n)),r.error); continue; }
        if(mode=="deposit" && e.empty()){ double tot=0; for(size_t g=0;g<got.size();g++) tot+=got[g]*vol((int)g); if(!(fabs(tot-mgas-mass)<=1e-11*(mgas+mass))) e=mc::cat("the projected mass is ",tot-mgas,", the particles have ",mass); 
          if(e.empty() && (kind==0||uni)) for(size_t g=0;g<got.size();g++) if(!(fabs(got[g]-want[g])<=1e-11*want[g])){ e=mc::cat("density of cell ",str(L.cell((int)g))," is ",got[g],", expected ",want[g]); break; } }
        if(mode=="move" && e.empty()) for(size_t i=0;i<P.size();i++) if(seen[i]!=1) e="a particle was lost";
        if(!e.empty()) c.violation(mc::cat(mode,":",id,uni?":uniform":":levels",pat==1?":twice:":":",key(B.D,n)),e);
      } } });
      return; }
  });
}
