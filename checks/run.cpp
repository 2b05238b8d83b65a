// Whole simulations through the real time loop: what happens at which step, independence of the decomposition, restart
#include "loop.h"
#include <cstring>
using namespace dy;

/// times and iterations of a run, from the configuration
struct Sched { int of=-1,cf=-1,amr=1,lb=1000; double ots=-1,cts=-1; int nstep=1000; double tend=0; int use=-1; int iter0=0; double t0=0; std::vector<double> d0,d1; bool eo=true,ec=true; int nlog=10; int stop_iter=-1,stop_rank=0;
  std::string str() const { std::string s=mc::cat("out ",of,"/",ots," chk ",cf,"/",cts," amr ",amr," lb ",lb," nstep ",nstep," tEnd ",tend," use ",use," start ",iter0,"/",t0," dt"); for(double d : d0) s+=mc::cat(" ",d); s+=" |"; for(double d : d1) s+=mc::cat(" ",d); return s+mc::cat(eo?"":" nooutput",ec?"":" nocheckpoint"," nlog ",nlog,stop_iter>=0?mc::cat(" interrupt ",stop_iter,"@",stop_rank):""); }
  std::string config() const { return mc::cat("[run]\ninitial_conditions=verif_init\nnstepmax=",nstep,"\ntEnd=",tend,"\n",use<0?"":use?"use_tEnd=true\n":"use_tEnd=false\n","iter_start=",iter0,"\ntStart=",t0,"\noutput_frequency=",of,"\ncheckpoint_frequency=",cf,"\noutput_timeslice=",ots,"\ncheckpoint_timeslice=",cts,"\nenable_output=",eo?"true":"false","\nenable_checkpoint=",ec?"true":"false","\nnlog=",nlog,
      "\n[cosmology]\nlookup_size=4\n[amr]\ncycle_frequency=",amr,"\nload_balancing_frequency=",lb,"\nloadbalance_coherent_levels=0\nmarkers_kernel=verif_refine\n[dt]\ndt_kernel=verif_dt0",d1.empty()?"":",verif_dt1","\n[hydro]\nupdate=verif_update\n[output]\nbackend=verif_output\ncheckpoint=verif_checkpoint\n"); }
  struct E { std::string k; int iter; double time, dt; bool operator==(const E& e) const { return k==e.k&&iter==e.iter&&time==e.time&&dt==e.dt; } };
  std::vector<E> expected(std::vector<int>* lbs,std::vector<int>* amrs) const { std::vector<E> r; int it=iter0; double t=t0; bool first=true; bool useT= use<0? tend>0 : use==1; bool intr=false;
    auto every=[&](int f){ return f>0 && it%f==0 && it!=iter0; }; double seen_o=t0, seen_c=t0; auto crossed=[&](double ts,double& seen){ if(!(ts>0)) return false; bool c=std::floor(t/ts)>std::floor(seen/ts); seen=t; return c; };
    auto over=[&](){ return intr || (nstep>0&&it>=nstep) || (useT&&t>=tend); };
    while(!over()){ bool o1=every(of), o2=crossed(ots,seen_o), c1=every(cf), c2=crossed(cts,seen_c); if(eo&&(first||o1||o2)) r.push_back({"output",it,t,0}); first=false; if(ec&&(c1||c2)) r.push_back({"checkpoint",it,t,0});
      double dt=d0[it%d0.size()]; if(!d1.empty()) dt=std::min(dt,d1[it%d1.size()]); if(useT&&t+dt>tend) dt=tend-t; r.push_back({"step",it,t,dt}); if(it==stop_iter) intr=true; it++; t+=dt; if(every(amr)){ r.push_back({"amr",it,t,0}); amrs->push_back(it); } if(every(lb)) lbs->push_back(it); if(r.size()>10000) break; }
    if(eo) r.push_back({"output",it,t,0}); if(ec) r.push_back({"checkpoint",it,t,0}); return r; } };

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); scratch(); if(!freopen("/dev/null","w",stdout)) abort(); bool T=c.thorough;
    auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };
    if(mode=="schedule"){
      Box B; B.D=dom(2,1,16,{2,2,1},{0,0,0}); B.b={1,1,1}; B.walls("reflecting"); scene().B=B;
      auto one=[&](const Sched& s,int n){ if(c.skip()) return; if(!c.begin(mc::cat("schedule ranks=",n," ",s.str()))) return; scratch_clear(); watch().snaps=false; watch().dts={s.d0,s.d1.empty()?s.d0:s.d1}; watch().stop_iter=s.stop_iter; watch().stop_rank=s.stop_rank; std::string e, how; std::vector<int> lbs,amrs; auto X=s.expected(&lbs,&amrs);
        std::string text=B.config(nullptr,s.config());
        for(int again=0;again<2 && e.empty();again++){ if(again) text=slurp("last.ini"); how=again?"run with last.ini":"run"; auto r=simulate(n,text); c.transition(X.size()); c.trace(); if(!r.ok){ err(e,mc::cat(how,": ",r.kind,": ",r.error)); break; }
          for(int q=0;q<n && e.empty();q++){ auto& ev=watch().ev[q]; for(size_t i=0;i<std::max(ev.size(),X.size()) && e.empty();i++){ std::string a= i<ev.size()?mc::cat(ev[i].k," at iteration ",ev[i].iter," time ",ev[i].time," dt ",ev[i].dt):"nothing", b= i<X.size()?mc::cat(X[i].k," at iteration ",X[i].iter," time ",X[i].time," dt ",X[i].dt):"nothing"; if(a!=b) err(e,mc::cat(how,": process ",q," event ",i,": ",a,", expected ",b)); } }
          if(!e.empty()) break;
          // every step starts from the result of the previous one, on the mesh and partition left by the AMR cycle and load balancing
          std::vector<uint32_t> last; size_t nsteps=watch().ev[0].size(); (void)nsteps; std::vector<std::vector<uint32_t>> counts; std::vector<int> its; for(auto& ev : watch().ev[0]) if(ev.k=="step") its.push_back(ev.iter);
          for(size_t i=0;i<its.size() && e.empty();i++){ std::vector<uint32_t> cn; for(int q=0;q<n;q++){ size_t k=0; for(auto& ev : watch().ev[q]) if(ev.k=="step" && k++==i){ cn.push_back(ev.extra[0]); if(ev.extra[0] && ev.extra[1]!=1+i) err(e,mc::cat(how,": step ",i," starts from density ",ev.extra[1])); } }
            int it=its[i]; bool a=false,l=false; for(int x : amrs) if(x==it) a=true; for(int x : lbs) if(x==it) l=true; uint32_t tot=0; for(auto v : cn) tot+=v; if(i){ uint32_t pt=0; for(auto v : last) pt+=v; if(tot!=pt+(a?3:0)) err(e,mc::cat(how,": iteration ",it,": ",tot," octants after ",pt)); auto want=last; if(a) want[0]+=3; if(l){ if(*std::max_element(cn.begin(),cn.end())-*std::min_element(cn.begin(),cn.end())>1) err(e,mc::cat(how,": iteration ",it,": octants not balanced")); } else if(cn!=want) err(e,mc::cat(how,": iteration ",it,": octants moved without load balancing")); } last=cn; } }
        c.evaluation(X.size()); c.state(mc::Hash().str(c.desc()).h); if(c.traces%997==1) c.sample(c.desc());
        if(!e.empty()) c.violation("schedule",e); };
      std::vector<int> fr=T?std::vector<int>{-1,0,1,2,3,4}:std::vector<int>{-1,0,1,2,3}; std::vector<double> ts{-1,0,.25,.75};
      std::vector<std::pair<int,double>> st{{0,0},{3,.5},{4,.625}}; std::vector<std::vector<double>> ds{{.125},{.25,.125},{.5,.125,.375},{1}};
      // outputs and checkpoints
      for(int of : fr) for(double ots : ts) for(int cf : fr) for(double cts : ts) for(auto& s0 : st) for(size_t k=0;k<ds.size();k++){ Sched s; s.of=of; s.ots=ots; s.cf=cf; s.cts=cts; s.iter0=s0.first; s.t0=s0.second; s.d0=ds[k]; s.amr=2; s.nstep=s0.first+(T?9:6); one(s,1); }
      // end of the run, mesh adaptation, load balancing
      struct End{ int nstep; double tend; int use; }; std::vector<End> en{{5,0,-1},{5,10,-1},{-1,1.5,-1},{0,1.5,1},{6,1.5,-1},{4,1.5,0},{9,.625,-1},{9,-1,-1},{3,.25,1},{2,0,0},{20,1.0625,-1},{20,1.3,-1}};
      for(auto& e : en) for(int a : fr) for(int l : fr) for(auto& s0 : st) for(size_t k=0;k<ds.size();k++) for(int n : T?std::vector<int>{1,2,3}:std::vector<int>{1,3}){ Sched s; s.nstep=e.nstep; s.tend=e.tend; s.use=e.use; s.amr=a; s.lb=l; s.iter0=s0.first; s.t0=s0.second; s.d0=ds[k]; s.d1=ds[(k+1)%ds.size()]; s.of=2; one(s,n); }
      // everything else
      for(int eo=0;eo<2;eo++) for(int ec=0;ec<2;ec++) for(int nl : {0,1,10,-1}) for(int si=-1;si<5;si++) for(int sr=0;sr<(si<0?1:3);sr++) for(int n : {1,3}){ if(sr>=n) continue; Sched s; s.eo=eo; s.ec=ec; s.nlog=nl; s.stop_iter=si; s.stop_rank=sr; s.nstep=5; s.of=2; s.cf=3; s.amr=2; s.lb=2; s.d0={.125}; one(s,n); }
      return; }

    if(mode=="cosmo"){
      // t(a) = -1/2 sqrt(Om) int_a^1 da / sqrt(Om a^3 + Ok a^4 + Ov a^5), by Gauss-Legendre quadrature in log a
      auto texact=[](double om,double ov,double a,double b){ static const double X[]={.1834346424956498,.5255324099163290,.7966664774136267,.9602898564975363}, W[]={.3626837833783620,.3137066458778873,.2223810344533745,.1012285362903763}; long double s=0, la=std::log((long double)a), lb=std::log((long double)b); int N=60; long double h=(lb-la)/N; for(int i=0;i<N;i++){ long double m=la+(i+.5L)*h; for(int k=0;k<4;k++) for(int sg=-1;sg<2;sg+=2){ long double q=expl(m+sg*X[k]*h/2); s+=W[k]*h/2*q/sqrtl(om*q*q*q+(1-om-ov)*q*q*q*q+ov*q*q*q*q*q); } } return (double)(.5L*sqrtl((long double)om)*s); };
      struct Cos{ double om,ov; }; std::vector<Cos> cs{{1,0},{.3,.7},{.3,0},{.25,.75},{.05,.95}}; std::vector<double> as=T?std::vector<double>{.001,.005,.01,.02,.1,.5,.9}:std::vector<double>{.002,.01,.02,.1,.5}, ae=T?std::vector<double>{.05,.25,1,2}:std::vector<double>{.25,1}; std::vector<int> ls=T?std::vector<int>{16,100,1024,4000}:std::vector<int>{64,1024};
      for(auto& o : cs) for(double a0 : as) for(double a1 : ae) for(int n : ls){ if(a0>=a1 || c.skip()) continue; if(!c.begin(mc::cat("table om ",o.om," ov ",o.ov," a ",a0,"..",a1," size ",n))) continue; std::string e;
        ConfigMap cm(mc::cat("[cosmology]\nactive=true\nomega_m=",o.om,"\nomega_v=",o.ov,"\naStart=",a0,"\naEnd=",a1,"\nlookup_size=",n,"\nda=1.02\n")); CosmoManager m(cm); double ext=1.1*a1, da=(ext-a0)/(n-1); auto T1=[&](double a){ return a<1?-texact(o.om,o.ov,a,1):texact(o.om,o.ov,1,a); };
        auto dtda=[&](double a){ return .5*sqrt(o.om)/sqrt(o.om*a*a*a+(1-o.om-o.ov)*a*a*a*a+o.ov*a*a*a*a*a); };
        double pt=-INFINITY; int K=T?1000:400; for(int i=0;i<=K && e.empty();i++){ double a=a0+(a1-a0)*i/K; if(i==K) a=a1; double t=m.expansionToTime(a), te=T1(a); double lo=std::max(a0,a-da), curv=fabs(dtda(lo)-dtda(lo+da*.001))/(da*.001), tol=1e-7+da*da/8*curv*1.1; c.evaluation();
          if(!(fabs(t-te)<=tol)) err(e,mc::cat("time at a=",a," is ",t,", expected ",te," +- ",tol)); if(!(t>pt)) err(e,mc::cat("time not increasing at a=",a)); pt=t; double b=m.timeToExpansion(t); if(!(fabs(b-a)<=1e-9*a)) err(e,mc::cat("a=",a," -> t=",t," -> a=",b));
          for(double g : {1.0001,1.02,1.5}){ double x=CosmoManager::static_compute_cosmo_dt(o.om,o.ov,a,g), xe=texact(o.om,o.ov,a,a*g); if(!(fabs(x-xe)<=1e-7*(1+xe))) err(e,mc::cat("dt from a=",a," by a factor ",g," is ",x,", expected ",xe)); } }
        // outside of the table: still increasing, and still inverse of each other
        pt=m.expansionToTime(a1); for(double a : {ext*.999,ext,ext*1.001,ext*1.05,ext*1.3}) if(e.empty()){ double t=m.expansionToTime(a); if(!(t>pt)) err(e,mc::cat("time not increasing at a=",a)); pt=t; double b=m.timeToExpansion(t); if(!(fabs(b-a)<=1e-9*a)) err(e,mc::cat("a=",a," -> t=",t," -> a=",b)); } pt=m.expansionToTime(a0); for(double a : {a0-1e-6*da,a0-.1*da}) if(e.empty()){ double t=m.expansionToTime(a); if(!(t<pt)) err(e,mc::cat("time not increasing at a=",a)); pt=t; double b=m.timeToExpansion(t); if(!(fabs(b-a)<=1e-9*fabs(a)+1e-12)) err(e,mc::cat("a=",a," -> t=",t," -> a=",b)); }
        c.trace(); c.state(mc::Hash().str(c.desc()).h); if(!e.empty()) c.violation("table",e); }
      // whole runs
      Box B; B.D=dom(2,1,16,{2,2,1},{0,0,0}); B.b={1,1,1}; B.walls("reflecting"); scene().B=B;
      for(auto& o : cs) for(double a0 : {.01,.1}) for(double da : T?std::vector<double>{1.005,1.02,1.1}:std::vector<double>{1.02,1.1}) for(double af : T?std::vector<double>{a0*1.05,a0*1.3,a0*2,.5,1}:std::vector<double>{a0*1.3,a0*2,.5}) for(double sl : {-1.,a0*.25}) for(int keys=0;keys<3;keys++){ if(c.skip()) continue; if(!c.begin(mc::cat("run om ",o.om," ov ",o.ov," a ",a0,"..",af," da ",da," slice ",sl," keys ",keys))) continue; std::string e; scratch_clear(); watch().snaps=false; watch().stop_rank=-1; watch().stop_iter=-1;
        std::string ck=keys==0?mc::cat("omega_m=",o.om,"\nomega_v=",o.ov,"\n"):keys==1?mc::cat("omegam=",o.om,"\nomegav=",o.ov,"\n"):mc::cat("omega_m=",o.om,"\nomega_v=",o.ov,"\nomegam=",o.om,"\nomegav=",o.ov,"\n");
        auto text=[&](int it0,double t0){ return B.config(nullptr,mc::cat("[run]\ninitial_conditions=verif_init\nnstepmax=2000\nt_end_var=aexp\ntEnd=",af,"\noutput_slice_var=aexp\noutput_timeslice=",sl,"\ncheckpoint_timeslice=",sl,"\n",it0?mc::cat("iter_start=",it0,"\ntStart=",t0,"\n"):"","[cosmology]\nactive=true\n",ck,"aStart=",a0,"\naEnd=",std::max(af,a0*2),"\nda=",da,"\nlookup_size=256\n[amr]\ncycle_frequency=-1\nload_balancing_frequency=-1\nmarkers_kernel=verif_refine\n[dt]\ndt_kernel=Compute_dt_cosmology\n[hydro]\nupdate=verif_update\n[output]\nbackend=verif_output\ncheckpoint=verif_checkpoint\n")); };
        auto check=[&](const std::string& how,int it0,double tstart,double astart){ auto r=simulate(1,text(it0,tstart)); c.trace(); if(!r.ok){ err(e,mc::cat(how,": ",r.kind,": ",r.error)); return; } auto& ev=watch().ev[0]; c.transition(ev.size()); double prev=astart; bool first=true; double seen=astart; const double Da=(1.1*std::max(af,a0*2)-a0)/255; auto EA=[&](double a){ return 1.2*Da*Da/8*2.5/a/a+1e-9; }; // a is interpolated in a table: relative error
          for(size_t i=0;i<ev.size() && e.empty();i++){ auto& v=ev[i]; double a=v.aexp; std::string at=mc::cat(how,": ",v.k," at iteration ",v.iter,", a=",a,": "); // the expansion factor that goes with the time
            double te=a<1?-texact(o.om,o.ov,a,1):texact(o.om,o.ov,1,a); double dta=.5*sqrt(o.om)/sqrt(o.om*a*a*a+(1-o.om-o.ov)*a*a*a*a+o.ov*a*a*a*a*a); if(!(fabs(te-v.time)<=1.5*EA(a)*a*dta+1e-7)) err(e,mc::cat(at,"time ",v.time,", expected ",te)); if(!(fabs(v.z-(1/a-1))<=1e-9/a)) err(e,mc::cat(at,"z=",v.z)); if(!(a>=prev*(1-1e-12)||(first&&fabs(a-prev)<EA(a)*a))) err(e,mc::cat(at,"expansion factor decreases from ",prev)); prev=a; bool lastev=i+2>=ev.size();
            if(v.k=="step"){ if(!(v.dt>0)) err(e,mc::cat(at,"dt=",v.dt)); if(!(a<af)) err(e,mc::cat(at,"step after the end")); double b=0; for(size_t j=i+1;j<ev.size();j++) if(ev[j].iter==v.iter+1){ b=ev[j].aexp; break; } if(!(b<=a*da*(1+3*EA(a)))) err(e,mc::cat(at,"next a is ",b)); if(b<af*(1-EA(b)) && !(b>=a*da*(1-3*EA(a)))) err(e,mc::cat(at,"next a is only ",b)); first=false; }
            else if(!lastev && !(first && v.k=="output" && v.iter==it0)){ if(!(std::floor(a/sl)>std::floor(seen/sl))) err(e,mc::cat(at,"not expected, previous at ",seen)); }
            if(v.k=="step" && sl>0){ if(std::floor(a/sl)>std::floor(seen/sl)){ int o=0,ch=0; for(auto& w : ev) if(w.iter==v.iter){ o+=w.k=="output"; ch+=w.k=="checkpoint"; } if(o!=1||ch!=1) err(e,mc::cat(at,o," outputs and ",ch," checkpoints after crossing a multiple of ",sl)); } seen=a; } }
          if(e.empty() && ev.size()<2) err(e,how+": no final output"); if(e.empty()){ auto& l=ev.back(); if(!(fabs(l.aexp-af)<=3*EA(af)*af+3e-8)) err(e,mc::cat(how,": ends at a=",l.aexp)); } };
        check("run",0,0,a0); if(e.empty()){ auto ev=watch().ev[0]; std::vector<const Ev*> st; for(auto& v : ev) if(v.k=="step") st.push_back(&v); for(size_t k=1;k<st.size() && e.empty();k+=std::max<size_t>(1,st.size()/(T?9:3))){ int it=st[k]->iter; double t=st[k]->time; check(mc::cat("restart at iteration ",it),it,t,st[k]->aexp); if(!e.empty()) break; auto& w=watch().ev[0]; // same future
            for(auto& x : w) if(x.k=="step"){ const Ev* y=nullptr; for(auto& z : ev) if(z.k=="step"&&z.iter==x.iter) y=&z; if(!y) err(e,mc::cat("restart at ",it,": extra step ",x.iter)); else if(fabs(y->time-x.time)>1e-12*fabs(t)||fabs(y->dt-x.dt)>1e-9*y->dt+1e-12*fabs(t)||fabs(y->aexp-x.aexp)>1e-10) err(e,mc::cat("restart at ",it,": step ",x.iter," has dt ",x.dt," a ",x.aexp,", not ",y->dt," ",y->aexp)); if(!e.empty()) break; } if(e.empty() && w.back().iter!=ev.back().iter) err(e,mc::cat("restart at ",it," ends at iteration ",w.back().iter," not ",ev.back().iter)); } }
        c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(!e.empty()) c.violation("run",e); }
      return; }

    if(mode=="decomp" || mode=="restart" || mode=="refuse" || mode=="timing"){
      struct Scn{ std::string name; Box B; std::string cfg; int steps; bool cons, exact; double tol; }; std::vector<Scn> sc;
      auto scn=[&](const std::string& name,Domain D,Block b,const std::string& wall,const std::string& cfg,int steps,bool cons,double tol=0){ Box B; B.D=D; B.b=b; B.walls(wall); sc.push_back({name,B,cfg,steps,cons,tol==0,tol}); };
      std::string grad="[amr]\nmarkers_kernel=RefineCondition_pseudo_gradient\nepsilon_refine=.1\nepsilon_coarsen=.05\n", sec="[amr]\nmarkers_kernel=RefineCondition_second_derivative_error\nerror_min=.2\nerror_max=.6\n";
      const std::array<bool,3> per{1,1,1},no{0,0,0},px{1,0,0}; int S=T?8:5;
      auto D2=[&](std::array<bool,3> p,int l0,int l1){ return dom(2,l0,l1,{1u<<l0,1u<<l0,1},p); }; auto D3=[&](std::array<bool,3> p,int l0,int l1){ return dom(3,l0,l1,{1u<<l0,1u<<l0,1u<<l0},p); };
      // every assignment of two states to the quadrants of the domain: the mesh adapts during the run
      auto pat=[&](int k){ return mc::cat("[run]\ninitial_conditions=verif_pattern\n[verif]\npattern=",k,"\n"); };
      for(int k=1;k<(T?16:16);k++){
        scn(mc::cat("pattern",k," euler periodic"),D2(per,2,4),{4,4,1},"reflecting",pat(k)+grad+"[hydro]\nupdate=HydroUpdate_euler\n",S,true);
        scn(mc::cat("pattern",k," hancock walls"),dom(2,2,3,{3,2,1},no),{4,4,1},"reflecting",pat(k)+sec+"[hydro]\nupdate=HydroUpdate_hancock\n",S,false);
        scn(mc::cat("pattern",k," RK2 GLM"),D2(px,1,3),{4,6,1},"absorbing",pat(k)+grad+"[hydro]\nupdate=GLMMHDUpdate_RK2\nriemann=hlld\n",S,false);
        scn(mc::cat("pattern",k," oneneighbor tracers"),D2(per,2,3),{4,4,1},"reflecting","[run]\ninitial_conditions=verif_pattern,verif_tracers\n[verif]\npattern="+std::to_string(k)+"\n"+grad+"[hydro]\nupdate=HydroUpdate_hancock_oneneighbor\n[particles]\nupdate_position=ParticleUpdate_tracers_move\n[dt]\ndt_kernel=Compute_dt_hydro\n",S,true);
        if(k%4==1||T) scn(mc::cat("pattern",k," viscous conducting"),D2(per,2,3),{4,4,1},"reflecting",pat(k)+grad+"[hydro]\nupdate=HydroUpdate_hancock\n[viscosity]\nupdate=ParabolicUpdate_explicit\nmu=.01\n[thermal_conduction]\nupdate=ParabolicUpdate_explicit\nkappa=.01\n[dt]\ndt_kernel=Compute_dt_hydro,Compute_dt_parabolic\n",S,false);
        if(k%5==1||T){ scn(mc::cat("pattern",k," 3D euler"),D3({1,1,0},1,2),{4,4,4},"absorbing",pat(k)+grad+"[hydro]\nupdate=HydroUpdate_euler\n",3,false);
          scn(mc::cat("pattern",k," 3D gravity particles"),D3(per,1,2),{2,2,2},"reflecting","[run]\ninitial_conditions=verif_pattern,particle_grid\n[verif]\npattern="+std::to_string(k)+"\n[particle_grid]\nnx=5\nny=4\nnz=3\ntotal_mass=.5\ndt_perturb=.1\n"+grad+"[hydro]\nupdate=HydroUpdate_euler\n[gravity]\nsolver=GravitySolver_cg\ngravity_type=field\n4_Pi_G=3\nCG_eps=1e-10\n[particles]\nupdate_position=ParticleUpdate_CIC_move\nupdate_density=ParticleUpdate_CIC_density\n[dt]\ndt_kernel=Compute_dt_hydro,Compute_dt_particle_velocity\n",3,false,1e-7); } }
      // the initial conditions that come with the code
      auto icn=[&](const std::string& n){ return "[run]\ninitial_conditions="+n+"\n"; };
      scn("blast 2D",D2(per,2,4),{4,4,1},"reflecting",icn("blast")+grad+"[blast]\nradius=.25\n[hydro]\nupdate=HydroUpdate_hancock\n",S,false);
      // fewer octants than processes at first
      scn("blast, one octant",dom(2,0,3,{1,1,1},per),{4,4,1},"reflecting",icn("blast")+grad+"[blast]\nradius=.25\n[hydro]\nupdate=HydroUpdate_hancock\n",S,false);
      scn("riemann2d, two octants",dom(2,1,4,{2,1,1},no),{4,4,1},"absorbing",icn("riemann2d")+grad+"[hydro]\nupdate=HydroUpdate_euler\n",S,false);
      scn("orszag_tang, tracers, two octants",dom(2,1,4,{1,2,1},per),{4,4,1},"reflecting","[run]\ninitial_conditions=orszag_tang,verif_tracers\n"+grad+"[hydro]\nupdate=MHDUpdate_RK2\n[particles]\nupdate_position=ParticleUpdate_tracers_move\n",S,false);
      scn("blast 3D, one octant",dom(3,0,2,{1,1,1},no),{4,4,4},"absorbing",icn("blast")+grad+"[blast]\nradius=.25\n[hydro]\nupdate=HydroUpdate_euler\n",2,false);
      scn("blast 3D",D3(per,1,2),{4,4,4},"reflecting",icn("blast")+grad+"[blast]\nradius=.25\n[hydro]\nupdate=HydroUpdate_RK2\n",2,true);
      scn("sod",D2({0,1,1},2,4),{4,4,1},"absorbing",icn("sod")+sec+"[hydro]\nupdate=HydroUpdate_hancock_oneneighbor\n",S,false);
      scn("implode",D2(no,2,4),{4,6,1},"reflecting",icn("implode")+grad+"[hydro]\nupdate=HydroUpdate_RK2\n",S,false);
      scn("kelvin_helmholtz",D2(per,2,4),{4,4,1},"reflecting",icn("kelvin_helmholtz")+grad+"[hydro]\nupdate=HydroUpdate_hancock\n",S,false);
      scn("rayleigh_taylor",D2(px,2,3),{4,4,1},"reflecting",icn("rayleigh_taylor")+grad+"[hydro]\nupdate=HydroUpdate_euler\n[gravity]\ngravity_type=constant_scalar\ngy=-.1\n",S,false);
      scn("riemann2d",D2(no,2,4),{2,2,1},"absorbing",icn("riemann2d")+grad+"[hydro]\nupdate=HydroUpdate_euler\n",S,false);
      scn("orszag_tang",D2(per,2,4),{4,4,1},"reflecting",icn("orszag_tang")+grad+"[hydro]\nupdate=MHDUpdate_RK2\n",S,true);
      scn("MHD_blast",D2(per,2,4),{4,4,1},"reflecting",icn("MHD_blast_glm")+grad+"[hydro]\nupdate=GLMMHDUpdate_euler\n",S,true);
      scn("MHD_rotor",D2(no,2,4),{4,4,1},"absorbing",icn("MHD_rotor")+grad+"[hydro]\nupdate=MHDUpdate_hancock_oneneighbor\n",S,false);
      scn("point mass",D2(no,2,4),{4,4,1},"absorbing",icn("blast")+grad+"[blast]\nradius=.25\npressure_in=.3\n[hydro]\nupdate=HydroUpdate_RK2\n[gravity]\nsolver=GravitySolver_point_mass\ngravity_type=constant_field\npoint_mass_Gmass=.05\nsoftening=.1\n",S,false);
      scn("constant gravity solver",D2(px,2,3),{4,4,1},"reflecting",icn("rayleigh_taylor")+grad+"[hydro]\nupdate=HydroUpdate_hancock\n[gravity]\nsolver=GravitySolver_constant\ngravity_type=constant_scalar\ngy=-.1\n",S,false);
      std::string sun="[amr]\nmarkers_kernel=RefineCondition_downflows\nvelocity_coarsen=.01\nvelocity_refine=.03\n[gravity]\ngravity_type=constant_scalar\ngy=20\ngz=20\n[viscosity]\nupdate=ParabolicUpdate_explicit\nmu=.05\n[thermal_conduction]\nupdate=ParabolicUpdate_explicit\nkappa=.07\n[cooling]\nupdate=CoolingUpdate_FF\nFF_fluxes=.7\n[dt]\ndt_kernel=Compute_dt_hydro,Compute_dt_parabolic\n";
      scn("C91",D2(px,2,3),{4,4,1},"reflecting",icn("C91")+sun+"[C91]\npert_amplitude=0\n[hydro]\nupdate=HydroUpdate_euler\nwell_balanced=true\n",S,false);
      scn("tri_layer",D2(px,2,3),{4,4,1},"reflecting",icn("tri_layer")+sun+"[tri_layer]\nperturbation=0\nz1=.3\nz2=.6\n[hydro]\nupdate=HydroUpdate_hancock\n",S,false);
      std::string leg="[amr]\nmarkers_kernel=RefineCondition_legacy\nerror_min=.2\nerror_max=.6\n[hydro]\nupdate=HydroUpdate_legacy\n[dt]\ndt_kernel=Compute_dt_legacy\n";
      for(int k : {1,6,11}) scn(mc::cat("pattern",k," legacy"),D2(per,2,4),{4,4,1},"reflecting",pat(k)+leg,S,false);
      scn("blast legacy 3D",D3(no,1,2),{4,4,4},"absorbing",icn("blast")+leg+"[blast]\nradius=.25\n",2,false);
      scn("orbiting particles",D2(per,2,4),{4,4,1},"reflecting","[run]\ninitial_conditions=verif_pattern,verif_tracers\n[verif]\npattern=9\n[amr]\nmarkers_kernel=RefineCondition_mass\nmass_coarsen=.003\nmass_refine=.004\n[hydro]\nupdate=HydroUpdate_RK2\n[gravity]\nsolver=GravitySolver_point_mass\ngravity_type=constant_field\npoint_mass_Gmass=.05\nsoftening=.1\n[particles]\nupdate_position=ParticleUpdate_NGP_move\n[dt]\ndt_kernel=Compute_dt_hydro,Compute_dt_particle_velocity\n",S,false);
      scn("CIC particles",D2(per,2,3),{4,4,1},"reflecting","[run]\ninitial_conditions=verif_pattern,verif_tracers\n[verif]\npattern=2\n"+grad+"[hydro]\nupdate=HydroUpdate_euler\n[gravity]\nsolver=GravitySolver_point_mass\ngravity_type=constant_field\npoint_mass_Gmass=.05\nsoftening=.1\n[particles]\nupdate_position=ParticleUpdate_CIC_move\n[dt]\ndt_kernel=Compute_dt_hydro,Compute_dt_particle_velocity\n",S,false);
      scn("mass particles",D2(per,2,4),{4,4,1},"reflecting","[run]\ninitial_conditions=verif_pattern,verif_tracers\n[verif]\npattern=6\n[amr]\nmarkers_kernel=RefineCondition_mass\nmass_coarsen=.003\nmass_refine=.004\n[hydro]\nupdate=HydroUpdate_euler\n[particles]\nupdate_position=ParticleUpdate_tracers_move\nupdate_density=ParticleUpdate_NGP_density\n",S,true,1e-9);
      { std::string cosmo="[cosmology]\nactive=true\nomegam=.3\nomegav=.65\nomegab=.04\naStart=.1\naEnd=1\nda=1.04\nlookup_size=64\n[gravity]\nsolver=GravitySolver_cg\ngravity_type=field\n4_Pi_G=3\nCG_eps=1e-10\n[particles]\nupdate_position=ParticleUpdate_CIC_move\nupdate_density=ParticleUpdate_CIC_density\n[dt]\ndt_kernel=Compute_dt_hydro,Compute_dt_cosmology,Compute_dt_particle_velocity\n[particle_grid]\nnx=4\nny=5\nnz=3\ntotal_mass=.5\ndt_perturb=.1\n";
      for(int k : {1,6,23}) scn(mc::cat("cosmology 3D pattern",k),D3(per,1,2),{2,2,2},"reflecting","[run]\ninitial_conditions=verif_pattern,particle_grid\n[verif]\npattern="+std::to_string(k)+"\n"+grad+"[hydro]\nupdate=HydroUpdate_euler\n"+cosmo,T?4:3,false,1e-7);
      for(int k : {3,9}) scn(mc::cat("cosmology 2D pattern",k),D2(per,2,3),{4,4,1},"reflecting","[run]\ninitial_conditions=verif_pattern,particle_grid\n[verif]\npattern="+std::to_string(k)+"\n"+grad+"[hydro]\nupdate=HydroUpdate_hancock\n"+cosmo+"[gravity]\nsolver=GravitySolver_point_mass\ngravity_type=constant_field\npoint_mass_Gmass=.05\nsoftening=.1\n[particles]\nupdate_position=ParticleUpdate_NGP_move\n",S,false,1e-7); }
      if(mode=="refuse"){
        // every parameter that a run reads, and every parameter that it does not: what happens when the value cannot be one
        struct P{ std::string sec,name,val; bool unused=false,dflt=false; std::string id() const { return sec+"/"+name; } };
        auto parse=[&](const std::string& t){ std::vector<P> r; std::istringstream i(t); std::string l,sec; auto trim=[](std::string x){ while(!x.empty()&&isspace((unsigned char)x.back())) x.pop_back(); size_t b=0; while(b<x.size()&&isspace((unsigned char)x[b])) b++; return x.substr(b); };
          while(std::getline(i,l)){ if(l.empty()) continue; if(l[0]=='['){ sec=l.substr(1,l.find(']')-1); continue; } P q; q.sec=sec; auto cut=[&](const std::string& m){ auto k=l.find(m); if(k==std::string::npos) return false; l.erase(k,m.size()); return true; }; q.unused=cut(" ; Unused"); q.dflt=cut(" ; Default"); auto k=l.find(" ="); if(k==std::string::npos) continue; q.name=trim(l.substr(0,k)); q.val=trim(l.substr(k+2)); r.push_back(q); } return r; };
        auto write=[&](const std::vector<P>& v){ std::map<std::string,std::string> m; for(auto& q : v) m[q.sec]+=q.name+"="+q.val+"\n"; std::string r; for(auto& x : m) r+="["+x.first+"]\n"+x.second; return r; };
        auto typed=[&](const std::string& v){ if(v=="true"||v=="false") return true; char* e; if(v.empty()) return false; strtod(v.c_str(),&e); return !*e; };
        auto same=[&](const std::vector<Snap>& a,const std::vector<Snap>& b)->bool { if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++){ if(a[i].iter!=b[i].iter||a[i].time!=b[i].time||a[i].owner!=b[i].owner||a[i].f.size()!=b[i].f.size()||a[i].p.size()!=b[i].p.size()) return false; for(auto& x : a[i].f){ auto it=b[i].f.find(x.first); if(it==b[i].f.end()) return false; for(auto& o : x.second){ auto z=it->second.find(o.first); if(z==it->second.end()||z->second.size()!=o.second.size()||memcmp(z->second.data(),o.second.data(),8*o.second.size())) return false; } } for(auto& x : a[i].p){ auto it=b[i].p.find(x.first); if(it==b[i].p.end()||it->second!=x.second) return false; } } return true; };
        static const std::set<std::string> plug{"hydro/update","hydro/riemann","gravity/solver","run/initial_conditions","amr/markers_kernel","amr/remap","dt/dt_kernel","output/backend","checkpoint/backend","particles/update_position","particles/update_density","viscosity/update","thermal_conduction/update","cooling/update"};
        for(auto& s : sc){ std::string fam=s.name; if(fam.compare(0,7,"pattern")==0){ auto k=fam.find(' '); if(!T && fam.substr(0,k)!="pattern1" && !(fam=="pattern6 legacy")) continue; }
          for(int n : T?std::vector<int>{1,2,3,5}:std::vector<int>{1,3}){ if((size_t)n>Mesh::initial(s.B.D).size()) continue; if(c.skip()) continue; if(!c.begin(mc::cat("refuse ",s.name," ranks ",n))) continue; std::string e; scene().B=s.B; watch().snaps=true; watch().stop_rank=-1;
            std::string base=s.B.config(nullptr,"[run]\nnstepmax=1\noutput_frequency=1\ncheckpoint_frequency=1\n[output]\nbackend=verif_output\noutputPrefix=chk\n[cosmology]\nlookup_size=4\n[verif]\nno_such=1\n"+s.cfg);
            auto go=[&](const std::string& t){ c.progress(); scratch_clear(); fh5::reset(); c.transition(); return simulate(n,t); };
            auto r0=go(base); c.trace(); if(!r0.ok) err(e,mc::cat("baseline: ",r0.kind,": ",r0.error)); auto ref=snaps(); auto L=parse(slurp("last.ini")); std::string last=slurp("last.ini"); std::vector<P> file; for(auto& q : L) if(!q.dflt && q.id()!="run/nstepmax" && q.id()!="amr/level_max") file.push_back(q); auto keep=[&](std::vector<P> v){ for(auto& q : L) if(q.id()=="run/nstepmax"||q.id()=="amr/level_max") v.push_back(q); return v; };
            if(e.empty() && L.size()<20) err(e,"last.ini is too short"); bool listed=false; for(auto& q : L) if(q.sec=="verif"&&q.name=="no_such") listed=q.unused; if(e.empty()&&!listed) err(e,"a parameter that does not exist is not reported as unused");
            // the written file is a complete description of the run
            if(e.empty()){ auto r=go(last); c.trace(); if(!r.ok) err(e,mc::cat("run with last.ini: ",r.kind,": ",r.error)); else if(!same(ref,snaps())) err(e,"run with last.ini: different result"); else { auto M=parse(slurp("last.ini")); if(M.size()!=L.size()) err(e,"last.ini of a run with last.ini has other parameters"); else for(size_t i=0;i<M.size();i++) if(M[i].id()!=L[i].id()||M[i].val!=L[i].val||M[i].unused!=L[i].unused||M[i].dflt) err(e,"last.ini of a run with last.ini: "+M[i].id()); } }
            for(auto& q : L){ if(!e.empty()) break; std::string id=q.id(); if(id=="verif/no_such") continue;
              for(std::string g : {std::string("xyz!"),std::string(""),q.val+"x"}){ bool num=typed(q.val); if(!num && g!="xyz!") continue; auto r=go(base+"["+q.sec+"]\n"+q.name+"="+g+"\n"); c.trace(); c.state(mc::Hash().str(s.name).add(n).str(id).str(g).h); std::string A=mc::cat(id," = `",g,"` (instead of `",q.val,"`): ");
                if(!r.ok && r.kind!="exception"){ err(e,mc::cat(A,r.kind,": ",r.error)); break; }
                if(q.unused){ if(!r.ok) err(e,mc::cat(A,"listed as unused, but refused: ",r.error)); else if(!same(ref,snaps())) err(e,A+"listed as unused, but the result is different"); }
                else if(num){ if(r.ok) err(e,A+"accepted"); else if(r.error.find(id)==std::string::npos) err(e,mc::cat(A,"refused without naming it: ",r.error)); }
                else if(plug.count(id)){ if(r.ok) err(e,A+"accepted"); else if(r.error.find(id)==std::string::npos && r.error.find("xyz!")==std::string::npos) err(e,mc::cat(A,"refused without naming it: ",r.error)); }
                if(!e.empty()) break; } }
            // one parameter less
            for(size_t i=0;i<file.size() && e.empty();i++){ auto v=file; v.erase(v.begin()+i); auto r=go(write(keep(v))); c.trace(); c.state(mc::Hash().str(s.name).add(n).add(i).h); std::string id=file[i].id(), A="without "+id+": "; if(!r.ok && r.kind!="exception") err(e,mc::cat(A,r.kind,": ",r.error)); else if(!r.ok && r.error.find("Value not found")!=std::string::npos && r.error.find(file[i].sec)==std::string::npos) err(e,mc::cat(A,"refused without naming it: ",r.error)); else if(file[i].unused && (!r.ok||!same(ref,snaps()))) err(e,A+"listed as unused, but needed");
              else if(r.ok && !file[i].unused) for(auto& q : parse(slurp("last.ini"))) if(q.id()==id && !q.dflt) err(e,A+"not marked as a default in last.ini"); }
            if(T || n==1) for(size_t i=0;i<file.size() && e.empty();i++) for(size_t j=0;j<i && e.empty();j++){ auto v=file; v.erase(v.begin()+i); v.erase(v.begin()+j); auto r=go(write(keep(v))); c.trace(); c.state(mc::Hash().str(s.name).add(n).add(i).add(j).h); if(!r.ok && r.kind!="exception") err(e,mc::cat("without ",file[i].id()," and ",file[j].id(),": ",r.kind,": ",r.error)); }
            c.evaluation(L.size()); c.count("parameters",L.size()); if(c.traces%5==1) c.sample(c.desc()); if(!e.empty()) c.violation("refuse:"+s.name,e); } }
        return; }
      struct Par{ int amr,lb,coh,grp; }; std::vector<Par> pars= mode=="restart"? std::vector<Par>{{1,2,0,1024},{2,1,3,3}} : T?std::vector<Par>{{1,-1,0,1024},{1,1,0,2},{1,2,3,1024},{2,3,1,7},{3,1,2,1}}:std::vector<Par>{{1,-1,0,1024},{1,1,1,2},{2,1,3,1024}};
      std::vector<int> ranks= T?std::vector<int>{1,2,3,4,5,7}:mode=="decomp"?std::vector<int>{1,2,3,5}:std::vector<int>{1,2,3};
      auto differ=[&](const Scn& s,const Snap& a,const Snap& b,const std::string& A,const std::string& Bn)->std::string { if(a.iter!=b.iter) return mc::cat(A," at iteration ",a.iter,", ",Bn," at ",b.iter); auto close=[&](double x,double y,double sc){ return s.exact? x==y || (x!=x&&y!=y) : fabs(x-y)<=s.tol*sc; }; std::string at=mc::cat(" at iteration ",a.iter,": "); if(!close(a.time,b.time,1)) return mc::cat("time",at,a.time," (",A,") ",b.time," (",Bn,")");
        std::set<Oct> oa,ob; for(auto& q : a.owner) oa.insert(q.first); for(auto& q : b.owner) ob.insert(q.first); if(oa!=ob) return mc::cat("mesh",at,oa.size()," octants (",A,") ",ob.size()," (",Bn,")");
        for(auto& f : a.f){ if(f.first.find("_next")!=std::string::npos) continue; auto it=b.f.find(f.first); if(it==b.f.end()) return mc::cat("field ",f.first,at,"missing (",Bn,")"); double sc=1; for(auto& q : f.second) for(double v : q.second) sc=std::max(sc,fabs(v)); for(auto& q : f.second){ auto& w=it->second.at(q.first); for(size_t l=0;l<w.size();l++) if(!close(q.second[l],w[l],sc)) return mc::cat("field ",f.first,at,"octant ",ref::str(q.first)," cell ",l,": ",q.second[l]," (",A,") ",w[l]," (",Bn,")"); } }
        for(auto& f : b.f) if(!a.f.count(f.first) && f.first.find("_next")==std::string::npos) return mc::cat("field ",f.first,at,"missing (",A,")");
        for(auto& p : a.p){ auto x=p.second; auto it=b.p.find(p.first); if(it==b.p.end()) return "particle array "+p.first+" missing"; auto y=it->second; if(x.size()!=y.size()) return mc::cat("particles",at,x.size()," (",A,") ",y.size()," (",Bn,")"); std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(s.exact){ if(x!=y) return mc::cat("particles of ",p.first," differ",at,A," / ",Bn); } else { std::vector<char> used(y.size(),0); for(auto& v : x){ bool f=false; for(size_t j=0;j<y.size()&&!f;j++) if(!used[j]){ bool t=true; for(size_t q=0;q<v.size();q++) if(!close(v[q],y[j][q],1)) t=false; if(t){ used[j]=1; f=true; } } if(!f) return mc::cat("a particle of ",p.first,at,"has no counterpart (",Bn,")"); } } }
        return ""; };
      auto valid=[&](const Scn& s,const std::vector<Snap>& v,int n,const std::string& A)->std::string { for(auto& q : v){ if(q.calls!=n) return mc::cat(A,": snapshot taken by ",q.calls," processes"); if(q.twice) return mc::cat(A,": octant owned twice at iteration ",q.iter); if(q.misplaced) return mc::cat(A,": ",q.misplaced," particle(s) not on the process that owns their octant at iteration ",q.iter); Mesh m; m.D=s.B.D; for(auto& o : q.owner) m.leaves.push_back(o.first); std::sort(m.leaves.begin(),m.leaves.end(),[&](auto&a,auto&b){return m.key(a)<m.key(b);}); if(!m.tiles()) return mc::cat(A,": octants do not tile the domain at iteration ",q.iter); if(q.iter>v[0].iter && !m.balanced()) return mc::cat(A,": mesh not 2:1 balanced at iteration ",q.iter); }
        if(s.cons){ std::map<std::string,double> t0,sc0; for(auto& q : v) for(auto& f : q.f){ static const std::set<std::string> C{"rho","e_tot","rho_vx","rho_vy","rho_vz","Bx","By","Bz"}; if(!C.count(f.first) || (s.B.D.dim==2&&f.first=="rho_vz"&&false)) continue; double t=0,sc=0; for(auto& o : f.second) for(double x : o.second){ t+=x*s.B.vol(o.first.l); sc+=fabs(x)*s.B.vol(o.first.l); } if(!t0.count(f.first)){ t0[f.first]=t; sc0[f.first]=sc; } else if(!(fabs(t-t0[f.first])<=1e-11*(1+sc))) return mc::cat(A,": total ",f.first," is ",t," at iteration ",q.iter,", was ",t0[f.first]); } }
        return ""; };
      if(mode=="timing"){
        // whole runs under other schedules of the processes and other MPI buffering than the default one: same snapshots, same checkpoint files
        std::function<void(const fh5::Obj&,const std::string&,std::string&)> flat=[&](const fh5::Obj& o,const std::string& path,std::string& out){ if(o.dataset){ out+=path; for(auto d : o.dims) out+=mc::cat(",",d); out.append(o.data.begin(),o.data.end()); } for(auto& k : o.attrs) flat(*k.second,path+"@"+k.first,out); for(auto& k : o.kids) flat(*k.second,path+"/"+k.first,out); };
        auto content=[&](){ std::string r; for(auto& f : fh5::files()){ r+=f.first+(f.second.complete?"":" incomplete"); flat(*f.second.root,"",r); } return r; };
        for(auto& s : sc){ if(!T && s.name.compare(0,7,"pattern")==0){ auto k=s.name.substr(7,s.name.find(' ')-7); if(k!="6" && !(k=="1" && (s.name.find("3D")!=std::string::npos||s.name.find("visc")!=std::string::npos))) continue; }
          for(int n : T?std::vector<int>{2,3,4}:std::vector<int>{2,3}) for(int md : T?std::vector<int>{0,1,2,3,4,5,6,7,15}:std::vector<int>{0,3,4,7,15}){ if((size_t)n>Mesh::initial(s.B.D).size()) continue; if(c.skip()) continue; if(!c.begin(mc::cat("timing ",s.name," ranks ",n," mode ",md))) continue; std::string e; scene().B=s.B; watch().snaps=true; watch().stop_rank=-1; int steps=T?2:1;
            std::string text=s.B.config(nullptr,mc::cat("[run]\nnstepmax=",steps,"\noutput_frequency=1\ncheckpoint_frequency=1\n[output]\nbackend=verif_output\noutputPrefix=chk\n[amr]\ncycle_frequency=1\nload_balancing_frequency=1\n[cosmology]\nlookup_size=4\n")+s.cfg);
            auto go=[&](const fmpi::Options& o){ scratch_clear(); fh5::reset(); return simulate(n,text,o); };
            auto r0=go({}); c.trace(); if(!r0.ok){ c.violation("timing:"+s.name,mc::cat(r0.kind,": ",r0.error)); continue; } auto ref=snaps(); std::string chk=content(); if(chk.empty()) err(e,"no checkpoint");
            fmpi::Options o; o.late_send=md&1; o.late_recv=md&2; o.sync_send=md&4; o.reverse_reduce=(md&8)&&s.exact; mc::DfsChooser ch(1); o.chooser=&ch; o.preempt=true; uint64_t ex=0, cap=!T&&md!=(n==2?0:7)?1:T?6000:2500; bool more=true;
            while(more && e.empty() && ex<cap){ ch.restart(); auto r=go(o); ex++; c.trace(); c.transition(r.switches+1); c.progress(); std::string A=mc::cat("schedule ",ch.str()); if(!r.ok){ err(e,mc::cat(A,": ",r.kind,": ",r.error)); break; } auto v=snaps(); if(v.size()!=ref.size()) err(e,A+": other number of snapshots"); for(size_t i=0;i<v.size() && e.empty();i++){ err(e,differ(s,ref[i],v[i],"default schedule",A)); if(v[i].owner!=ref[i].owner) err(e,A+": other distribution of the octants"); } if(e.empty() && s.exact && content()!=chk) err(e,A+": other checkpoint"); more=ch.next(); }
            if(cap==1) c.count("default_schedule_only"); else c.count(more?"schedule_trees_truncated":"schedule_trees_complete"); c.count("schedules",ex); c.state(mc::Hash().str(c.desc()).h); if(c.traces%7==1) c.sample(c.desc()); if(!e.empty()) c.violation("timing:"+s.name,e); } }
        return; }
      for(auto& s : sc) for(auto& p : pars){ if(c.skip()) continue; if(!c.begin(mc::cat(mode," ",s.name," amr ",p.amr," lb ",p.lb,"/",p.coh," group ",p.grp))) continue;
        scene().B=s.B; scratch_clear(); fh5::reset(); watch().snaps=true; watch().stop_rank=-1; std::string e; int steps=s.steps;
        auto text=[&](){ return s.B.config(nullptr,mc::cat("[run]\nnstepmax=",steps,"\noutput_frequency=1\ncheckpoint_frequency=",mode=="restart"?1:-1,"\nenable_checkpoint=",mode=="restart"?"true":"false","\n[output]\nbackend=verif_output\noutputPrefix=chk\n[amr]\ncycle_frequency=",p.amr,"\nload_balancing_frequency=",p.lb,"\nloadbalance_coherent_levels=",p.coh,"\nnbOctsPerGroup=",p.grp,"\n[cosmology]\nlookup_size=4\n")+s.cfg); };
        std::vector<Snap> ref; int refn=0;
        size_t least=1u<<30; auto room=[&](int n){ return (size_t)n<=Mesh::initial(s.B.D).size() || (!ref.empty() && (size_t)n<=least); }; // load balancing refuses to leave a process without octants
        for(int n : ranks){ if(!room(n)) continue; if(mode=="restart"){ scratch_clear(); fh5::reset(); } if((size_t)n>Mesh::initial(s.B.D).size()) c.count("empty_start",1); auto r=simulate(n,text()); c.trace(); c.transition(steps); c.progress(); std::string A=mc::cat(n," process(es)"); if(!r.ok && (size_t)n>Mesh::initial(s.B.D).size() && r.error.find("Process would be empty")!=std::string::npos){ c.count("refused_empty",1); continue; } if(!r.ok){ err(e,mc::cat(A,": ",r.kind,": ",r.error)); break; } auto v=snaps(); if((int)v.size()<steps+1) err(e,mc::cat(A,": ",v.size()," snapshots")); err(e,valid(s,v,n,A)); if(!e.empty()) break;
          for(size_t i=0;i<v.size();i++) c.state(mc::Hash().str(s.name).add(p.amr).add(p.lb).add(n).add(i).h); c.count("max_octants",v.back().owner.size());
          if(ref.empty()){ ref=v; refn=n; for(auto& q : v) least=std::min(least,q.owner.size()); } else for(size_t i=0;i<v.size() && e.empty();i++) err(e,i<ref.size()?differ(s,ref[i],v[i],mc::cat(refn," process(es)"),A):"more snapshots");
          if(!e.empty()) break; if(mode!="restart") continue;
          std::vector<std::string> inis; for(int k=1;k<=steps;k++){ std::string x=slurp(mc::cat("./restart_chk_",k,".ini")); if(x.empty()) err(e,mc::cat("no checkpoint at iteration ",k)); inis.push_back(x); } auto files=fh5::files();
          for(int k=1;k<=steps && e.empty();k++) for(int n2 : ranks){ if(!room(n2)) continue; if((size_t)n2>Mesh::initial(s.B.D).size()) c.count("empty_start",1); if(!T && n2!=n && (k+n+n2)%2) continue; fh5::files()=files; std::string x=inis[k-1]; auto r2=simulate(n2,x); c.trace(); c.transition(steps-k); c.progress(); c.evaluation(); std::string A2=mc::cat("restart on ",n2," after iteration ",k," on ",n); if(!r2.ok){ err(e,mc::cat(A2,": ",r2.kind,": ",r2.error)); break; } auto w=snaps(); err(e,valid(s,w,n2,A2)); if((int)w.size()!=steps-k+1+(k<steps?1:0) && w.empty()) err(e,mc::cat(A2,": ",w.size()," snapshots")); if(!e.empty()) break;
            for(auto& q : w){ const Snap* g=nullptr; for(auto& z : v) if(z.iter==q.iter) g=&z; if(!g){ err(e,mc::cat(A2,": reaches iteration ",q.iter)); break; } err(e,differ(s,*g,q,"uninterrupted run",A2)); if(!e.empty()) break; } if(!w.empty()&&w.back().iter!=steps) err(e,mc::cat(A2,": ends at iteration ",w.back().iter)); if(!e.empty()) break; } }
        if(mode=="decomp") c.evaluation(ranks.size()); if(c.traces%7==1) c.sample(c.desc());
        if(!e.empty()) c.violation(mc::cat(mode,":",s.name),e); }
      return; }
  }); }
