// Gravity: the Poisson solver against an independently assembled operator, analytical fields
#include "lookup.h"
#include "gravity/GravitySolver.h"
#include <cstring>
using namespace dy;
static double u01(uint64_t a,uint64_t b,uint64_t c=0,uint64_t d=0){ return (double)(mc::Hash().add(a).add(b).add(c).add(d).h>>11)/(double)(1ull<<53); }
static uint64_t oh(const Oct& o){ return mc::Hash().add(o.l).add(o.x).add(o.y).add(o.z).h; }
/// faces between cells, from the lattice of the finest level: A = -div grad, integrated over each cell
struct Op3 { const Lookup& L; struct F { int a,b; double w; int d; double s,h; }; std::vector<F> f; struct W { int a,d,side; double s,h; }; std::vector<W> w;
  Op3(const Lookup& L):L(L){ std::map<std::array<int,3>,double> S; std::map<std::array<int,3>,double> Wl; double dl[3]; for(int d=0;d<3;d++) dl[d]=L.B.len[d]/L.n[d]; double ar[3]={dl[1]*dl[2],dl[0]*dl[2],dl[0]*dl[1]};
    for(long z=0;z<L.n[2];z++) for(long y=0;y<L.n[1];y++) for(long x=0;x<L.n[0];x++){ int a=L.get(x,y,z); for(int d=0;d<3;d++){ int b=L.get(x+(d==0),y+(d==1),z+(d==2)); if(b>=0 && b!=a) S[{a,b,d}]+=ar[d]; else if(b==a){ long lo[3],ww; L.box(a,lo,ww); long p[3]={x,y,z}; if(p[d]+1==lo[d]+ww) S[{a,b,d}]+=ar[d]; } else if(b<0) Wl[{a,d,1}]+=ar[d]; if(L.get(x-(d==0),y-(d==1),z-(d==2))<0) Wl[{a,d,0}]+=ar[d]; } }
    for(auto& p : S){ auto k=p.first; double h=.5*(L.size(k[0],k[2])+L.size(k[1],k[2])); f.push_back({k[0],k[1],p.second/h,k[2],p.second,h}); } for(auto& p : Wl){ auto k=p.first; w.push_back({k[0],k[1],k[2],p.second,L.size(k[0],k[1])}); } }
  bool open(const W& q) const { return L.B.bc[2*q.d+q.side]=="absorbing"; } // no flux
  void apply(const std::vector<double>& p,std::vector<double>& r) const { r.assign(p.size(),0); for(auto& q : f){ double t=q.w*(p[q.b]-p[q.a]); r[q.a]-=t; r[q.b]+=t; } for(auto& q : w) if(!open(q)) r[q.a]+=q.s/q.h*p[q.a]; }
  /// acceleration: mean of the two one-sided differences, the value behind a side being the mean of the cells that touch it
  void accel(const std::vector<double>& p,std::vector<double>* g) const { for(int d=0;d<3;d++) g[d].assign(p.size(),0); std::vector<double> ss[6],ww[6]; for(int k=0;k<6;k++){ ss[k].assign(p.size(),0); ww[k].assign(p.size(),0); } for(auto& q : f){ double df=(p[q.b]-p[q.a])/q.h; ss[2*q.d+1][q.a]+=q.s*df; ww[2*q.d+1][q.a]+=q.s; ss[2*q.d][q.b]+=q.s*df; ww[2*q.d][q.b]+=q.s; } for(auto& q : w) if(!open(q)){ ss[2*q.d+q.side][q.a]+=q.s*(q.side?-p[q.a]:p[q.a])/q.h; ww[2*q.d+q.side][q.a]+=q.s; } for(int d=0;d<3;d++) for(size_t i=0;i<p.size();i++){ double t=0; for(int s=0;s<2;s++) if(ww[2*d+s][i]>0) t+=ss[2*d+s][i]/ww[2*d+s][i]; g[d][i]=-t/2; } }
};

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough; auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };
    struct TC{ Box B; int k; std::vector<int> ranks; }; std::vector<TC> tc; std::vector<int> R=T?std::vector<int>{1,2,3,4}:std::vector<int>{1,3};
    auto add=[&](Domain D,Block b,std::array<double,3> len,int k,std::vector<std::string> walls){ Box B; B.D=D; B.b=b; B.len=len; B.lo={-.25,.5,.125}; for(size_t i=0;i<walls.size();i++) B.bc[i]=walls[i]; for(int d=0;d<3;d++) for(int s=0;s<2;s++) if(D.per[d]) B.bc[2*d+s]="periodic"; tc.push_back({B,k,R}); };
    std::vector<std::string> ab(6,"absorbing"), re(6,"reflecting"), mix{"absorbing","absorbing","reflecting","reflecting","absorbing","absorbing"}, two{"absorbing","reflecting","reflecting","absorbing","reflecting","absorbing"};
    if(mode=="poisson"){
      add(dom(3,1,3,{2,2,2},{1,1,1}),{2,2,2},{1,1,1},T?3:2,ab); add(dom(3,1,3,{2,2,2},{1,1,1}),{1,1,1},{1,.5,2},T?3:2,ab); add(dom(3,1,3,{2,2,2},{0,0,0}),{2,2,2},{1,1,1},T?2:1,ab); add(dom(3,1,3,{2,1,2},{1,0,0}),{2,4,2},{1,.5,1.5},T?3:1,re); add(dom(3,1,3,{2,2,1},{0,0,1}),{2,2,4},{1,1,1},T?3:1,mix); add(dom(3,1,2,{1,2,2},{0,0,0}),{4,2,2},{1,1,1},T?3:1,two); add(dom(3,2,3,{3,2,2},{1,1,0}),{1,1,1},{1.5,1,1},T?2:1,re); add(dom(3,2,4,{3,3,2},{0,1,0}),{1,1,1},{1.5,1,1},T?2:1,two);
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ for(auto& hh : partitions(m,h,n)) for(int pat=0;pat<(T?10:7);pat++) for(int cosmo=0;cosmo<2;cosmo++){
        if(cosmo && pat>2) continue; if(c.skip()) continue; if(!c.begin(mc::cat("poisson ",str(t.B)," ranks=",n," | ",ref::str(hh)," | density ",pat,cosmo?" cosmological":""))) continue;
        const Box& B=t.B; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; size_t N=fm.size()*nc; Op3 A(L); std::string e; std::vector<double> V(N); for(size_t g=0;g<N;g++) V[g]=L.size((int)g,0)*L.size((int)g,1)*L.size((int)g,2);
        static const double unif[]={1,.1,1/3.}; bool uni=pat>=3&&pat<6; size_t hot=(size_t)(u01(N,7)*N);
        auto rho=[&](int g,int again){ if(uni) return unif[pat-3]; auto& o=fm.leaves[g/nc]; if(pat==6) return (size_t)g==(again?N-1-hot:hot)?100.:1.; double x=.5+u01(oh(o),g%nc,pat+again*77); if(pat==1) x= u01(oh(o),3,again)>.5?1:10; return x; };
        double eps= pat==0?1e-9:pat==1?1e-3:1e-6, fpg= pat==2?3.5:1, aexp=.3; std::vector<double> phi[3],g[3][3]; for(int k=0;k<3;k++){ phi[k].assign(N,NAN); for(int d=0;d<3;d++) g[k][d].assign(N,NAN); }
        auto r=run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,mc::cat("[gravity]\ngravity_type=field\nCG_eps=",eps,"\n4_Pi_G=",fpg,"\n",cosmo?"[cosmology]\nactive=true\n":""))); for(auto f : {"gphi","gx","gy","gz"}) K.set(f,[&](int,uint32_t){ return 0.; });
          auto gs=GravitySolverFactory::make_instance("GravitySolver_cg",K.cm,K.fc,K.tm); ScalarSimulationData sd; if(cosmo) sd.set<real_t>("aexp",aexp);
          for(int k=0;k<3;k++){ K.set("rho",[&](int leaf,uint32_t l){ return rho(leaf*nc+l,k==2); }); K.exchange({"rho","gphi"},1); gs->update_gravity_field(K.U,sd); K.get("gphi",[&](int leaf,uint32_t l,double v){ phi[k][leaf*nc+l]=v; }); for(int d=0;d<3;d++) K.get(std::string("g")+"xyz"[d],[&](int leaf,uint32_t l,double v){ g[k][d][leaf*nc+l]=v; }); K.get("rho",[&](int leaf,uint32_t l,double v){ if(v!=rho(leaf*nc+l,k==2)) err(e,"the density changed"); }); } });
        c.trace(); c.transition(3); c.evaluation(3*N); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
        if(!r.ok) err(e,mc::cat(r.kind,": ",r.error));
        for(int k=0;k<3&&e.empty();k++){ std::string at=k==0?"":k==1?"second call: ":"after a change of density: "; double mean=0,vt=0; for(size_t i=0;i<N;i++){ mean+=rho((int)i,k==2)*V[i]; vt+=V[i]; } mean/=vt; std::vector<double> b(N),q; double bb=0,rr=0,scale=0; for(size_t i=0;i<N;i++){ double x=rho((int)i,k==2); b[i]= cosmo? -6*aexp*(x/mean-1)*V[i] : -fpg*(x-mean)*V[i]; bb+=b[i]*b[i]; scale+=x*x*V[i]*V[i]; } A.apply(phi[k],q);
          for(size_t i=0;i<N && e.empty();i++){ if(!std::isfinite(phi[k][i])) err(e,mc::cat(at,"the potential is ",phi[k][i])); for(int d=0;d<3;d++) if(!std::isfinite(g[k][d][i])) err(e,mc::cat(at,"the acceleration is ",g[k][d][i])); rr+=(b[i]-q[i])*(b[i]-q[i]); }
          if(!e.empty()) break; if(uni){ for(size_t i=0;i<N;i++) for(int d=0;d<3;d++) if(!(fabs(g[k][d][i])<=1e-10)) err(e,mc::cat(at,"uniform density, acceleration ",g[k][d][i])); }
          else if(!(sqrt(rr)<=eps*sqrt(bb)*1.001+1e-11*sqrt(scale))) err(e,mc::cat(at,"the residual is ",sqrt(rr/bb)," of the right-hand side, requested ",eps));
          std::vector<double> w[3]; A.accel(phi[k],w); double gm=1e-12; for(int d=0;d<3;d++) for(auto x : w[d]) gm=std::max(gm,fabs(x)); for(int d=0;d<3;d++) for(size_t i=0;i<N;i++) if(!(fabs(w[d][i]-g[k][d][i])<=1e-10*gm+1e-12)) err(e,mc::cat(at,"acceleration along ",d," of cell ",str(L.cell((int)i))," is ",g[k][d][i],", minus the gradient of the potential is ",w[d][i])); }
        if(!e.empty()) c.violation(mc::cat("poisson:",uni?"uniform":"",key(B.D,n)),e); } } });
      return; }
    if(mode=="analytic"){
      auto add2=[&](Domain D,Block b,std::array<double,3> len,int k){ add(D,b,len,k,ab); }; add2(dom(2,1,4,{2,2,1},{1,1,0}),{2,2,1},{1,1,1},T?6:3); add2(dom(2,2,4,{3,2,1},{0,0,0}),{4,3,1},{1.5,1,1},T?4:2); add2(dom(3,1,3,{2,2,2},{1,0,1}),{2,2,2},{1,.5,2},T?3:2); add2(dom(3,1,3,{2,1,2},{0,0,0}),{1,2,3},{1,.5,1},T?3:2);
      struct PM{ double x,y,z,m,s; }; std::vector<PM> pm{{.5,.5,.5,1,.005},{.25,.8,.3,2.5,0},{-1,.75,.625,.1,.5}};
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ for(auto& hh : partitions(m,h,n)) for(size_t q=0;q<pm.size();q++){ if(c.skip()) continue; if(!c.begin(mc::cat("point mass ",q," ",str(t.B)," ranks=",n," | ",ref::str(hh)))) continue; Box B=t.B; if(B.D.dim==2){ B.lo[2]=0; B.len[2]=1; } PM P=pm[q]; if(B.D.dim==2) P.z=.5; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; std::string e;
        auto r=run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,mc::cat("[gravity]\ngravity_type=constant_field\npoint_mass_x=",P.x,"\npoint_mass_y=",P.y,"\npoint_mass_z=",P.z,"\npoint_mass_Gmass=",P.m,"\nsoftening=",P.s,"\n"))); for(auto f : {"gx","gy","gz"}) K.set(f,[&](int,uint32_t){ return 17.; }); auto gs=GravitySolverFactory::make_instance("GravitySolver_point_mass",K.cm,K.fc,K.tm); ScalarSimulationData sd; gs->update_gravity_field(K.U,sd);
          for(int d=0;d<3;d++) K.get(std::string("g")+"xyz"[d],[&](int leaf,uint32_t l,double v){ int g=leaf*nc+l; double x[3],s=P.s*P.s,ps[3]={P.x,P.y,P.z}; for(int k=0;k<B.D.dim;k++){ x[k]=L.lo(g,k)+.5*L.size(g,k)-ps[k]; s+=x[k]*x[k]; } double want= d<B.D.dim? -P.m*x[d]/(s*sqrt(s)) : 17; if(!(fabs(v-want)<=1e-11*(1+fabs(want)))) err(e,mc::cat("acceleration along ",d," of cell ",str(L.cell(g))," is ",v,", expected ",want)); }); });
        c.trace(); c.transition(); c.evaluation(fm.size()*nc); c.state(mc::Hash().str(c.desc()).h); if(!r.ok) err(e,mc::cat(r.kind,": ",r.error)); if(!e.empty()) c.violation(mc::cat("point mass:",key(B.D,n)),e); } } });
      return; }
  }); }
