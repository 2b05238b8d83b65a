// Parabolic terms (heat conduction, viscosity) and the flux-flux cooling term, compared with operators assembled from geometry.
#include "lookup.h"
#include "parabolic/ParabolicUpdate.h"
#include "cooling/CoolingUpdate.h"
#include <cstring>
using namespace dy;
static const double G=1.4;
static double u01(const Oct& o,uint32_t l,int f,int s){ uint64_t h=mc::Hash().add(o.l).add(o.x).add(o.y).add(o.z).add(l).add(f).add(s).h; h^=h>>31; h*=0x9E3779B97F4A7C15ull; h^=h>>29; return (double)((h>>13)&((1ull<<40)-1))/(double)(1ull<<40); }
/// faces of the mesh: overlap area of each pair of adjacent cells and the distance of their centres along the normal
struct Face { int a,b,d; double area,h; };
static std::vector<Face> faces(const Lookup& L){ std::map<std::array<int,3>,double> S; double dl[3]; for(int d=0;d<3;d++) dl[d]= d<L.B.D.dim?L.B.len[d]/L.n[d]:1; double ar[3]={dl[1]*dl[2],dl[0]*dl[2],dl[0]*dl[1]};
  for(long z=0;z<L.n[2];z++) for(long y=0;y<L.n[1];y++) for(long x=0;x<L.n[0];x++){ int a=L.get(x,y,z); for(int d=0;d<L.B.D.dim;d++){ int b=L.get(x+(d==0),y+(d==1),z+(d==2)); if(b<0) continue; long lo[3],w; L.box(a,lo,w); long p[3]={x,y,z}; if(p[d]+1==lo[d]+w) S[{a,b,d}]+=ar[d]; } }
  std::vector<Face> f; for(auto& p : S) f.push_back({p.first[0],p.first[1],p.first[2],p.second,.5*(L.size(p.first[0],p.first[2])+L.size(p.first[1],p.first[2]))}); return f; }
static double vol(const Lookup& L,int g){ double v=1; for(int d=0;d<L.B.D.dim;d++) v*=L.size(g,d); return v; }

/// conservative state of the virtual cell at offset `off` of the size of cell g; walls mirror
static Q9 virt(const Lookup& L,const Field& F,int g,std::array<int,3> off){ long lo[3],w; L.box(g,lo,w); bool neg[3]={0,0,0};
  for(int d=0;d<L.B.D.dim;d++){ long p=lo[d]+off[d]*w; if(!L.B.D.per[d] && (p<0||p>=L.n[d])){ off[d]=0; if(L.B.bc[2*d+(p>=L.n[d])]=="reflecting") neg[d]=true; } }
  auto s=L.shifted(g,off); Q9 r{}; double v=0; for(int c : s){ double x=vol(L,c); if(L.level(c)<L.level(g)) x=1; v+=x; for(int f=0;f<9;f++) r[f]+=x*F[c][f]; } for(auto& x : r) x/=v; for(int d=0;d<3;d++) if(neg[d]) r[2+d]=-r[2+d]; return r; }
/// divergence of the viscous stress (mu=1): momentum and energy
static Q9 viscous(const Lookup& L,const Field& F,int g){ int D=L.B.D.dim; std::map<std::array<int,3>,std::array<double,3>> memo;
  auto U=[&](std::array<int,3> o)->const std::array<double,3>&{ auto it=memo.find(o); if(it==memo.end()){ Q9 q=virt(L,F,g,o); it=memo.emplace(o,std::array<double,3>{q[2]/q[0],q[3]/q[0],D==3?q[4]/q[0]:0}).first; } return it->second; };
  Q9 r{}; for(int n=0;n<D;n++) for(int s=-1;s<=1;s+=2){ std::array<int,3> a{0,0,0},b{0,0,0}; (s<0?a:b)[n]=s; double gr[3][3]={}, uf[3]; // gr[d][i]: derivative along d of velocity i at the face
      for(int i=0;i<3;i++){ uf[i]=.5*(U(a)[i]+U(b)[i]); for(int d=0;d<D;d++){ double h=L.size(g,d); if(d==n) gr[d][i]=(U(b)[i]-U(a)[i])/h; else { double t=0; for(auto base : {a,b}) for(int e=-1;e<=1;e+=2){ auto o=base; o[d]=e; t+=e*U(o)[i]; } gr[d][i]=t/(4*h); } } }
      double div=0; for(int d=0;d<D;d++) div+=gr[d][d]; for(int i=0;i<D;i++){ double tau=gr[n][i]+gr[i][n]-(i==n?2./3.*div:0); r[2+i]+=s*tau/L.size(g,n); r[1]+=s*tau*uf[i]/L.size(g,n); } }
  return r; }

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough; auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };
    struct TC{ Box B; int k; std::vector<int> ranks; }; std::vector<TC> tc; std::vector<int> R=T?std::vector<int>{1,2,3,4}:std::vector<int>{1,3};
    auto add=[&](Domain D,Block b,std::array<double,3> len,int k,const std::string& w0,const std::string& w1){ Box B; B.D=D; B.b=b; B.len=len; B.lo={-.25,.5,D.dim==3?.125:0}; for(int d=0;d<3;d++){ B.bc[2*d]= D.per[d]?"periodic":d&1?w1:w0; B.bc[2*d+1]= D.per[d]?"periodic":w1; } tc.push_back({B,k,R}); };
    std::string A="absorbing",X="reflecting";
    add(dom(2,1,3,{2,2,1},{1,1,0}),{4,4,1},{1,1,1},T?6:4,A,A); add(dom(2,2,4,{3,1,1},{0,0,0}),{4,6,1},{1.5,.75,2},T?6:4,A,X); add(dom(2,1,3,{1,2,1},{0,1,0}),{5,4,1},{.5,1,.25},T?6:4,X,A); add(dom(2,2,4,{3,2,1},{1,0,0}),{4,4,1},{1.5,1,1},T?5:3,X,X);
    add(dom(3,1,3,{2,2,1},{1,1,1}),{4,4,4},{1,1,.5},T?3:2,A,A); add(dom(3,1,2,{2,1,2},{0,1,0}),{4,6,4},{1,.5,1.5},T?3:2,X,A); add(dom(3,1,2,{1,2,1},{0,0,0}),{4,4,5},{.7,1.3,1},T?2:1,A,X);
    const int npat= mode=="cooling"?1 : mode=="conduction"?4:3;
    for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ for(auto& hh : partitions(m,h,n)) for(int pat=0;pat<npat;pat++){
      if(c.skip()) continue; if(!c.begin(mc::cat(mode," ",str(t.B)," ranks=",n," | ",ref::str(hh)," | data ",pat))) continue;
      Box B=t.B; int dim=B.D.dim; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; size_t N=fm.size()*nc; std::string e; const double dt=.37, kap=.6, mu=.8, flux=1.7;
      bool layer= mode=="conduction" && (pat&1); double z1=.1,z2=.3,th=.2,K1=.5,K2=3; int up=dim-1; z1+=B.lo[up]; z2+=B.lo[up];
      std::string cf="[hydro]\ngamma0=1.4\n"; if(mode=="conduction") cf+=mc::cat("[thermal_conduction]\nkappa=",kap,"\n",layer?mc::cat("diffusivity_mode=analytical\nkappa_mode=tri_layer\n[tri_layer]\ntransition_thickness=",th,"\nz1=",z1,"\nz2=",z2,"\nK1=",K1,"\nK2=",K2,"\n"):""); if(mode=="viscosity") cf+=mc::cat("[viscosity]\nmu=",mu,"\n"); if(mode=="cooling") cf+=mc::cat("[cooling]\nFF_fluxes=",flux,"\n");
      Field in(N),nx(N),out(N); for(size_t g=0;g<N;g++){ auto r=[&](int f){ return 2*u01(fm.leaves[g/nc],g%nc,f,pat/2*2)-1; }; Prim q; q.r=pow(3,r(0)); q.p=pow(4,r(1)); q.u=.7+r(2); q.v=-.3+r(3); q.w=dim==3?.4+r(4):0;
        if(mode=="conduction"&&pat>=2) q.p=.7*q.r; if(mode=="viscosity"&&pat==2){ q.u=.7; q.v=-.3; q.w=dim==3?.4:0; } if(mode=="viscosity"&&pat==1) q.r=1; 
        in[g]=cons(q,G); for(int f=0;f<9;f++) nx[g][f]=in[g][f]*(1+.1*r(10+f)); for(auto& x : out[g]) x=NAN; }
      auto r=run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,cf)); std::vector<std::string> nm(cons_names().begin(),cons_names().begin()+5); if(dim==2 && mode!="cooling") {} 
        for(int f=0;f<5;f++){ K.set(nm[f],[&](int leaf,uint32_t l){ return in[leaf*nc+l][f]; }); K.set(nm[f]+"_next",[&](int leaf,uint32_t l){ return nx[leaf*nc+l][f]; }); }
        K.exchange(nm,2); ScalarSimulationData sd; sd.set<real_t>("dt",dt);
        if(mode=="cooling") CoolingUpdateFactory::make_instance("CoolingUpdate_FF",K.cm,K.fc,K.tm)->update(K.U,sd); else ParabolicUpdateFactory::make_instance("ParabolicUpdate_explicit",K.cm,K.fc,K.tm,mode=="conduction"?PARABOLIC_THERMAL_CONDUCTION:PARABOLIC_VISCOSITY)->update(K.U,sd);
        for(int f=0;f<5;f++){ K.get(nm[f]+"_next",[&](int leaf,uint32_t l,double v){ out[leaf*nc+l][f]=v; }); K.get(nm[f],[&](int leaf,uint32_t l,double v){ if(v!=in[leaf*nc+l][f]) err(e,mc::cat("field ",nm[f]," of the current step is modified")); }); } });
      c.trace(); c.transition(); c.evaluation(N); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
      if(!r.ok) err(e,mc::cat(r.kind,": ",r.error));
      std::vector<Q9> want(N,Q9{}); std::vector<double> mag(N,0);
      if(mode=="conduction"){ auto kappa=[&](int g){ if(!layer) return kap; double d=L.lo(g,up)+.5*L.size(g,up), tr=.25*(std::tanh((d-z1)/th)+1)*(std::tanh((z2-d)/th)+1); return kap*(K2+(K1-K2)*tr); };
        for(auto& f : faces(L)){ Prim a=prim(in[f.a],G), b=prim(in[f.b],G); double q=.5*(kappa(f.a)+kappa(f.b))*f.area*(b.p/b.r-a.p/a.r)/f.h; want[f.a][1]+=q/vol(L,f.a); want[f.b][1]-=q/vol(L,f.b); double s=kap*K2*f.area*(fabs(b.p/b.r)+fabs(a.p/a.r))/f.h; mag[f.a]+=s/vol(L,f.a); mag[f.b]+=s/vol(L,f.b); } }
      else if(mode=="viscosity"){ for(size_t g=0;g<N;g++){ want[g]=viscous(L,in,(int)g); for(auto& x : want[g]) x*=mu; double hm=1e9; for(int d=0;d<dim;d++) hm=std::min(hm,L.size((int)g,d)); mag[g]=mu*20/(hm*hm); } }
      else for(size_t g=0;g<N;g++){ long lo[3],w; L.box((int)g,lo,w); double F=flux/L.size((int)g,up); if(lo[up]==0) want[g][1]-=F; if(lo[up]+w==L.n[up]) want[g][1]+=F; mag[g]=F; }
      for(size_t g=0;g<N&&e.empty();g++) for(int f=0;f<(dim==3?5:4);f++){ double x=nx[g][f]+dt*want[g][f]; bool touched= f==1 || (mode=="viscosity"&&f>1); if(touched ? !(fabs(out[g][f]-x)<=1e-12*(1+fabs(nx[g][f])+dt*mag[g])) : out[g][f]!=nx[g][f]){ err(e,mc::cat("cell ",str(L.cell((int)g)),": ",cons_names()[f]," goes from ",nx[g][f]," to ",out[g][f],", expected ",x)); break; } }
      if(e.empty()){ double s=0,a=0; for(size_t g=0;g<N;g++){ s+=(out[g][1]-nx[g][1])*vol(L,g); a+=mag[g]*vol(L,g)*dt+fabs(nx[g][1])*vol(L,g); } if(mode!="viscosity" && !(fabs(s)<=1e-12*a)) err(e,mc::cat("the total energy changes by ",s)); }
      if(!e.empty()) c.violation(mc::cat(mode,":",mode=="conduction"?layer?"tri layer:":"constant:":"",mode=="conduction"&&pat>=2?"isothermal:":mode=="viscosity"&&pat==2?"uniform velocity:":"",key(B.D,n)),e); } } });
  }); }
