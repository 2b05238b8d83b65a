// Initial conditions: the mesh and the cells they produce against independently written formulas
#include "lookup.h"
#include "scratch.h"
#include "init/InitialConditions.h"
#include "utils/io/FortranBinaryReader.h"
#include <cstring>
#include <fstream>
#include <sys/stat.h>
using namespace dy;
using S3=std::array<double,3>;
struct Formula { std::string name, section; bool glm=false, mhd=false; int dims=23; /* 2, 3 or 23 */ std::string text; bool random=false;
  std::function<Prim(S3,int dim)> v; std::function<double(S3,int)> amp; /* half width of the random relative pressure (C91, tri_layer) or absolute velocity */ std::function<bool(S3,S3)> refine; };
static const double PI=3.14159265358979323846;
/// Lax & Liu (1998): (p, rho, u, v) of the quadrants upper right, upper left, lower left, lower right
static const double LL[19][4][4]={
 {{1,1,0,0},{.4,.5197,-.7259,0},{.0439,.1072,-.7259,-1.4045},{.15,.2579,0,-1.4045}},
 {{1,1,0,0},{.4,.5197,-.7259,0},{1,1,-.7259,-.7259},{.4,.5197,0,-.7259}},
 {{1.5,1.5,0,0},{.3,.5323,1.206,0},{.029,.138,1.206,1.206},{.3,.5323,0,1.206}},
 {{1.1,1.1,0,0},{.35,.5065,.8939,0},{1.1,1.1,.8939,.8939},{.35,.5065,0,.8939}},
 {{1,1,-.75,-.5},{1,2,-.75,.5},{1,1,.75,.5},{1,3,.75,-.5}},
 {{1,1,.75,-.5},{1,2,.75,.5},{1,1,-.75,.5},{1,3,-.75,-.5}},
 {{1,1,.1,.1},{.4,.5197,-.6259,.1},{.4,.8,.1,.1},{.4,.5197,.1,-.6259}},
 {{.4,.5197,.1,.1},{1,1,-.6259,.1},{1,.8,.1,.1},{1,1,.1,-.6259}},
 {{1,1,0,.3},{1,2,0,-.3},{.4,1.039,0,-.8133},{.4,.5197,0,-.4259}},
 {{1,1,0,.4297},{1,.5,0,.6076},{.3333,.2281,0,-.6076},{.3333,.4562,0,-.4297}},
 {{1,1,.1,0},{.4,.5313,.8276,0},{.4,.8,.1,0},{.4,.5313,.1,.7276}},
 {{.4,.5313,0,0},{1,1,.7276,0},{1,.8,0,0},{1,1,0,.7276}},
 {{1,1,0,-.3},{1,2,0,.3},{.4,1.0625,0,.8145},{.4,.5313,0,.4276}},
 {{8,2,0,-.5606},{8,1,0,-1.2172},{2.6667,.4736,0,1.2172},{2.6667,.9474,0,1.1606}},
 {{1,1,.1,-.3},{.4,.5197,-.6259,-.3},{.4,.8,.1,-.3},{.4,.5313,.1,.4276}},
 {{.4,.5313,.1,.1},{1,1.0222,-.6179,.1},{1,.8,.1,.1},{1,1,.1,.8276}},
 {{1,1,0,-.4},{1,2,0,-.3},{.4,1.0625,0,.2145},{.4,.5197,0,-1.1259}},
 {{1,1,0,1},{1,2,0,-.3},{.4,1.0625,0,.2145},{.4,.5197,0,.2741}},
 {{1,1,0,.3},{1,2,0,-.3},{.4,1.0625,0,.2145},{.4,.5197,0,-.4259}}};
static std::vector<Formula> formulas(const Box& B,bool T){ std::vector<Formula> F; auto sq=[](double x){ return x*x; };
  bool unit=B.lo==S3{0,0,0} && B.len[0]==1&&B.len[1]==1&&(B.D.dim==2||B.len[2]==1);
  for(int k=0;k<2;k++){ double x0=k?B.lo[0]+.3*B.len[0]:.5, pL=k?2.5:1, pR=k?.3:.1, rL=k?1.7:1, rR=k?.2:.125; Formula f; f.name="sod"; if(k) f.text=mc::cat("[sod]\nx0=",x0,"\npL=",pL,"\npR=",pR,"\nrhoL=",rL,"\nrhoR=",rR,"\n"); f.v=[=](S3 x,int){ Prim q; q.r=x[0]<x0?rL:rR; q.p=x[0]<x0?pL:pR; return q; }; f.refine=[=](S3 x,S3 h){ return fabs(x[0]-x0)<1.1*h[0]; }; F.push_back(f); }
  for(int k=0;k<2;k++){ double x0=k?B.lo[0]-B.lo[1]+.4:.25, pi=k?.3:.14, po=k?2:1, ri=k?.25:.125, ro=k?3:1; Formula f; f.name="implode"; f.dims=2; if(k) f.text=mc::cat("[implode]\nx0=",x0,"\np_in=",pi,"\np_out=",po,"\nrho_in=",ri,"\nrho_out=",ro,"\n"); f.v=[=](S3 x,int){ bool in=x[0]-x[1]>x0; Prim q; q.r=in?ri:ro; q.p=in?pi:po; return q; }; F.push_back(f); }
  for(int k=0;k<2;k++){ double rf=k?.7:0,z1=k?B.lo[1]+.25*B.len[1]:.5,z2=k?B.lo[1]+.75*B.len[1]:1.5,a=k?.08:.05,A=k?.3:.01,s=k?.15:.2,P0=k?2.5:1,uf=k?.8:1; Formula f; f.name="kelvin_helmholtz"; f.dims=2; if(k) f.text=mc::cat("[KH]\nrho_fac=",rf,"\nz1=",z1,"\nz2=",z2,"\na=",a,"\namplitude=",A,"\nsigma=",s,"\nP0=",P0,"\nuflow=",uf,"\n");
    f.v=[=](S3 x,int){ Prim q; double t1=std::tanh((x[1]-z1)/a),t2=std::tanh((x[1]-z2)/a); q.r=1+rf/2*(t1-t2); q.u=uf*(t1-t2-1); q.v=A*std::sin(2*PI*x[0])*(std::exp(-sq((x[1]-z1)/s))+std::exp(-sq((x[1]-z2)/s))); q.p=P0; return q; }; F.push_back(f); }
  for(int k=0;k<(T?19:7);k++){ int c=T?k:(k*3)%19; double x0=k%2?B.lo[0]+.6*B.len[0]:.5,y0=k%2?B.lo[1]+.3*B.len[1]:.5; Formula f; f.name="riemann2d"; f.dims=23; f.text=mc::cat("[riemann2d]\ntest_case=",c+1,"\n",k%2?mc::cat("x0=",x0,"\ny0=",y0,"\n"):std::string()); f.v=[=](S3 x,int){ const double* s=LL[c][x[1]<y0?(x[0]<x0?2:3):(x[0]<x0?1:0)]; Prim q; q.p=s[0]; q.r=s[1]; q.u=s[2]; q.v=s[3]; return q; }; F.push_back(f); }
  for(int k=0;k<2;k++){ double rt=k?3:2,rb=k?.5:1,z0=k?B.lo[B.D.dim-1]+.5*B.len[B.D.dim-1]:0,P0=k?4:2.5,am=k?.2:.01,g=k?-.3:-.1; Formula f; f.name="rayleigh_taylor"; f.text= k?mc::cat("[RT]\nrho_top=",rt,"\nrho_bot=",rb,"\nz0=",z0,"\nP0=",P0,"\namplitude=",am,"\n[gravity]\ng",B.D.dim==2?"y":"z","=",g,"\n"):std::string();
    f.v=[=](S3 x,int dim){ double z=x[dim-1]; Prim q; q.r=z>z0?rt:rb; q.p=P0+q.r*g*z; double w=am/4*(1+std::cos(4*PI*x[0]))*(1+std::cos(2*PI*z)); if(dim==3) w*=1+std::cos(4*PI*x[1]); (dim==2?q.v:q.w)=w; return q; }; F.push_back(f);
    f.text+="[RT]\nmulti_mode=true\nseed=17\n"; f.random=true; auto base=f.v; f.v=[=](S3 x,int dim){ Prim q=base(x,dim); q.v=q.w=0; return q; }; f.amp=[=](S3 x,int dim){ return am/4*(1+std::cos(2*PI*x[dim-1])); }; F.push_back(f); }
  if(unit) for(int m=0;m<3;m++) for(int k=0;k<3;k++){ double R=k?.45:.1,cx=k==2?.25:.5,cy=k==2?.625:.5,cz=k==2?.75:.5,di=k?3:1,d0=k?.5:(m?1.:1.2),pi=k?7:10,po=k?.4:.1,Bm=k?1.5:3.54491,al=k?.3:.785398; int n[3]={k?2:1,k==1?3:1,k==2?2:1}; Formula f; f.name=m==0?"blast":m==1?"MHD_blast":"MHD_blast_glm"; f.mhd=m>0; f.glm=m==2; if(k) f.text=mc::cat("[blast]\nradius=",R,"\ndensity_in=",di,"\ndensity_out=",d0,"\npressure_in=",pi,"\npressure_out=",po,"\nblast_nx=",n[0],"\nblast_ny=",n[1],"\nblast_nz=",n[2],m?mc::cat("\nblast_B=",Bm,"\nblast_alpha=",al):std::string(),"\n",k==2?mc::cat("center_x=",cx,"\ncenter_y=",cy,"\ncenter_z=",cz,"\n"):std::string());
    int n0=n[0],n1=n[1],n2=n[2]; f.v=[=](S3 x,int dim){ int nn[3]={n0,n1,n2}; double cc[3]={cx,cy,cz}; double q0=1; for(int d=0;d<dim;d++) q0=std::min(q0,1./nn[d]); double r2=0; for(int d=0;d<dim;d++){ double qi=std::trunc(x[d]*nn[d]); r2+=sq(x[d]-(qi+cc[d])/nn[d]); } Prim q; bool in=r2<sq(R*q0); q.r=in?di:d0; q.p=in?pi:po; if(m){ q.bx=Bm*std::cos(al); q.by=Bm*std::sin(al); } return q; }; F.push_back(f); }
  for(int m=1;m<3;m++){ Formula f; f.name=m==1?"orszag_tang":"orszag_tang_glm"; f.mhd=true; f.glm=m==2; f.dims=2; f.v=[=](S3 x,int){ Prim q; q.r=25/(36*PI); q.p=5/(12*PI); q.u=-std::sin(2*PI*x[1]); q.v=std::sin(2*PI*x[0]); double b=1/std::sqrt(4*PI); q.bx=-b*std::sin(2*PI*x[1]); q.by=b*std::sin(4*PI*x[0]); return q; }; F.push_back(f); }
  for(int m=1;m<3;m++){ double xc=B.lo[0]+B.len[0]/2,yc=B.lo[1]+B.len[1]/2; Formula f; f.name=m==1?"MHD_rotor":"MHD_rotor_glm"; f.mhd=true; f.glm=m==2; f.dims=2; f.v=[=](S3 x,int){ double r=std::hypot(x[0]-xc,x[1]-yc),t= r<.1?1:r>.115?0:(.115-r)/.015; Prim q; q.r=1+9*t; q.p=1; q.u=-t*20*(yc-x[1])*1; q.v=t*20*(xc-x[0]); q.bx=5/std::sqrt(4*PI); return q; }; F.push_back(f); }
  for(int k=0;k<2;k++){ double th=k?3:10,pa=k?.05:1e-3,mp=k?1.5:1,r0=k?2:10,T0=k?5:10; Formula f; f.name="C91"; f.random=true; if(k) f.text=mc::cat("[C91]\ntheta=",th,"\npert_amplitude=",pa,"\nmpoly=",mp,"\nrho0=",r0,"\nT0=",T0,"\nseed=3\n"); f.v=[=](S3 x,int dim){ double t=(T0+th*x[dim-1])/T0; Prim q; q.r=r0*std::pow(t,mp); q.p=q.r*T0*t; return q; }; f.amp=[=](S3 x,int dim){ double d=x[dim-1]; return d<.1||d>.9?0:pa; }; F.push_back(f); }
  for(int k=0;k<2;k++){ double z1=k?B.lo[B.D.dim-1]+.3*B.len[B.D.dim-1]:1,z2=k?B.lo[B.D.dim-1]+.7*B.len[B.D.dim-1]:1,t1=k?2:1,t2=k?.7:1,m1=k?1.2:1,m2=k?2:1,r0=k?3:10,T0=k?4:10,pe=k?.1:1e-3; Formula f; f.name="tri_layer"; f.random=true; if(k) f.text=mc::cat("[tri_layer]\nz1=",z1,"\nz2=",z2,"\ntheta1=",t1,"\ntheta2=",t2,"\nm1=",m1,"\nm2=",m2,"\nrho0=",r0,"\nT0=",T0,"\nperturbation=",pe,"\nseed=9\n");
    f.v=[=](S3 x,int dim){ double d=x[dim-1]; auto layer=[](double& r,double& p,double& T,double th,double m,double h){ double t=(T+th*h)/T; T*=t; r*=std::pow(t,m); p*=std::pow(t,m+1); }; double r=r0,p=r0*T0,T=T0; if(d<=z1) layer(r,p,T,t2,m2,d); else { layer(r,p,T,t2,m2,z1); if(d<=z2) layer(r,p,T,t1,m1,d-z1); else { layer(r,p,T,t1,m1,z2-z1); layer(r,p,T,t2,m2,d-z2); } } Prim q; q.r=r; q.p=p; return q; };
    f.amp=[=](S3 x,int dim){ double d=x[dim-1]; return d>z1&&d<=z2?pe/2:0; }; F.push_back(f); }
  return F; }
/// normalised second differences of density and pressure over one cell in each direction; -1 if too close to the threshold to tell
static int curved(const Formula& f,S3 x,S3 h,int dim,double thr){ double e=0; for(int d=0;d<3;d++){ S3 a=x,b=x; a[d]-=h[d]; b[d]+=h[d]; Prim l=f.v(a,dim),c=f.v(x,dim),r=f.v(b,dim); auto est=[&](double m,double o,double p){ return fabs(p-2*o+m)/(fabs(p-o)+fabs(m-o)+.01*(fabs(p)+fabs(m)+2*fabs(o))+2.2e-16); }; e=std::max({e,est(l.r,c.r,r.r),est(l.p,c.p,r.p)}); } if(fabs(e-thr)<1e-7*(1+fabs(thr))) return -1; return e>thr; }

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); scratch(); bool T=c.thorough; auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };
    struct TC{ Box B; std::vector<int> ranks; }; std::vector<TC> tc; std::vector<int> R=T?std::vector<int>{1,2,3,4}:std::vector<int>{1,3};
    auto add=[&](Domain D,Block b,S3 len,S3 lo){ Box B; B.D=D; B.b=b; B.len=len; B.lo=lo; B.walls("absorbing"); tc.push_back({B,R}); };
    add(dom(2,1,3,{2,2,1},{1,1,0}),{2,2,1},{1,1,1},{0,0,0}); add(dom(2,2,5,{4,4,1},{0,0,0}),{1,1,1},{1,1,1},{0,0,0}); add(dom(2,2,4,{3,2,1},{1,0,0}),{4,3,1},{1.5,.75,1},{-.25,.125,0}); add(dom(2,1,4,{1,2,1},{0,1,0}),{3,2,1},{2,2,1},{-1,-1,0});
    add(dom(3,1,3,{2,2,2},{1,1,1}),{2,2,2},{1,1,1},{0,0,0}); add(dom(3,1,3,{2,1,2},{0,0,1}),{1,2,1},{1,.5,1.5},{-.5,.25,-.25}); if(T){ add(dom(2,1,5,{2,2,1},{1,1,0}),{4,4,1},{1,1,1},{0,0,0}); add(dom(2,3,3,{8,5,1},{0,0,0}),{2,2,1},{1,1,1},{0,0,0}); add(dom(3,0,3,{1,1,1},{0,0,0}),{4,4,4},{1,1,1},{0,0,0}); }
    struct Cellv { S3 x,h; Q9 q; };
    struct Out { fmpi::Result r; std::vector<Oct> leaves; std::vector<char> owned; Field q; };
    if(mode=="analytic"){
      for(auto& t : tc){ const Box& B=t.B; const Domain& D=B.D; auto FF=formulas(B,T); for(size_t fi=0;fi<FF.size();fi++){ const Formula& f=FF[fi]; if(f.dims==2&&D.dim==3) continue; if(f.dims==3&&D.dim==2) continue;
        for(int th=0;th<4;th++) for(int n : t.ranks){ if((size_t)n>Mesh::initial(D).size()) continue; double thr= th==0?.8:th==1?.05:th==2?-1:2; if(f.random&&th<2) continue; if(f.refine&&th) continue; if(th==2 && D.dim==3 && !T) continue;
        if(c.skip()) continue; if(!c.begin(mc::cat("initial ",f.name," #",fi," ",str(B)," ranks=",n," threshold ",thr))) continue; std::string e; const double G=1.7;
        // expected mesh: each level in turn
        Mesh m=Mesh::initial(D); bool unsure=false; auto pos=[&](const Oct& o,uint32_t l,S3& h){ Cell q=cell_of(B.b,o,l); S3 x; for(int d=0;d<3;d++){ h[d]= d<D.dim? B.dx(d,o.l) : 1; x[d]= d<D.dim ? B.lo[d]+(o.c(d)*(double)B.b[d]+q.c(d)+.5)*h[d] : .5; } return x; };
        for(int lv=D.lmin;lv<D.lmax;lv++){ std::vector<int> mk(m.size(),0); for(size_t i=0;i<m.size();i++) for(uint32_t l=0;l<ncell(B.b);l++){ S3 h,x=pos(m.leaves[i],l,h); int k= f.refine? f.refine(x,h) : f.random? thr<0 : curved(f,x,h,D.dim,thr); if(k<0) unsure=true; if(k>0) mk[i]=1; } m=m.adapt(mk); if(m.size()>(T?6000u:3000u)){ unsure=true; break; } }
        if(unsure){ c.counters["undecided"]++; continue; }
        int nc=ncell(B.b); int nf=f.glm?9:f.mhd?8:5; std::map<Oct,int> idx; for(size_t i=0;i<m.size();i++) idx[m.leaves[i]]=(int)i; std::vector<int> owned(m.size(),0); Field q(m.size()*nc); for(auto& x : q) for(int k=0;k<9;k++) x[k]= k<nf ? NAN : 0;
        std::string cfg=B.config(nullptr,mc::cat(f.text,"[amr]\nerror_max=",thr,"\nepsilon_coarsen=",thr,"\n[hydro]\ngamma0=",G,"\n"));
        auto r=fmpi::run(n,[&](int rank){ auto am=make_mesh(D); ConfigMap cm(cfg); ForeachCell fc(*am,cm); UserData U(cm,fc); Timers tm; InitialConditionsFactory::make_instance(f.name,cm,fc,tm)->init(U);
          auto lo=local_octs(*am,D); std::set<std::string> want(cons_names().begin(),cons_names().begin()+nf),got; for(auto& x : U.getEnabledFields()) got.insert(x); if(want!=got) err(e,"the fields are not those of the state");
          for(size_t o=0;o<lo.size();o++){ auto it=idx.find(lo[o]); if(it==idx.end()){ err(e,mc::cat("octant ",ref::str(lo[o])," should not exist")); continue; } owned[it->second]++; if(want==got) for(int k=0;k<nf;k++){ auto A=U.getAccessor({{cons_names()[k],(VarIndex)0}}); for(int l=0;l<nc;l++) q[it->second*nc+l][k]=A.at(Rank::ci(B.b,o,l),(VarIndex)0); } } });
        c.trace(); c.transition(D.lmax-D.lmin+1); c.evaluation(q.size()); c.state(mc::Hash().str(c.desc()).h); if(c.traces%97==1) c.sample(c.desc());
        if(!r.ok) err(e,mc::cat(r.kind,": ",r.error)); for(size_t i=0;i<m.size();i++) if(owned[i]!=1) err(e,mc::cat("leaf ",ref::str(m.leaves[i])," is on ",owned[i]," processes"));
        std::set<double> rv; int nr=0;
        for(size_t g=0;g<q.size()&&e.empty();g++){ S3 h,x=pos(m.leaves[g/nc],g%nc,h); Prim p=f.v(x,D.dim); Q9 w=cons(p,G); Prim a=prim(q[g],G); std::string at=mc::cat("cell ",str(cell_of(B.b,m.leaves[g/nc],g%nc))," at ",x[0],",",x[1],",",x[2],": "); double scale=1; for(int k=0;k<nf;k++) scale=std::max(scale,fabs(w[k]));
          if(!f.random){ bool edge=false; if(!f.refine||true){ /* a cell centre on a discontinuity can be on either side */ S3 y=x; for(int s=-1;s<=1;s+=2){ for(int d=0;d<3;d++) y[d]=x[d]*(1+s*1e-13)+s*1e-14; Q9 v=cons(f.v(y,D.dim),G); for(int k=0;k<nf;k++) if(fabs(v[k]-w[k])>1e-6*scale) edge=true; for(int d=0;d<2;d++){ y=x; y[d]+=s*1e-14; Q9 v2=cons(f.v(y,D.dim),G); for(int k=0;k<nf;k++) if(fabs(v2[k]-w[k])>1e-6*scale) edge=true; } } } if(edge){ c.counters["cells_on_a_discontinuity"]++; continue; }
            for(int k=0;k<nf;k++) if(!(fabs(q[g][k]-w[k])<=1e-11*scale)) err(e,mc::cat(at,cons_names()[k]," is ",q[g][k],", expected ",w[k])); }
          else { double A=f.amp(x,D.dim),dev; bool vel=f.name=="rayleigh_taylor"; if(!(fabs(a.r-p.r)<=1e-11*scale)) err(e,mc::cat(at,"density ",a.r,", expected ",p.r)); if(vel){ dev= D.dim==2?a.v:a.w; a.p-=0; if(!(fabs(a.p-p.p)<=1e-10*scale)) err(e,mc::cat(at,"pressure ",a.p,", expected ",p.p)); } else dev=a.p/p.p-1; if(!(fabs(dev)<=A*(1+1e-9)+1e-11)) err(e,mc::cat(at,"perturbation ",dev," beyond the amplitude ",A)); if(A>1e-4){ rv.insert(dev/A); nr++; } } }
        if(e.empty() && f.random && nr>16){ if(rv.size()<(size_t)nr/2 || *rv.begin()>0 || *rv.rbegin()<0) err(e,mc::cat("the perturbation takes only ",rv.size()," values, from ",*rv.begin()," to ",*rv.rbegin()," of the amplitude, in ",nr," cells")); }
        if(!e.empty()) c.violation(mc::cat("initial:",f.name,key(D,n)),e); } } }
      return; }
    if(mode=="particles"){
      struct Part{ S3 x,v; double m; };
      auto dump=[&](UserData& U,AMRmesh& am,const Domain& D,const std::string& name,std::vector<Part>& out,std::string& e){ (void)D; auto P=U.getParticleArray(name); auto A=U.getParticleAccessor(name,{{"vx",0},{"vy",1},{"vz",2},{"mass",3}}); for(uint32_t k=0;k<P.getNumParticles();k++){ Part q; for(int d=0;d<3;d++){ q.x[d]=P.pos(k,(ComponentIndex3D)d); q.v[d]=A.at(k,d); } q.m=A.at(k,3); out.push_back(q); (void)am; (void)e; } };
      auto owner=[&](const Box& B,const std::vector<Oct>& mine,const S3& x){ for(auto& o : mine){ bool in=true; for(int d=0;d<B.D.dim;d++){ double w=B.len[d]/B.D.count(d,o.l),l=B.lo[d]+o.c(d)*w; if(x[d]<l-1e-12||x[d]>l+w+1e-12) in=false; } if(in) return true; } return false; };
      for(auto& t : tc){ const Box& B=t.B; const Domain& D=B.D;
        // lists of particles
        for(int np=1;np<=(T?6:4);np++) for(int less=-1;less<=2;less++) for(int which=0;which<(T?8:4);which++) for(int n : t.ranks){ if((size_t)n>Mesh::initial(D).size()) continue; if(np-less<0) continue; if(c.skip()) continue; if(!c.begin(mc::cat("particles ",str(B)," ranks=",n," npart=",np," values=",np-less," in list ",which))) continue; std::string e;
          const char* nm[7]={"px","py","pz","vx","vy","vz","mass"}; std::vector<std::vector<double>> val(7); std::string cfg=mc::cat("[simple_particles]\n",np==1&&which==0?std::string():mc::cat("npart=",np,"\n"));
          for(int a=0;a<7;a++){ int cnt= (which==7||a==which||(which==3&&a>=3)) ? np-less : np; for(int k=0;k<cnt;k++){ double v= a<3? B.lo[a]+B.len[a]*((rnd(a,k,np)/(double)(1ull<<40))*.98+.01) : std::round(rnd(a,k,which)/(double)(1ull<<40)*512)/64-4; val[a].push_back(v); } if(cnt){ cfg+=mc::cat(nm[a],"="); for(int k=0;k<cnt;k++) cfg+=mc::cat(k?",":"",val[a][k]); cfg+="\n"; } }
          bool inside=true; for(int a=0;a<D.dim;a++) if((int)val[a].size()<np && (B.lo[a]>0||B.lo[a]+B.len[a]<=0)) inside=false; if(!inside){ c.counters["outside"]++; continue; } // missing coordinates are zero
          std::vector<Part> got; auto r=fmpi::run(n,[&](int){ auto am=make_mesh(D); ConfigMap cm(B.config(nullptr,cfg)); ForeachCell fc(*am,cm); UserData U(cm,fc); Timers tm; InitialConditionsFactory::make_instance("simple_particles",cm,fc,tm)->init(U); std::vector<Part> g; dump(U,*am,D,"particles",g,e); auto mine=local_octs(*am,D); for(auto& q : g){ if(!owner(B,mine,q.x)) err(e,"a particle is not on the process owning its octant"); got.push_back(q); } });
          c.trace(); c.transition(); c.evaluation(np); c.state(mc::Hash().str(c.desc()).h); if(c.traces%197==1) c.sample(c.desc()); if(!r.ok) err(e,mc::cat(r.kind,": ",r.error)); if(r.ok && (int)got.size()!=np) err(e,mc::cat(got.size()," particles, expected ",np));
          auto w=[&](int a,int k){ return k<(int)val[a].size()?val[a][k]:0.; }; std::vector<std::array<double,7>> A,Bv; for(auto& q : got) A.push_back({q.x[0],q.x[1],q.x[2],q.v[0],q.v[1],q.v[2],q.m}); for(int k=0;k<np;k++) Bv.push_back({w(0,k),w(1,k),w(2,k),w(3,k),w(4,k),w(5,k),w(6,k)}); std::sort(A.begin(),A.end()); std::sort(Bv.begin(),Bv.end()); if(r.ok && A!=Bv) err(e,"the particles are not those of the lists");
          if(!e.empty()) c.violation(mc::cat("initial:simple_particles",key(D,n)),e); }
        // grid of particles moving with the gas
        struct GC{ std::array<int,3> g; int dt; int cosmo; std::string name; }; std::vector<GC> gc{{{0,0,0},0,0,""},{{0,0,0},1,0,""},{{5,3,D.dim==3?4:1},0,0,"stars"},{{4,7,D.dim==3?2:3},2,0,""},{{7,0,0},1,1,""},{{0,0,0},3,2,""},{{1,1,1},2,0,""}};
        for(size_t gi=0;gi<gc.size();gi++) for(int fk=0;fk<3;fk++) for(int n : t.ranks){ if((size_t)n>Mesh::initial(D).size()) continue; if(c.skip()) continue; if(!c.begin(mc::cat("grid ",str(B)," ranks=",n," #",gi," gas ",fk))) continue; std::string e; auto& g=gc[gi];
          Formula f; for(auto& x : formulas(B,T)){ if(fk==0&&x.name=="riemann2d") { f=x; } if(fk==1&&x.name=="rayleigh_taylor"&&!x.random) f=x; if(fk==2&&x.name==(D.dim==2?"kelvin_helmholtz":"riemann2d")&&f.name.empty()) f=x; }
          uint32_t N[3]; for(int d=0;d<3;d++) N[d]= g.g[d]? (uint32_t)g.g[d] : B.b[d]*(d<D.dim?D.coarse[d]:1); double Om= g.cosmo==2?.3:1,Ov=g.cosmo==2?.7:0,Ob=.05,a0=.5; double dtp= g.dt==0?0:g.dt==1?.03125:g.dt==2?-.2:.4, mass= g.dt==2?3.5:1; std::string cfg=f.text+mc::cat("[amr]\nerror_max=.3\nepsilon_coarsen=.3\n[hydro]\ngamma0=1.7\n[particle_grid]\n");
          if(g.g[0]) cfg+=mc::cat("nx=",N[0],"\n"); if(g.g[1]) cfg+=mc::cat("ny=",N[1],"\n"); if(g.g[2]) cfg+=mc::cat("nz=",N[2],"\n"); if(!g.name.empty()) cfg+="particle_array_name="+g.name+"\n"; if(!g.cosmo){ if(g.dt) cfg+=mc::cat("dt_perturb=",dtp,"\n"); if(g.dt==2) cfg+=mc::cat("total_mass=",mass,"\n"); if(gi%2) cfg+="[cosmology]\nactive=no\nastart=0.5\nomegam=.3\nomegab=.05\nomegav=.7\n"; }
          else { cfg+=mc::cat("[cosmology]\nactive=yes\nastart=",a0,"\nomegam=",Om,"\nomegab=",Ob,"\nomegav=",Ov,"\n"); mass=1-Ob/Om; /* linear growth rate dlnD/dlna, D = eta/a integral da/eta^3 */ double Ok=1-Om-Ov; auto eta=[&](double a){ return std::sqrt(Om/a+Ov*a*a+Ok); }; double I=0; int M=20000; for(int k=0;k<M;k++){ double a=a0*(k+.5)/M; I+=std::pow(eta(a),-3)*a0/M; } double et=eta(a0),fo=(2.5/(et/a0*2.5*I)-1.5*Om/a0-Ok)/(et*et); dtp=1/(2*fo*a0*et/std::sqrt(Om)); }
          std::vector<Part> got; std::vector<std::pair<S3,S3>> boxes; std::vector<S3> vel; std::string name=g.name.empty()?"particles":g.name;
          auto r=fmpi::run(n,[&](int){ auto am=make_mesh(D); ConfigMap cm(B.config(nullptr,cfg)); ForeachCell fc(*am,cm); UserData U(cm,fc); Timers tm; InitialConditionsFactory::make_instance(f.name,cm,fc,tm)->init(U); InitialConditionsFactory::make_instance("particle_grid",cm,fc,tm)->init(U); auto mine=local_octs(*am,D);
            auto A=U.getAccessor({{"rho",(VarIndex)0},{"rho_vx",(VarIndex)1},{"rho_vy",(VarIndex)2},{"rho_vz",(VarIndex)3}}); for(size_t o=0;o<mine.size();o++) for(uint32_t l=0;l<ncell(B.b);l++){ auto q=Rank::ci(B.b,o,l); double rho=A.at(q,(VarIndex)0); vel.push_back({A.at(q,(VarIndex)1)/rho,A.at(q,(VarIndex)2)/rho,A.at(q,(VarIndex)3)/rho}); Cell ce=cell_of(B.b,mine[o],l); S3 x{0,0,0},h{1,1,1}; for(int d=0;d<D.dim;d++){ h[d]=B.dx(d,ce.o.l); x[d]=B.lo[d]+(ce.o.c(d)*(double)B.b[d]+ce.c(d))*h[d]; } for(int d=0;d<3;d++) h[d]+=x[d]; boxes.push_back({x,h}); }
            std::vector<Part> gp; dump(U,*am,D,name,gp,e); for(auto& q : gp){ if(!owner(B,mine,q.x)) err(e,"a particle is not on the process owning its octant"); got.push_back(q); } });
          size_t NN=(size_t)N[0]*N[1]*N[2]; c.trace(); c.transition(); c.evaluation(NN); c.state(mc::Hash().str(c.desc()).h); if(c.traces%97==1) c.sample(c.desc()); if(!r.ok) err(e,mc::cat(r.kind,": ",r.error)); if(r.ok && got.size()!=NN) err(e,mc::cat(got.size()," particles, expected ",NN));
          bool far=false; for(auto& v : vel) for(int d=0;d<3;d++) if(fabs(v[d]*dtp)>=B.len[d]) far=true; if(far){ c.counters["displaced_by_more_than_the_domain"]++; continue; }
          if(e.empty()){ std::vector<char> used(got.size(),0); double tol= g.cosmo?1e-4:1e-11; for(size_t k=0;k<NN&&e.empty();k++){ S3 x; uint32_t ii[3]={(uint32_t)(k%N[0]),(uint32_t)(k/N[0]%N[1]),(uint32_t)(k/N[0]/N[1])}; for(int d=0;d<3;d++) x[d]=B.lo[d]+(ii[d]+.5)*B.len[d]/N[d];
            std::vector<S3> cand; for(size_t q=0;q<boxes.size();q++){ bool in=true; for(int d=0;d<D.dim;d++) if(x[d]<boxes[q].first[d]-1e-9||x[d]>boxes[q].second[d]+1e-9) in=false; if(in) cand.push_back(vel[q]); } if(cand.empty()) err(e,"oracle: no cell");
            bool ok=false; for(size_t p=0;p<got.size()&&!ok;p++) if(!used[p]) for(auto& v : cand){ bool m=fabs(got[p].m-mass/NN)<=1e-11*mass; for(int d=0;d<3&&m;d++){ if(!(fabs(got[p].v[d]-v[d])<=1e-11*(1+fabs(v[d])))) m=false; double y=x[d]+v[d]*dtp, df=std::remainder(got[p].x[d]-y,B.len[d]); if(!(fabs(df)<=tol*(1+fabs(v[d]*dtp)))) m=false; if(!(got[p].x[d]>=B.lo[d]-1e-12 && got[p].x[d]<=B.lo[d]+B.len[d]+1e-12)) m=false; } if(m){ used[p]=1; ok=true; break; } }
            if(!ok) err(e,mc::cat("no particle for point ",x[0],",",x[1],",",x[2]," of the grid with velocity ",cand[0][0],",",cand[0][1],",",cand[0][2]," and dt ",dtp)); } }
          if(!e.empty()) c.violation(mc::cat("initial:particle_grid",key(D,n)),e); } }
      return; }
    if(mode=="grafic"){
      struct GT{ Domain D; Block b; S3 lo; S3 len; }; std::vector<GT> gt{{dom(3,1,2,{2,2,2},{1,1,1}),{2,2,2},{0,0,0},{1,1,1}},{dom(3,1,2,{2,1,2},{1,1,1}),{3,2,1},{.5,-.25,0},{1,.5,2}},{dom(3,0,1,{1,1,1},{1,1,1}),{4,5,6},{0,0,0},{1,1,1}},{dom(3,2,3,{3,4,2},{1,0,1}),{1,2,3},{-1,0,.25},{3,4,2}}}; if(T) gt.push_back({dom(3,2,3,{4,4,4},{1,1,1}),{2,2,2},{0,0,0},{1,1,1}});
      for(auto& t : gt) for(int swap=0;swap<2;swap++) for(int given=0;given<2;given++) for(int co=0;co<3;co++) for(int cut=0;cut<3;cut++) for(int n : R){ Box B; B.D=t.D; B.b=t.b; B.lo=t.lo; B.len=t.len; B.walls("absorbing"); const Domain& D=B.D; if((size_t)n>Mesh::initial(D).size()) continue; if(cut && (co||given||swap)) continue; if(c.skip()) continue; if(!c.begin(mc::cat("grafic ",str(B)," swapped=",swap," given=",given," cosmology=",co," truncated=",cut," ranks=",n))) continue; std::string e; scratch_clear();
        int32_t N[3]; for(int d=0;d<3;d++) N[d]=(int)(D.coarse[d]*B.b[d]); float H[8]={co==2?2.5f:.5f,(float)B.lo[0],(float)B.lo[1],(float)B.lo[2],co==1?.25f:.015625f,co==1?1.f:.25f,co==1?0.f:.75f,co==2?50.f:70.f};
        auto value=[&](int f,int i,int j,int k){ double u=rnd(f*7+3,i*1000+j,k+11)/(double)(1ull<<40); return (float)(f==0? u*1.5-.7 : (u-.5)*400); };
        const char* fn[4]={"ic_deltab","ic_velbx","ic_velby","ic_velbz"}; mkdir("ic",0700);
        for(int f=0;f<4;f++){ std::string out; auto put=[&](const void* p,size_t w){ std::string s((const char*)p,w); if(swap) std::reverse(s.begin(),s.end()); out+=s; }; int32_t tag=44; put(&tag,4); for(int d=0;d<3;d++) put(&N[d],4); for(float x : H) put(&x,4); put(&tag,4); for(int k=0;k<N[2];k++){ tag=4*N[0]*N[1]; put(&tag,4); for(int j=0;j<N[1];j++) for(int i=0;i<N[0];i++){ float x=value(f,i,j,k); put(&x,4); } put(&tag,4); } if(cut&&f==2) out.resize(cut==1? out.size()-(4*N[0]*N[1]+8) : out.size()-4*N[0]*N[1]/2-4); std::ofstream o(mc::cat("ic/",fn[f]),std::ios::binary); o<<out; }
        const double G=1.6; std::string cfg="[grafic]\ninputDir=ic\n[hydro]\ngamma0=1.6\n[cosmology]\nomegab=.04\n"; if(given) cfg+=mc::cat("astart=",H[4],"\nomegam=",H[5],"\nomegav=",H[6],"\n");
        std::map<Oct,int> idx; auto m0=Mesh::initial(D); for(size_t i=0;i<m0.size();i++) idx[m0.leaves[i]]=(int)i; int nc=ncell(B.b); Field q(m0.size()*nc); for(auto& x : q) x.fill(NAN); double back[5]={0,0,0,0,0}; FortranBinaryReader::_byteswap=false;
        auto r=fmpi::run(n,[&](int rank){ auto am=make_mesh(D); ConfigMap cm(B.config(nullptr,cfg)); ForeachCell fc(*am,cm); UserData U(cm,fc); Timers tm; InitialConditionsFactory::make_instance("grafic_fields",cm,fc,tm)->init(U); auto lo=local_octs(*am,D); for(size_t o=0;o<lo.size();o++){ if(!idx.count(lo[o])){ err(e,"unexpected octant"); continue; } for(int k=0;k<5;k++){ auto A=U.getAccessor({{cons_names()[k],(VarIndex)0}}); for(int l=0;l<nc;l++) q[idx[lo[o]]*nc+l][k]=A.at(Rank::ci(B.b,o,l),(VarIndex)0); } }
          if(!rank){ back[0]=cm.getValue<real_t>("cosmology","astart",-1); back[1]=cm.getValue<real_t>("cosmology","omegam",-1); back[2]=cm.getValue<real_t>("cosmology","omegav",-1); back[3]=cm.getValue<real_t>("amr","mass_refine",-1); back[4]=cm.getValue<real_t>("amr","mass_coarsen",-1); } });
        c.trace(); c.transition(); c.evaluation(q.size()); c.state(mc::Hash().str(c.desc()).h); if(c.traces%37==1) c.sample(c.desc());
        if(cut){ if(r.ok) err(e,"a truncated file is accepted"); else if(r.kind!="exception") err(e,mc::cat("a truncated file ends the run by ",r.kind,": ",r.error)); }
        else { if(!r.ok) err(e,mc::cat(r.kind,": ",r.error)); else { double w[5]={H[4],H[5],H[6],1./((double)N[0]*N[1]*N[2]),.1/((double)N[0]*N[1]*N[2])}; for(int k=0;k<5;k++) if(!(fabs(back[k]-w[k])<=1e-6*w[k])) err(e,mc::cat("configuration value ",k," is ",back[k],", expected ",w[k]));
          // supercomoving units; physical constants to 1e-3
          const double pc=3.0856776e16,kB=1.380649e-23,mp=1.672622e-27,GN=6.674e-11,Y=.24; double h0=H[7]*1e3/(1e6*pc),Om=H[5],Ob=.04,a=H[4],rhoc=3*h0*h0/(8*PI*GN),L=N[0]*(double)H[0]*1e6*pc,vs=L*h0*std::sqrt(Om)/2,T0=317.5*std::pow((1/a-1)/151,2); 
          double nu=Ob*rhoc/(a*a*a)*(1-Y)/mp*(1+Y/(1-Y)/4.002), p1=(G-1)*1.5*nu*kB*T0/(rhoc*Om*vs*vs)*std::pow(a,5); double pr=-1;
          for(size_t g=0;g<q.size()&&e.empty();g++){ Cell ce=cell_of(B.b,m0.leaves[g/nc],g%nc); int I[3]; for(int d=0;d<3;d++) I[d]=(int)(ce.o.c(d)*B.b[d]+ce.c(d)); double de=1+(double)value(0,I[0],I[1],I[2]); Q9 x=q[g]; double rho=x[0]; std::string at=mc::cat("cell ",str(ce),": "); if(!(fabs(rho-de*Ob/Om)<=1e-11)) err(e,mc::cat(at,"density ",rho,", expected ",de*Ob/Om)); double ek=0; for(int d=0;d<3;d++){ double v=x[2+d]/rho,w=(double)value(1+d,I[0],I[1],I[2])*1e3*a/vs; ek+=v*v; if(!(fabs(v-w)<=1e-3*fabs(w))) err(e,mc::cat(at,"velocity ",v," along ",d,", expected ",w)); } double pp=(x[1]-.5*rho*ek)*(G-1); double floor=1e-20/G; if(!(fabs(pp-std::max(p1*de,floor))<=2e-3*p1*de+1e-11*x[1])) err(e,mc::cat(at,"pressure ",pp,", expected ",p1*de)); (void)pr; } } }
        if(!e.empty()) c.violation(mc::cat("initial:grafic",key(D,n)),e); }
      return; }
  }); }
