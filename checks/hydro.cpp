// Hydro / MHD solvers: conservation, preservation of uniform states, symmetry, Riemann problems, independence of the partition.
#include "hyd.h"
#include "RiemannSolvers.h"
#include <cstring>
using namespace dy;
static const double G=1.4;
static std::vector<Scheme> schemes(const std::string& mode){
  std::vector<Scheme> v{{"HydroUpdate_euler",5,""},{"HydroUpdate_legacy",5,"",false,true},{"HydroUpdate_RK2",5,""},{"HydroUpdate_hancock_oneneighbor",5,"",true},{"HydroUpdate_hancock",5,"",false,true},
    {"MHDUpdate_euler",8,""},{"MHDUpdate_RK2",8,""},{"MHDUpdate_hancock",8,"",false,true},{"MHDUpdate_hancock_oneneighbor",8,"",true},
    {"GLMMHDUpdate_euler",9,"hlld"},{"GLMMHDUpdate_RK2",9,"hlld"},{"GLMMHDUpdate_euler",9,"five_waves"},{"GLMMHDUpdate_RK2",9,"five_waves"}};
  if(mode!="riemann" && mode!="conserve"){ std::vector<Scheme> w; for(auto& x : v) if(x.nf==5 || (x.nf==8 && x.id.find("RK2")==std::string::npos)) for(int g=1;g<4;g++){ Scheme y=x; y.grav=g; y.g={.3,-.7,.2}; if(mode=="uniform") continue; if(!(mode=="partition" && (g<3 || x.nf>5))) w.push_back(y); if(g==1 && x.nf==5 && !x.one && !x.hancock){ y.wb=true; w.push_back(y); } } v.insert(v.end(),w.begin(),w.end()); }
  return v; }
static double u01(const Oct& o,uint32_t l,int f,int s){ uint64_t h=mc::Hash().add(o.l).add(o.x).add(o.y).add(o.z).add(l).add(f).add(s).h; h^=h>>31; h*=0x9E3779B97F4A7C15ull; h^=h>>29; return (double)((h>>13)&((1ull<<40)-1))/(double)(1ull<<40); }
/// cell data: `pat` 0 smooth-ish (10% contrasts), 1 strong contrasts; -1-k: leaf i in state A or B according to bit i of k, plus 5% variation
static Field data(const Box& B,const Mesh& m,const Scheme& s,int pat){ Field F; int nc=ncell(B.b);
  for(size_t i=0;i<m.size();i++) for(int l=0;l<nc;l++){ auto r=[&](int f){ return 2*u01(m.leaves[i],l,f,pat>=0?pat:7)-1; }; Prim q;
    if(pat==0){ q.r=1+.1*r(0); q.p=1+.1*r(1); q.u=.3+.1*r(2); q.v=-.2+.1*r(3); q.w=.1+.1*r(4); q.bx=.5+.05*r(5); q.by=-.3+.05*r(6); q.bz=.2+.05*r(7); q.psi=.01*r(8); }
    else if(pat==1){ q.r=pow(5,r(0)); q.p=pow(8,r(1)); q.u=1.5*r(2); q.v=1.5*r(3); q.w=1.5*r(4); q.bx=.6*r(5); q.by=.6*r(6); q.bz=.6*r(7); q.psi=.1*r(8); }
    else { bool b=((-1-pat)>>i)&1; q.r=(b?4:.5)*(1+.05*r(0)); q.p=(b?.5:3)*(1+.05*r(1)); q.u=(b?1.2:-.8)+.05*r(2); q.v=(b?-.4:.9)+.05*r(3); q.w=(b?.7:-.3)+.05*r(4); q.bx=(b?.4:-.2)+.02*r(5); q.by=(b?.1:.3)+.02*r(6); q.bz=(b?-.5:.2)+.02*r(7); q.psi=.02*r(8); }
    if(B.D.dim==2) q.w=0; if(!s.mhd()) q.bx=q.by=q.bz=0; if(!s.glm()) q.psi=0; F.push_back(cons(q,G)); }
  return F; }
static double safe_dt(const Box& B,const Mesh& m,const Field& F,double cfl){ double mx=0; int nc=ncell(B.b); for(size_t i=0;i<F.size();i++){ Prim q=prim(F[i],G); double c=sqrt((G*q.p+q.bx*q.bx+q.by*q.by+q.bz*q.bz)/q.r); double u[3]={q.u,q.v,q.w}; for(int d=0;d<B.D.dim;d++) mx=std::max(mx,(fabs(u[d])+c)/B.dx(d,m.leaves[i/nc].l)); } return cfl/mx; }
static bool bad(const Field& F,std::string& why){ for(size_t i=0;i<F.size();i++) for(int f=0;f<9;f++) if(!std::isfinite(F[i][f])){ why=mc::cat("cell ",i," field ",cons_names()[f]," is ",F[i][f]); return true; } return false; }
static bool positive(const Field& F){ for(auto& q : F){ Prim p=prim(q,G); if(!(p.r>1e-3) || !(p.p>1e-3)) return false; } return true; }
static std::string show(const Q9& q,int n){ std::string s="("; for(int f=0;f<n;f++) s+=mc::cat(f?", ":"",cons_names()[f],"=",q[f]); return s+")"; }

/// a symmetry of the grid: new axis d is old axis perm[d], reversed if flip[d]
struct Sym { std::array<int,3> perm{0,1,2}; std::array<bool,3> flip{0,0,0}; const char* name="";
  Box box(const Box& B) const { Box r=B; for(int d=0;d<3;d++){ int o=perm[d]; r.D.coarse[d]=B.D.coarse[o]; r.D.per[d]=B.D.per[o]; r.b[d]=B.b[o]; r.len[d]=B.len[o]; r.lo[d]=B.lo[o]; for(int k=0;k<2;k++) r.bc[2*d+k]=B.bc[2*o+(flip[d]?1-k:k)]; } return r; }
  Oct oct(const Box& B,const Oct& o) const { uint32_t c[3]; for(int d=0;d<3;d++){ c[d]=o.c(perm[d]); if(flip[d]) c[d]=B.D.count(perm[d],o.l)-1-c[d]; } return Oct{o.l,c[0],c[1],c[2]}; }
  Cell cell(const Box& B,const Cell& q) const { Cell r; r.o=oct(B,q.o); uint32_t c[3]; for(int d=0;d<3;d++){ c[d]=q.c(perm[d]); if(flip[d]) c[d]=B.b[perm[d]]-1-c[d]; } r.i=c[0]; r.j=c[1]; r.k=c[2]; return r; }
  Q9 q(const Q9& a) const { Q9 r=a; for(int d=0;d<3;d++){ double s=flip[d]?-1:1; r[2+d]=s*a[2+perm[d]]; r[5+d]=s*a[5+perm[d]]; } return r; }
  History hist(const Box& B,const History& h) const { History r; Mesh m=Mesh::initial(B.D), n=Mesh::initial(box(B).D); for(auto& op : h){ Op o=op; if(op.k==Op::ADAPT){ std::map<Oct,int> by; for(size_t i=0;i<m.size();i++) by[oct(B,m.leaves[i])]=op.markers[i]; for(size_t i=0;i<n.size();i++) o.markers[i]=by.at(n.leaves[i]); m=m.adapt(op.markers); n=n.adapt(o.markers); } r.push_back(o); } return r; } };

/// textbook HLLC / HLLD fluxes along x, through the jump conditions
static Q9 phys(const Prim& q){ Q9 c=cons(q,G); double B2=q.bx*q.bx+q.by*q.by+q.bz*q.bz, pt=q.p+.5*B2, vb=q.u*q.bx+q.v*q.by+q.w*q.bz; return Q9{q.r*q.u,(c[1]+pt)*q.u-q.bx*vb,q.r*q.u*q.u+pt-q.bx*q.bx,q.r*q.u*q.v-q.bx*q.by,q.r*q.u*q.w-q.bx*q.bz,0,q.by*q.u-q.bx*q.v,q.bz*q.u-q.bx*q.w,0}; }
static Q9 axpy(const Q9& a,double s,const Q9& x){ Q9 r; for(int f=0;f<9;f++) r[f]=a[f]+s*x[f]; return r; }
static Q9 hllx(const Prim& L,const Prim& R){ // HLLD; equals HLLC for B=0
  double bx=L.bx; auto cf=[&](const Prim& q){ double a=G*q.p, B2=bx*bx+q.by*q.by+q.bz*q.bz; return sqrt(.5*(a+B2+sqrt(std::max(0.,(a+B2)*(a+B2)-4*a*bx*bx)))/q.r); };
  double c=std::max(cf(L),cf(R)), SL=std::min(L.u,R.u)-c, SR=std::max(L.u,R.u)+c; auto pt=[&](const Prim& q){ return q.p+.5*(bx*bx+q.by*q.by+q.bz*q.bz); };
  Q9 UL=cons(L,G), UR=cons(R,G), FL=phys(L), FR=phys(R); if(SL>0) return FL; if(SR<=0) return FR;
  double dL=(SL-L.u)*L.r, dR=(SR-R.u)*R.r, SM=(dR*R.u-dL*L.u-pt(R)+pt(L))/(dR-dL), PS=(dR*pt(L)-dL*pt(R)+dL*dR*(R.u-L.u))/(dR-dL);
  auto star=[&](const Prim& q,double S,const Q9& U,double& vs,double& ws,double& bys,double& bzs){ double d=q.r*(S-q.u)*(S-SM)-bx*bx; Q9 r{}; r[0]=q.r*(S-q.u)/(S-SM); if(fabs(d)<1e-5*bx*bx){ vs=q.v; ws=q.w; bys=q.by; bzs=q.bz; } else { double a=bx*(SM-q.u)/d, k=(q.r*(S-q.u)*(S-q.u)-bx*bx)/d; vs=q.v-q.by*a; ws=q.w-q.bz*a; bys=q.by*k; bzs=q.bz*k; }
    double vb=q.u*bx+q.v*q.by+q.w*q.bz, vbs=SM*bx+vs*bys+ws*bzs; r[1]=((S-q.u)*U[1]-pt(q)*q.u+PS*SM+bx*(vb-vbs))/(S-SM); r[2]=r[0]*SM; r[3]=r[0]*vs; r[4]=r[0]*ws; r[5]=bx; r[6]=bys; r[7]=bzs; return r; };
  double vl,wl,byl,bzl,vr,wr,byr,bzr; Q9 sL=star(L,SL,UL,vl,wl,byl,bzl), sR=star(R,SR,UR,vr,wr,byr,bzr);
  Q9 fL=axpy(axpy(FL,SL,sL),-SL,UL), fR=axpy(axpy(FR,SR,sR),-SR,UR);
  double rl=sqrt(sL[0]), rr=sqrt(sR[0]), SLs=SM-fabs(bx)/rl, SRs=SM+fabs(bx)/rr; if(SLs>0) return fL; if(SRs<=0) return fR;
  double sg=bx<0?-1:1, den=rl+rr, vs=(rl*vl+rr*vr+(byr-byl)*sg)/den, ws=(rl*wl+rr*wr+(bzr-bzl)*sg)/den, by=(rl*byr+rr*byl+rl*rr*(vr-vl)*sg)/den, bz=(rl*bzr+rr*bzl+rl*rr*(wr-wl)*sg)/den;
  auto ss=[&](const Q9& s,double v0,double w0,double b0,double c0,double sq,double sign){ Q9 r=s; r[3]=s[0]*vs; r[4]=s[0]*ws; r[6]=by; r[7]=bz; r[1]=s[1]+sign*sq*((SM*bx+v0*b0+w0*c0)-(SM*bx+vs*by+ws*bz))*sg; return r; };
  if(SM>0){ Q9 q=ss(sL,vl,wl,byl,bzl,rl,-1); return axpy(axpy(fL,SLs,q),-SLs,sL); } Q9 q=ss(sR,vr,wr,byr,bzr,rr,1); return axpy(axpy(fR,SRs,q),-SRs,sR); }

/// one step of the documented schemes on a uniform periodic mesh: minmod slopes of the primitive variables, (Hancock) half-step
/// evolution with the primitive equations, one Riemann problem per face; hydro fluxes from hllx(), MHD fluxes from the solver itself (H04 decides it)
struct P8 { double v[9]; double& operator[](int i){ return v[i]; } double operator[](int i) const { return v[i]; } }; // r p u v w bx by bz psi
static P8 p8(const Prim& q){ return P8{{q.r,q.p,q.u,q.v,q.w,q.bx,q.by,q.bz,q.psi}}; }
static Prim unp8(const P8& a){ Prim q; q.r=a[0];q.p=a[1];q.u=a[2];q.v=a[3];q.w=a[4];q.bx=a[5];q.by=a[6];q.bz=a[7]; return q; }
static Q9 face_flux(P8 L,P8 R,int d,bool mhd,bool glm,double dt,const RiemannParams& rp){ auto sw=[&](P8& a){ std::swap(a[2],a[2+d]); std::swap(a[5],a[5+d]); }; sw(L); sw(R); Q9 f{};
  if(glm){ PrimGLMMHDState l{},r{}; auto put=[](PrimGLMMHDState& s,const P8& a){ s.rho=a[0]; s.p=a[1]; s.u=a[2]; s.v=a[3]; s.w=a[4]; s.Bx=a[5]; s.By=a[6]; s.Bz=a[7]; s.psi=a[8]; }; put(l,L); put(r,R); real_t po; auto F=riemann_hydro(l,r,rp,po,dt); f=Q9{F.rho,F.e_tot,F.rho_u,F.rho_v,F.rho_w,F.Bx,F.By,F.Bz,F.psi}; } else if(!mhd) f=hllx(unp8(L),unp8(R)); else { PrimMHDState l{},r{}; auto put=[](PrimMHDState& s,const P8& a){ s.rho=a[0]; s.p=a[1]; s.u=a[2]; s.v=a[3]; s.w=a[4]; s.Bx=a[5]; s.By=a[6]; s.Bz=a[7]; }; put(l,L); put(r,R); auto F=riemann_hydro(l,r,rp); f=Q9{F.rho,F.e_tot,F.rho_u,F.rho_v,F.rho_w,F.Bx,F.By,F.Bz,0}; }
  std::swap(f[2],f[2+d]); std::swap(f[5],f[5+d]); return f; }
static Field scheme_step(const Box& B,const Mesh& m,const Field& in,double dt,bool hancock,bool mhd,bool glm,const RiemannParams& rp){ int lv=m.leaves[0].l, dim=B.D.dim, nc=ncell(B.b); std::array<int,3> N{1,1,1}; for(int d=0;d<dim;d++) N[d]=B.D.count(d,lv)*B.b[d];
  std::vector<int> at(N[0]*N[1]*N[2]); auto id=[&](std::array<int,3> c){ return c[0]+N[0]*(c[1]+N[1]*c[2]); }; std::vector<P8> q(at.size());
  for(size_t i=0;i<in.size();i++){ Cell c=cell_of(B.b,m.leaves[i/nc],i%nc); std::array<int,3> x{0,0,0}; for(int d=0;d<dim;d++) x[d]=c.o.c(d)*B.b[d]+c.c(d); at[id(x)]=i; q[id(x)]=p8(prim(in[i],G)); }
  auto each=[&](auto f){ for(int k=0;k<N[2];k++) for(int j=0;j<N[1];j++) for(int i=0;i<N[0];i++) f(std::array<int,3>{i,j,k}); }; auto sh=[&](std::array<int,3> c,int d,int s){ c[d]=(c[d]+s+N[d])%N[d]; return c; };
  std::vector<P8> sl[3], h=q; for(int d=0;d<dim;d++){ sl[d].resize(q.size()); each([&](std::array<int,3> c){ const P8& l=q[id(sh(c,d,-1))]; const P8& m0=q[id(c)]; const P8& r=q[id(sh(c,d,1))]; for(int f=0;f<9;f++){ double a=m0[f]-l[f], b=r[f]-m0[f]; sl[d][id(c)][f]= a*b<=0?0:fabs(a)<fabs(b)?a:b; } }); }
  if(hancock) each([&](std::array<int,3> c){ int i=id(c); const P8& w=q[i]; P8 r{}; for(int d=0;d<dim;d++){ const P8& s=sl[d][i]; double un=w[2+d], bn=w[5+d], sd=s[2+d]; r[0]-=un*s[0]*1+w[0]*sd; double dx=B.dx(d,lv); P8 t{}; t[0]=-(un*s[0]+w[0]*sd); t[1]=-(un*s[1]+G*w[1]*sd); for(int e=0;e<3;e++){ t[2+e]=-un*s[2+e]+bn*s[5+e]/w[0]; t[5+e]= -un*s[5+e]-w[5+e]*sd+bn*s[2+e]+w[2+e]*s[5+d]; }
      t[2+d]-=(s[1]+w[5]*s[5]+w[6]*s[6]+w[7]*s[7])/w[0]; if(dim==2) t[4]=0; for(int f=0;f<8;f++) h[i][f]+=.5*dt/dx*t[f]; } });
  Field out=in; for(int d=0;d<dim;d++) each([&](std::array<int,3> c){ int i=id(c), j=id(sh(c,d,1)); P8 L=h[i], R=h[j]; for(int f=0;f<9;f++){ L[f]+=.5*sl[d][i][f]; R[f]-=.5*sl[d][j][f]; } Q9 F=face_flux(L,R,d,mhd,glm,dt,rp); double k=dt/B.dx(d,lv); out[at[i]]=axpy(out[at[i]],-k,F); out[at[j]]=axpy(out[at[j]],k,F); });
  if(dim==2) for(auto& u : out) u[4]=0; /* no vertical momentum in 2D */ if(glm){ double ch=rp.ch/dt; for(auto& u : out) u[8]*=exp(-.5*dt*ch/rp.cr); } return out; }

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); bool T=c.thorough; auto S=schemes(mode);
    struct TC{ Box B; int maxref; std::vector<int> ranks; int one=0; }; std::vector<TC> tc;
    auto add=[&](Domain D,Block b,std::array<double,3> len,const std::string& w,int k,std::vector<int> r){ Box B; B.D=D; B.b=b; B.len=len; B.lo={-.25,.5,0}; B.walls(w); tc.push_back({B,k,r}); };
    std::vector<int> R= mode=="partition"? (T?std::vector<int>{2,3,4,5}:std::vector<int>{2,3}) : std::vector<int>{1}; if(mode=="conserve") R=T?std::vector<int>{1,2,3}:std::vector<int>{1,3};
    if(mode=="heun") R={1,2};
    std::string w= mode=="uniform"||mode=="contact"?"absorbing":"reflecting";
    for(int one=0;one<2;one++){ // the one-neighbour solver supports any block size, the others need two ghost layers per half block
    auto blk=[&](Block x,Block y){ return one?y:x; };
    add(dom(2,1,3,{2,2,1},{1,1,0}),blk({4,4,1},{1,1,1}),{1,1,1},w,T?5:3,R); tc.back().one=one;
    add(dom(2,2,4,{3,1,1},{0,0,0}),blk({4,6,1},{2,3,1}),{1,.75,1},w,T?5:3,R); tc.back().one=one;
    add(dom(2,2,3,{3,2,1},{1,0,0}),blk({6,4,1},{2,2,1}),{1,1,1},w,T?4:2,R); tc.back().one=one;
    add(dom(3,1,3,{2,2,1},{1,1,1}),blk({4,4,4},{2,2,2}),{1,1,.5},w,T?2:1,R); tc.back().one=one;
    add(dom(3,1,2,{2,1,2},{0,1,0}),blk({4,4,4},{1,2,1}),{1,.5,1.5},w,T?2:1,R); tc.back().one=one; }
    if(mode=="scheme"){ for(auto& t : tc){ t.B.D.per={true,true,t.B.D.dim==3}; t.B.walls("reflecting"); t.maxref=0; } std::vector<TC> x; if(T) for(auto t : tc){ t.B.D.lmin++; for(auto& n : t.B.D.coarse) n*=2; if(t.B.D.dim==2) t.B.D.coarse[2]=1; else continue; x.push_back(t); } tc.insert(tc.end(),x.begin(),x.end()); }
    if(mode=="symmetry"||mode=="partition") for(auto& t : tc) for(int d=0;d<3;d++) if(!t.B.D.per[d]) t.B.bc[2*d+(d&1)]="absorbing";
    if(mode=="uniform"){ for(auto t : std::vector<TC>(tc)) { TC u=t; u.B.walls("reflecting"); if(!(t.B.D.per[0]&&t.B.D.per[1])) tc.push_back(u); } }
    if(mode=="walls"){
      // a wall is equivalent to the mirror image of the domain (momentum reversed for a reflecting wall, copied for an absorbing one)
      struct W{ Domain D; Block b; int k; }; std::vector<W> ws; for(int p=0;p<2;p++){ ws.push_back({dom(2,2,4,{2,3,1},{p==1,0,0}),{4,4,1},T?4:2}); ws.push_back({dom(2,1,2,{2,1,1},{0,p==1,0}),{4,6,1},T?3:1}); if(p==0||T) ws.push_back({dom(3,1,2,{2,1,1},{0,p==1,p==0}),{4,4,4},T?1:1}); }
      for(auto& w : ws) for(auto& s : S){ if(s.grav) continue; int nw=1; for(int d=0;d<w.D.dim;d++) if(!w.D.per[d]) nw*=4;
        for(int bcs=0;bcs<nw;bcs++){ Box B; B.D=w.D; B.b=w.b; B.len={1,.75,.5}; B.walls("reflecting"); int q=bcs; bool absorb=false; for(int d=0;d<w.D.dim;d++) if(!w.D.per[d]) for(int k=0;k<2;k++){ if(q&1){ B.bc[2*d+k]="absorbing"; absorb=true; } q>>=1; }
          if((absorb||s.mhd()) && s.id.find("RK2")!=std::string::npos) continue; // the second stage sees the updated boundary values
          ref::all_trees(w.D,w.k,[&](const Mesh& m,const History& h){ bool uni=true; for(auto& o : m.leaves) if(o.l!=m.leaves[0].l) uni=false;
            for(int d=0;d<w.D.dim;d++) for(int k=0;k<2;k++){ if(w.D.per[d]) continue; 
              if(c.skip()) continue; if(!c.begin(mc::cat("walls ",s.str()," ",str(B)," | ",ref::str(h)," | side ",d,k?"max":"min"))) continue;
              c.trace(); c.transition(2); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
              Box B2=B; B2.D.coarse[d]*=2; int up=0; while((1u<<(B.D.lmin+up))<std::max({B2.D.coarse[0],B2.D.coarse[1],w.D.dim==3?B2.D.coarse[2]:1u})) up++; B2.D.lmin+=up; B2.D.lmax+=up; B2.len[d]*=2; if(!k) B2.lo[d]-=B.len[d]; B2.bc[2*d]=B2.bc[2*d+1]=B.bc[2*d+1-k];
              auto img=[&](const Oct& o,bool mirror){ uint32_t n=B.D.count(d,o.l), x[3]={o.x,o.y,o.z}; if(mirror){ x[d]=n-1-x[d]; if(k) x[d]+=n; } else if(!k) x[d]+=n; return Oct{o.l+up,x[0],x[1],x[2]}; };
              History H2; Mesh a=Mesh::initial(B.D), b=Mesh::initial(B2.D); for(auto& op : h){ Op o=op; o.markers.assign(b.size(),0); std::map<Oct,int> by; for(size_t i=0;i<a.size();i++) for(int t=0;t<2;t++) by[img(a.leaves[i],t)]=op.markers[i]; for(size_t i=0;i<b.size();i++) o.markers[i]=by.at(b.leaves[i]); a=a.adapt(op.markers); b=b.adapt(o.markers); H2.push_back(o); }
              int nc=ncell(B.b); Field in=data(B,a,s,0); if(s.one) for(auto& x : in) x=in[0]; Field in2(b.size()*nc); std::map<Oct,int> idx; for(size_t i=0;i<b.size();i++) idx[b.leaves[i]]=i; std::vector<int> to(in.size());
              if(b.size()!=2*a.size()){ c.count("mirrored mesh differs"); continue; }
              for(size_t i=0;i<in.size();i++) for(int t=0;t<2;t++){ Cell q=cell_of(B.b,a.leaves[i/nc],i%nc); uint32_t x[3]={q.i,q.j,q.k}; if(t) x[d]=B.b[d]-1-x[d]; int j=idx.at(img(q.o,t))*nc+lin(B.b,x[0],x[1],x[2]); in2[j]=in[i]; if(t){ if(B.bc[2*d+k]=="reflecting") in2[j][2+d]=-in2[j][2+d]; } else to[i]=j; }
              double dt=safe_dt(B,a,in,.08); std::string cf="[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.2\n"; auto mind=[&](const Box& X){ double r=1e9; for(int e=0;e<X.D.dim;e++) r=std::min(r,X.len[e]/((1<<X.D.lmax)*X.b[e])); return r; }; std::string cf2=mc::cat("[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=",.2*mind(B)/mind(B2),"\n"); auto o1=hydro_step(B,h,1,s,in,dt,cf), o2=hydro_step(B2,H2,1,s,in2,dt,cf2); if(!o1.r.ok||!o2.r.ok){ c.violation("error:"+s.str(),o1.r.ok?o2.r.error:o1.r.error); continue; }
              for(size_t i=0;i<in.size();i++){ bool stop=false; for(int f=0;f<s.nf;f++) if(!(fabs(o1.out[i][f]-o2.out[to[i]][f])<=1e-11*(1+fabs(in[i][1])))){ Cell q=cell_of(B.b,a.leaves[i/nc],i%nc); c.violation(mc::cat("wall ",B.bc[2*d+k].substr(0,3),":",s.str(),":",w.D.dim,"D axis ",d,k?"max":"min"),mc::cat("cell ",str(q),": ",cons_names()[f]," after the step is ",o1.out[i][f],", with the mirror image of the domain behind the ",B.bc[2*d+k]," wall it is ",o2.out[to[i]][f])); stop=true; break; } if(stop) break; }
            } }); } }
      return; }
    if(mode=="gravity"){
      std::string cf="[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.2\n";
      for(auto& t : tc) for(auto& s : S){ if(!s.grav || (t.one && !s.one)) continue; Box B=t.B; bool rk=s.id.find("RK2")!=std::string::npos, eul=!s.one&&!s.hancock;
        ref::all_trees(B.D,t.maxref,[&](const Mesh& m,const History& h){ bool uni=true; for(auto& o : m.leaves) if(o.l!=m.leaves[0].l) uni=false; if(s.hancock && !uni) return;
          for(int pat : {0,1}){ if(c.skip()) continue; if(!c.begin(mc::cat("gravity ",s.str()," ",str(B)," | ",ref::str(h)," | data ",pat))) continue;
            c.trace(); c.transition(2); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
            int nc=ncell(B.b); Field in=data(B,m,s,pat); double dt=safe_dt(B,m,in,.08); auto o=hydro_step(B,h,1,s,in,dt,cf); std::string why; if(!o.r.ok){ c.violation("error:"+s.str(),o.r.error); continue; } if(bad(o.out,why)){ c.violation("nan:"+s.str(),why); continue; } if(!positive(o.out)){ c.count("skipped: not positive"); continue; }
            if(s.id=="HydroUpdate_legacy"){ bool open=true; for(int d=0;d<B.D.dim;d++) if(!B.D.per[d]) open=false; if(!open) continue; // scalar, constant field and field holding the same constant are the same problem; momentum budget along periodic axes
              if(s.grav==1) for(int k=2;k<4;k++){ Scheme f=s; f.grav=2; auto z=hydro_step(B,h,1,f,in,dt,k==2?cf:cf+"[gravity]\ngravity_type=field\n"); if(!z.r.ok){ c.violation("error:"+s.str(),z.r.error); break; } bool stop=false; for(size_t i=0;i<in.size()&&!stop;i++) for(int q=0;q<5;q++) if(!(fabs(z.out[i][q]-o.out[i][q])<=1e-12*(1+fabs(in[i][1])))){ c.violation(mc::cat("gravity types:",s.str(),":",cons_names()[q]),mc::cat("cell ",str(cell_of(B.b,m.leaves[i/nc],i%nc)),": ",cons_names()[q]," with constant gravity is ",o.out[i][q],", with a ",k==2?"constant_field":"field"," of the same value ",z.out[i][q])); stop=true; break; } }
              if(uni) for(int d=0;d<B.D.dim;d++) if(B.D.per[d]){ double dp=0,src=0,mag=0; for(size_t i=0;i<in.size();i++){ double V=B.vol(m.leaves[i/nc].l), g=s.g[d]*(s.grav==3?1+in[i][0]:1); dp+=V*(o.out[i][2+d]-in[i][2+d]); src+=V*.5*dt*g*(in[i][0]+o.out[i][0]); mag+=V*(fabs(in[i][2+d])+fabs(dt*g*in[i][0])); } if(!(fabs(dp-src)<=1e-12*mag)) c.violation(mc::cat("momentum budget:",s.str()),mc::cat("momentum along ",d," changes by ",dp,", the weight of the gas gives ",src)); }
              continue; }
            Field e; bool energy=true; 
            if(rk){ Scheme se=s; se.id.replace(se.id.find("RK2"),3,"euler"); 
              if(s.grav==3) { continue; } // the field is given by the initial density, see hydro_step
              auto a=hydro_step(B,h,1,se,in,dt,cf); auto b=hydro_step(B,h,1,se,a.out,dt,cf); e=in; for(size_t i=0;i<e.size();i++) for(int f=0;f<9;f++) e[i][f]=.5*(in[i][f]+b.out[i][f]); }
            else if(!s.wb){ Scheme s0=s; s0.grav=0; auto a=hydro_step(B,h,1,s0,in,dt,cf); e=a.out; for(size_t i=0;i<e.size();i++){ double g[3]; for(int d=0;d<3;d++) g[d]=d<B.D.dim?s.g[d]*(s.grav==3?1+in[i][0]:1):0; auto ek=[&]{ return .5*(e[i][2]*e[i][2]+e[i][3]*e[i][3]+e[i][4]*e[i][4])/e[i][0]; }; double k0=ek(); for(int d=0;d<B.D.dim;d++) e[i][2+d]+= eul&&s.grav==1 ? dt*in[i][0]*g[d] : .5*dt*g[d]*(in[i][0]+e[i][0]); if(eul&&s.grav==1) energy=false; else e[i][1]+=ek()-k0; } }
            for(size_t i=0;i<e.size();i++){ bool stop=false; for(int f=0;f<s.nf;f++){ if(f==1&&!energy) continue; if(!(fabs(o.out[i][f]-e[i][f])<=1e-11*(1+fabs(in[i][1])))){ c.violation(mc::cat("gravity:",s.str(),":",cons_names()[f]),mc::cat("cell ",str(cell_of(B.b,m.leaves[i/nc],i%nc)),": ",cons_names()[f]," with gravity is ",o.out[i][f],", expected ",e[i][f])); stop=true; break; } } if(stop) break; }
            bool walls=true; for(int d=0;d<B.D.dim;d++) if(B.D.per[d]) walls=false;
            if(s.grav==1 && eul && walls && uni && !s.mhd()){ // gas energy + potential energy of the closed box
              double a=0,b=0,mag=0; for(size_t i=0;i<in.size();i++){ Cell q=cell_of(B.b,m.leaves[i/nc],i%nc); double V=B.vol(q.o.l), phi=0; for(int d=0;d<B.D.dim;d++) phi-=s.g[d]*((q.o.c(d)*B.b[d]+q.c(d)+.5)*B.dx(d,q.o.l)); a+=V*(in[i][1]+in[i][0]*phi); b+=V*(o.out[i][1]+o.out[i][0]*phi); mag+=V*(fabs(in[i][1])+in[i][0]*fabs(phi)); }
              if(!rk && fabs(a-b)>1e-12*mag) c.violation("energy budget:"+s.str(),mc::cat("gas + potential energy of the closed box ",a," -> ",b)); }
            // hydrostatic equilibrium of the well-balanced scheme
            if(s.wb && uni && walls && pat==0) for(int d=0;d<B.D.dim;d++) for(double gg : {-.5,.8}){ Scheme w=s; w.g={0,0,0}; w.g[d]=gg; int N=B.D.count(d,m.leaves[0].l)*B.b[d]; double dx=B.dx(d,m.leaves[0].l); std::vector<double> r(N),p(N); for(int i=0;i<N;i++) r[i]=1+.5*u01(Oct{0,(uint32_t)i,0,0},d,0,3); p[0]=5; for(int i=1;i<N;i++) p[i]=p[i-1]+.5*(r[i]+r[i-1])*gg*dx;
              Field q(in.size()); for(size_t i=0;i<q.size();i++){ Cell x=cell_of(B.b,m.leaves[i/nc],i%nc); int j=x.o.c(d)*B.b[d]+x.c(d); Prim z; z.r=r[j]; z.p=p[j]; q[i]=cons(z,G); } auto z=hydro_step(B,h,1,w,q,dt,cf); if(!z.r.ok){ c.violation("error:"+s.str(),z.r.error); break; }
              for(size_t i=0;i<q.size();i++){ bool stop=false; for(int f=0;f<5;f++) if(!(fabs(z.out[i][f]-q[i][f])<=1e-11*(1+q[i][1]))){ c.violation("hydrostatic:"+s.str(),mc::cat("equilibrium along axis ",d,", g=",gg,": cell ",str(cell_of(B.b,m.leaves[i/nc],i%nc))," ",cons_names()[f]," ",q[i][f]," -> ",z.out[i][f])); stop=true; break; } if(stop) break; } }
          } }); }
      return; }
    if(mode=="riemann"){
      // every ordered pair of states of an alphabet, along every axis; first order because both sides are flat
      for(auto& s : S){ if(s.id.find("RK2")!=std::string::npos || s.riemann=="five_waves" || (s.mhd()&&!s.glm())) continue;
        std::vector<Prim> A; for(double r : {1.,.125,6.}) for(double p : {1.,.1,20.}) for(double u : T?std::vector<double>{-6,-2,-.5,0,.7,3,8}:std::vector<double>{-6,-.5,0,.7,8}) for(int k=0;k<2;k++){ Prim q; q.r=r; q.p=p; q.u=u; if(k){ q.v=.5; q.w=-.25; } if(s.mhd()){ q.bx=.7; q.by=k?.4:-.3; q.bz=k?-.6:.2; } A.push_back(q); }
        int nA=A.size();
        for(int dim=2;dim<=3;dim++) for(int ax=0;ax<dim;ax++) for(int sg=0;sg<(s.mhd()?2:1);sg++) for(int a=0;a<nA;a+=T?1:1){
          // row of octants along axis ax: A[a] A[0] A[a] A[1] ... gives the ordered pairs (a,x) and (x,a) for all x
          if(c.skip()) continue; if(!c.begin(mc::cat("riemann ",s.str()," ",dim,"D axis ",ax,s.mhd()?(sg?" Bx<0":" Bx>0"):""," state ",a))) continue;
          int lv=8; int N=2*nA; Domain D=dom(dim,lv,lv,{1,1,1},{1,1,1}); D.coarse[ax]=N; Box B; B.D=D; B.b= Block{2,2,dim==3?2u:1u}; B.b[ax]=4; B.len={1,1,1}; B.len[ax]=N; B.walls("x"); Mesh m=Mesh::initial(D); int nc=ncell(B.b);
          Sym toax; if(ax==1) toax.perm={1,0,2}; if(ax==2) toax.perm={2,1,0};
          auto st=[&](int o){ Prim q= o%2? A[o/2] : A[a]; if(dim==2){ q.w=0; q.bz=0; } if(sg){ q.bx=-q.bx; } return q; };
          Field in(m.size()*nc); for(size_t i=0;i<m.size();i++) for(int l=0;l<nc;l++) in[i*nc+l]=toax.q(cons(st(m.leaves[i].c(ax)),G));
          double dt=safe_dt(B,m,in,.2); auto o=hydro_step(B,{},1,s,in,dt,"[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.2\n"); c.trace(); c.evaluation(N); c.transition(N); c.state(mc::Hash().str(c.desc()).h);
          if(!o.r.ok){ c.violation("error",o.r.error); continue; } std::string why; if(bad(o.out,why)){ c.violation("nan",why); continue; }
          for(size_t i=0;i<m.size() && !c.current_failed();i++){ int x=m.leaves[i].c(ax); Prim q=st(x), ql=st((x+N-1)%N), qr=st((x+1)%N); Q9 Fl=hllx(ql,q), Fc=phys(q), Fr=hllx(q,qr); double dx=B.dx(ax,lv);
            for(int l=0;l<nc;l++){ Cell cc=cell_of(B.b,m.leaves[i],l); int p=cc.c(ax); Q9 a1= p==0?Fl:Fc, a2= p==3?Fr:Fc; Q9 e=axpy(axpy(cons(q,G),dt/dx,a1),-dt/dx,a2); e=toax.q(e); Q9 g=o.out[i*nc+l]; double sc=1+fabs(e[1]);
              for(int f=0;f<5+(s.mhd()?3:0);f++) if(fabs(g[f]-e[f])>1e-10*sc*(1+dt/dx*10)){ c.violation(mc::cat(s.str(),":",cons_names()[f]),mc::cat("cell ",p," of octant ",x," between states ",show(cons(ql,G),s.nf)," | ",show(cons(q,G),s.nf)," | ",show(cons(qr,G),s.nf),": ",cons_names()[f]," = ",g[f]," after the step, exact HLL",s.mhd()?"D":"C"," scheme gives ",e[f])); break; } } }
          if(c.traces%97==1) c.sample(c.desc()); } }
      return; }
    for(auto& t : tc) for(auto& s : S){
      bool mhd=s.mhd(); if(t.one && !s.one) continue; if(mode=="heun" && (s.grav || s.id.find("RK2")==std::string::npos)) continue;
      ref::all_trees(t.B.D,t.maxref,[&](const Mesh& m,const History& h){
        if(mode=="scheme" && s.grav) return;
        bool uni=true; for(auto& o : m.leaves) if(o.l!=m.leaves[0].l) uni=false;
        std::vector<int> pats{0,1}; if(mode=="conserve"||mode=="partition"||mode=="scheme"){ if((!mhd||mode=="scheme") && m.size()<=(mode=="scheme"?(T?12u:8u):T?7u:5u)) for(int k=1;k<(1<<m.size())-1;k++) pats.push_back(-1-k); else for(int k : {0x5a5a5a,0x333cc3}) pats.push_back(-1-k); } if(mode=="uniform") pats={0,1,2}; if(mode=="contact"){ if(s.grav) return; pats={0,1}; for(int d=0;d<t.B.D.dim;d++){ pats.push_back(10+d); pats.push_back(20+d); } }
        for(int n : t.ranks) for(auto& H : partitions(m,h,n)){ 
          if(mode=="conserve" && n>1 && &H-&H==0 && H.size()==h.size()+2) continue; // the coarsened mesh is another tree
          Mesh fm=final_mesh(t.B.D,H);
          for(int pat : pats){
            if(mode=="conserve" && s.hancock && !uni) continue;
            if(mode=="conserve" && s.one && mhd && !uni && false) continue;
            if(n>1 && mode=="conserve" && pat<-1 && pat!=pats.back()) continue;
            if(n>1 && mode=="partition" && pat<-1 && pat!=pats.back()) continue;
            std::vector<Sym> sy(1); if(mode=="symmetry"){ sy.clear(); Sym a; a.flip={1,0,0}; a.name="mirror x"; sy.push_back(a); a.flip={0,1,0}; a.name="mirror y"; sy.push_back(a); Sym b; b.perm={1,0,2}; b.name="swap x,y"; sy.push_back(b); if(t.B.D.dim==3){ a.flip={0,0,1}; a.name="mirror z"; sy.push_back(a); Sym d; d.perm={0,2,1}; d.name="swap y,z"; sy.push_back(d); } }
            for(auto& y : sy){
            if(c.skip()) continue; if(!c.begin(mc::cat(mode," ",s.str()," ",str(t.B)," ranks=",n," | ",ref::str(H)," | data ",pat,y.name[0]?" | ":"",y.name))) continue;
            c.trace(); c.transition(1); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
            int nc=ncell(t.B.b); std::string why; std::string kk=mc::cat(s.str(),":",key(t.B.D,n));
            if(mode=="uniform"){ Prim q; if(pat==0){ q.r=1.3;q.p=.7;q.u=.6;q.v=-.8;q.w=.4;q.bx=.5;q.by=-.2;q.bz=.3; } if(pat==1){ q.r=.2;q.p=5;q.u=0;q.v=0;q.w=0;q.bx=-.1;q.by=.9;q.bz=0; } if(pat==2){ q.r=7;q.p=.05;q.u=-3;q.v=2;q.w=1;q.bx=0;q.by=0;q.bz=0; }
              if(t.B.D.dim==2) q.w=0; if(!mhd) q.bx=q.by=q.bz=0; bool wall=false; for(int d=0;d<t.B.D.dim;d++) if(t.B.bc[2*d]=="reflecting"){ wall=true; (d==0?q.u:d==1?q.v:q.w)=0; } 
              Field in(fm.size()*nc,cons(q,G)); double dt=safe_dt(t.B,fm,in,.3); auto o=hydro_step(t.B,H,n,s,in,dt,"[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.3\n"); if(!o.r.ok){ c.violation("error:"+kk,o.r.error); continue; } if(bad(o.out,why)){ c.violation("nan:"+kk,why); continue; }
              for(size_t i=0;i<in.size();i++) for(int f=0;f<s.nf;f++) if(fabs(o.out[i][f]-in[i][f])>1e-12*(1+fabs(in[i][1]))){ c.violation((wall?"wall:":"uniform:")+kk,mc::cat("uniform state changed: cell ",str(cell_of(t.B.b,fm.leaves[i/nc],i%nc))," ",cons_names()[f]," ",in[i][f]," -> ",o.out[i][f])); i=in.size()-1; break; }
              continue; }
            if(mode=="scheme"){ Field in=data(t.B,fm,s,pat); double dt=safe_dt(t.B,fm,in,.2); std::string cf="[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.2\n"; ConfigMap cm(t.B.config(&s,cf)); RiemannParams rp(cm); auto o=hydro_step(t.B,H,n,s,in,dt,cf); if(!o.r.ok){ c.violation("error:"+kk,o.r.error); continue; } if(bad(o.out,why)){ c.violation("nan:"+kk,why); continue; }
              Field e=scheme_step(t.B,fm,in,dt,s.one||s.hancock,mhd,s.glm(),rp); if(s.id.find("RK2")!=std::string::npos && positive(e)){ e=scheme_step(t.B,fm,e,dt,false,mhd,s.glm(),rp); for(size_t i=0;i<in.size();i++) for(int f=0;f<9;f++) e[i][f]=.5*(e[i][f]+in[i][f]); } if(!positive(e)){ c.count("skipped: not positive"); continue; } int nfc=s.nf; c.count("cells compared with the scheme",in.size());
              for(size_t i=0;i<in.size();i++) for(int f=0;f<nfc;f++) if(!(t.B.D.dim==2&&f==4) && !(fabs(o.out[i][f]-e[i][f])<=1e-11*(1+fabs(in[i][1])))){ c.violation("scheme:"+kk,mc::cat("cell ",str(cell_of(t.B.b,fm.leaves[i/nc],i%nc))," ",cons_names()[f]," is ",o.out[i][f],", the MUSCL",(s.one||s.hancock)?"-Hancock":""," scheme gives ",e[i][f])); i=in.size()-1; break; }
              continue; }
            if(mode=="contact"){ // density carried by a uniform flow: only the density may change; a linear profile is carried exactly
              Field in=data(t.B,fm,s,pat%10<2?pat%10:0); bool lin=pat>=10; int ax=pat%10; auto pos=[&](size_t i){ Cell q=cell_of(t.B.b,fm.leaves[i/nc],i%nc); return (q.o.c(ax)*t.B.b[ax]+q.c(ax)+.5)*t.B.dx(ax,q.o.l)/t.B.len[ax]; };
              Prim u; u.p=.8; if(lin){ (ax==0?u.u:ax==1?u.v:u.w)= pat<20?.9:-.7; } else { u.u=.6; u.v=-.8; u.w=pat?.4:-.3; } u.bx=.5; u.by=-.2; u.bz=.3; if(t.B.D.dim==2) u.w=0; if(!mhd) u.bx=u.by=u.bz=0; for(int d=0;d<t.B.D.dim;d++) if(t.B.bc[2*d]=="reflecting"){ (d==0?u.u:d==1?u.v:u.w)=0; if(mhd) continue; }
              auto slope=[&](double x){ return 1+.6*x; }; for(size_t i=0;i<in.size();i++){ Prim q=u; q.r= lin? slope(pos(i)) : in[i][0]; in[i]=cons(q,G); }
              double dt=safe_dt(t.B,fm,in,.3); auto o=hydro_step(t.B,H,n,s,in,dt,"[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.3\n"); if(!o.r.ok){ c.violation("error:"+kk,o.r.error); continue; } if(bad(o.out,why)){ c.violation("nan:"+kk,why); continue; }
              double vel=ax==0?u.u:ax==1?u.v:u.w; 
              for(size_t i=0;i<in.size();i++){ Prim a=prim(in[i],G), b=prim(o.out[i],G); double e=0; const char* w=""; auto cmp=[&](const char* nm,double x,double y){ if(!(fabs(x-y)<=1e-11)){ w=nm; e=y-x; } }; cmp("pressure",a.p,b.p); cmp("velocity x",a.u,b.u); cmp("velocity y",a.v,b.v); cmp("velocity z",a.w,b.w); cmp("Bx",a.bx,b.bx); cmp("By",a.by,b.by); cmp("Bz",a.bz,b.bz);
                if(!w[0] && lin){ double x=pos(i), m3=(s.id.find("RK2")!=std::string::npos?4.1:2.1)*t.B.dx(ax,fm.D.lmin)/t.B.len[ax]; if(x>m3 && x<1-m3 && (uni||!s.hancock)){ c.count("cells compared with the exact advection"); double ex=slope(x-vel*dt/t.B.len[ax]); if(!(fabs(ex-b.r)<=1e-11)){ w="density (linear profile)"; e=b.r-ex; } } }
                if(w[0]){ c.violation((lin?"linear:":"contact:")+kk,mc::cat("cell ",str(cell_of(t.B.b,fm.leaves[i/nc],i%nc)),": ",w," wrong by ",e)); break; } }
              continue; }
            Field in=data(t.B,fm,s,pat); double dt=safe_dt(t.B,fm,in,.08); std::string cf="[hydro]\ngamma0=1.4\nsmallp=1e-20\ncfl=.2\n"; auto o=hydro_step(t.B,H,n,s,in,dt,cf);
            if(!o.r.ok){ c.violation(o.r.kind+":"+kk,o.r.error); continue; } if(bad(o.out,why)){ c.violation("nan:"+kk,why); continue; }
            if(mode=="conserve"){ if(!positive(o.out)){ c.count("skipped: not positive"); continue; }
              int nfc= mhd?8:5; Q9 a{},b{},mag{}; for(size_t i=0;i<in.size();i++){ double V=t.B.vol(fm.leaves[i/nc].l); for(int f=0;f<nfc;f++){ a[f]+=V*in[i][f]; b[f]+=V*o.out[i][f]; mag[f]+=V*fabs(in[i][f]); } }
              double ms=mag[2]+mag[3]+mag[4]; bool allper=true; for(int d=0;d<t.B.D.dim;d++) if(!t.B.D.per[d]) allper=false;
              if(!allper && mhd && s.hancock) continue; for(int f=0;f<nfc;f++){ if(!allper){ if(f>1) { int d=(f-2)%3; bool ok=f<5 && d<t.B.D.dim; for(int e=0;e<t.B.D.dim;e++) if(e==d&&!t.B.D.per[e]) ok=false; if(!ok||mhd) continue; } if(f==1&&mhd) continue; }
                double sc= f==0?mag[0]:f==1?mag[1]:f<5?ms+mag[1]:mag[5]+mag[6]+mag[7]; if(fabs(a[f]-b[f])>1e-12*sc){ c.violation(mc::cat("total ",cons_names()[f],":",kk),mc::cat("total ",cons_names()[f]," ",a[f]," -> ",b[f]," (relative change ",(b[f]-a[f])/sc,")")); break; } } 
              // Heun: RK2 is the average of the initial state and of two Euler steps
              continue; }
            if(mode=="heun"){ Scheme se=s; se.id.replace(se.id.find("RK2"),3,"euler"); auto a=hydro_step(t.B,H,n,se,in,dt,cf), b=hydro_step(t.B,H,n,se,a.out,dt,cf); if(!a.r.ok||!b.r.ok){ c.violation("error:"+kk,a.r.ok?b.r.error:a.r.error); continue; }
              for(size_t i=0;i<in.size();i++) for(int f=0;f<s.nf;f++){ double e=.5*(in[i][f]+b.out[i][f]); if(!(fabs(o.out[i][f]-e)<=1e-12*(1+fabs(in[i][1])))){ c.violation("heun:"+kk,mc::cat("cell ",str(cell_of(t.B.b,fm.leaves[i/nc],i%nc))," ",cons_names()[f]," is ",o.out[i][f],", the average of the initial state and two Euler steps is ",e)); i=in.size()-1; break; } } continue; }
            if(mode=="partition"){ auto o1=hydro_step(t.B,[&]{ History x; for(auto& p : H) if(p.k==Op::ADAPT) x.push_back(p); return x; }(),1,s,in,dt,cf+"[amr]\nnbOctsPerGroup=3\n"); if(!o1.r.ok){ c.violation(o1.r.kind+":"+kk,o1.r.error); continue; }
              for(size_t i=0;i<in.size();i++) for(int f=0;f<s.nf;f++) if(o.out[i][f]!=o1.out[i][f]){ c.violation("partition:"+kk,mc::cat("cell ",str(cell_of(t.B.b,fm.leaves[i/nc],i%nc))," ",cons_names()[f]," is ",o.out[i][f]," on ",n," processes, ",o1.out[i][f]," on one")); i=in.size()-1; break; } continue; }
            if(mode=="symmetry"){ Box B2=y.box(t.B); History H2=y.hist(t.B,H); Mesh m2=final_mesh(B2.D,H2); std::map<Oct,int> idx; for(size_t i=0;i<m2.size();i++) idx[m2.leaves[i]]=i; Field in2(in.size()); std::vector<int> to(in.size());
              for(size_t i=0;i<in.size();i++){ Cell q=y.cell(t.B,cell_of(t.B.b,fm.leaves[i/nc],i%nc)); to[i]=idx.at(q.o)*nc+lin(B2.b,q.i,q.j,q.k); in2[to[i]]=y.q(in[i]); }
              Scheme s2=s; for(int d=0;d<3;d++) s2.g[d]=(y.flip[d]?-1:1)*s.g[y.perm[d]]; auto o2=hydro_step(B2,H2,n,s2,in2,dt,cf); if(!o2.r.ok){ c.violation(o2.r.kind+":"+kk,o2.r.error); continue; }
              for(size_t i=0;i<in.size();i++){ Q9 e=y.q(o.out[i]); bool stop=false; for(int f=0;f<s.nf;f++) if(!(fabs(o2.out[to[i]][f]-e[f])<=1e-11*(1+fabs(e[1])))){ c.violation(mc::cat("symmetry:",y.name,":",s.str(),":",t.B.D.dim,"D"),mc::cat("cell ",str(cell_of(t.B.b,fm.leaves[i/nc],i%nc)),": ",cons_names()[f]," of the transformed problem is ",o2.out[to[i]][f]," but transforming the result gives ",e[f])); stop=true; break; } if(stop) break; } continue; }
            } } } }); }
  });
}
