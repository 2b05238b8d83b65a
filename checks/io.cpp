// Checkpoint / restart and visualisation output, on an in-memory parallel HDF5
#include "lookup.h"
#include "scratch.h"
#include "io/IOManager.h"
#include "init/InitialConditions.h"
#include <hdf5.h>
#include <cstring>
#include <regex>
using namespace dy;
static double full(uint64_t a,uint64_t b,uint64_t c,uint64_t d=0){ return ((double)rnd(a,b,mc::Hash().add(c).add(d).h)/(double)(1ull<<40)-.3)/3; }
static uint64_t oh(const Oct& o){ return mc::Hash().add(o.l).add(o.x).add(o.y).add(o.z).h; }
struct Part { std::array<double,3> x; std::vector<double> a; int leaf; bool operator<(const Part& p) const { return std::tie(x,a)<std::tie(p.x,p.a); } bool operator==(const Part& p) const { return x==p.x&&a==p.a; } };
struct Arr { std::string name; std::vector<std::string> attr; std::vector<Part> p; };
static std::set<std::string> fields_of(int pat){ if(pat==0) return {"rho","e_tot","rho_vx","rho_vy","rho_vz"}; if(pat==1) return {"z","rho","a"}; return {"rho","psi","Bx_next"}; }
static std::vector<Arr> arrays_of(int pat,const Box& B,const Lookup& L){ std::vector<Arr> r; auto gen=[&](const std::string& n,std::vector<std::string> at,double frac,int salt){ Arr a; a.name=n; a.attr=at; for(size_t g=0;g<L.m.size()*L.nc;g++) if(rnd(g,salt,L.m.size())/(double)(1ull<<40)<frac){ Part p; p.leaf=(int)(g/L.nc); for(int d=0;d<3;d++) p.x[d]= d<B.D.dim? L.lo(g,d)+L.size(g,d)*(.05+.9*rnd(g,d,salt)/(double)(1ull<<40)) : B.lo[2]+.3*B.len[2]; for(size_t k=0;k<at.size();k++) p.a.push_back(full(g,k,salt)); a.p.push_back(p); } r.push_back(a); };
  if(pat==0) gen("particles",{"mass","vx","vy","vz"},.4,1); if(pat==1){ gen("particles",{"mass","id"},.15,2); gen("stars",{},.3,3); gen("none",{"w"},-1,4); } return r; }
/// fields and particles of the calling rank
static void fill(Rank& K,const std::set<std::string>& fs,const std::vector<Arr>& as,int nc){
  int f=0; for(auto& n : fs){ K.set(n,[&](int leaf,uint32_t l){ return full(oh(K.m.leaves[leaf]),l,f); }); f++; }
  std::set<int> mine(K.loc.begin(),K.loc.end());
  for(auto& a : as){ std::vector<Part> M; for(auto& p : a.p) if(mine.count(p.leaf)) M.push_back(p); K.U.new_ParticleArray(a.name,M.size()); for(auto& t : a.attr) K.U.new_ParticleAttribute(a.name,t); auto P=K.U.getParticleArray(a.name); for(size_t i=0;i<M.size();i++) for(int d=0;d<3;d++) P.pos(i,(ComponentIndex3D)d)=M[i].x[d];
    for(size_t k=0;k<a.attr.size();k++){ auto A=K.U.getParticleAccessor(a.name,{{a.attr[k],0}}); for(size_t i=0;i<M.size();i++) A.at(i,0)=M[i].a[k]; } } }

int main(int argc,char** argv){
  std::string mode; for(int i=1;i<argc;i++) if(!strcmp(argv[i],"--mode")) mode=argv[i+1];
  return mc::run(argc,argv,[&](mc::Ctx& c){
    dy::init(); scratch(); bool T=c.thorough;
    struct TC{ Box B; int k; std::vector<int> ranks; }; std::vector<TC> tc;
    auto add=[&](Domain D,Block b,std::array<double,3> len,int k,std::vector<int> r){ Box B; B.D=D; B.b=b; B.len=len; B.lo={-.25,.5,D.dim==3?.125:0}; B.walls("reflecting"); tc.push_back({B,k,r}); };
    std::vector<int> R=T?std::vector<int>{1,2,3,4}:std::vector<int>{1,3};
    add(dom(2,1,3,{2,2,1},{1,1,0}),{2,2,1},{1,1,1},T?5:3,R);
    add(dom(2,2,3,{3,2,1},{1,0,0}),{4,3,1},{1.5,1,1},T?4:2,R);
    add(dom(2,2,4,{3,4,1},{0,0,0}),{1,1,1},{1,2,1},T?3:2,R);
    add(dom(3,1,3,{2,2,2},{1,1,1}),{2,2,2},{1,.5,2},T?2:1,R);
    add(dom(3,1,2,{2,1,2},{0,1,0}),{1,2,3},{1,.5,1},T?3:1,R);
    if(mode=="crash" && !T){ tc={tc[0],tc[2],tc[3]}; for(auto& t : tc){ t.k=1; t.ranks={1,2}; } }
    auto err=[](std::string& e,const std::string& s){ if(e.empty()) e=s; };

    if(mode=="restart" || mode=="crash"){
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ size_t n0=Mesh::initial(t.B.D).size(); if((size_t)n>n0) continue; for(auto& hh : partitions(m,h,n)) for(int n2 : t.ranks){ if((size_t)n2>n0) continue; if(mode=="crash"&&n2!=1) continue; for(int pat=0;pat<3;pat++){
        if(mode=="crash" && (pat==2 || (!T && h.size()>1))) continue;
        if(c.skip()) continue; if(!c.begin(mc::cat(mode," ",str(t.B)," ranks=",n," then ",n2," | ",ref::str(hh)," | data ",pat))) continue;
        const Box& B=t.B; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; auto fs=fields_of(pat); auto as=arrays_of(pat,B,L); std::string e;
        int iter0=7+pat; double time0=full(pat,n,3)+1.0/3;
        auto write=[&](int iter,double time,int salt,bool first){ (void)salt; if(first){ fh5::reset(); scratch_clear(); }
          return run_history(B.D,n,hh,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,"[output]\noutputDir=./\noutputPrefix=chk\n")); fill(K,fs,as,nc); ScalarSimulationData sd; sd.set<int>("iter",iter); sd.set<real_t>("time",time); sd.set<real_t>("dt",.5); auto io=IOManagerFactory::make_instance("IOManager_checkpoint",K.cm,K.fc,K.tm); io->save_snapshot(K.U,sd); }); };
        auto verify=[&](int iter,double time){ std::string inif=mc::cat("./restart_chk_",iter,".ini"); if(!exists(inif)){ err(e,"no restart .ini file was written"); return fmpi::Result{}; } std::string text=slurp(inif);
          std::vector<char> owned(fm.size(),0); std::vector<std::vector<double>> val(fs.size(),std::vector<double>(fm.size()*nc,NAN)); std::map<std::string,std::vector<Part>> got; std::set<std::string> gotf; bool alien=false;
          auto r=fmpi::run(n2,[&](int rank){ ConfigMap cm(text); auto p=AMRmesh::parse_parameters(cm); AMRmesh am(p.dim,p.dim,p.periodic,p.level_min,p.level_max,p.coarse_grid_size); ForeachCell fc(am,cm); UserData U(cm,fc); Timers tm;
            auto ic=cm.getValue<std::vector<std::string>>("run","initial_conditions"); if(ic!=std::vector<std::string>{"restart"}) err(e,"the restart file does not select the restart initial condition"); for(auto& x : ic) InitialConditionsFactory::make_instance(x,cm,fc,tm)->init(U);
            if(cm.getValue<int>("run","iter_start",0)!=iter) err(e,"iteration number not restored"); if(cm.getValue<real_t>("run","tStart",0.)!=time) err(e,mc::cat("time not restored: ",cm.getValue<real_t>("run","tStart",0.)," instead of ",time));
            std::map<Oct,int> idx; for(size_t i=0;i<fm.size();i++) idx[fm.leaves[i]]=(int)i; auto lo=local_octs(am,B.D);
            for(auto& x : U.getEnabledFields()) gotf.insert(x);
            std::set<int> mine; for(size_t o=0;o<lo.size();o++){ if(!idx.count(lo[o])){ alien=true; continue; } int leaf=idx[lo[o]]; mine.insert(leaf); owned[leaf]++; int f=0; for(auto& nm : fs){ if(U.has_field(nm)){ auto A=U.getAccessor({{nm,(VarIndex)0}}); for(int l=0;l<nc;l++) val[f][leaf*nc+l]=A.at(Rank::ci(B.b,o,l),(VarIndex)0); } f++; } }
            for(auto& a : as){ if(!U.has_ParticleArray(a.name)){ err(e,"particle array "+a.name+" missing after restart"); continue; } auto P=U.getParticleArray(a.name); size_t np=P.getNumParticles(); for(auto& x : a.attr) if(!U.has_ParticleAttribute(a.name,x)) err(e,"attribute "+a.name+"/"+x+" missing after restart"); if(!e.empty()) continue; for(size_t i=0;i<np;i++){ Part q; for(int d=0;d<3;d++) q.x[d]=P.pos(i,(ComponentIndex3D)d); for(auto& x : a.attr) q.a.push_back(U.getParticleAccessor(a.name,{{x,0}}).at(i,0)); got[a.name].push_back(q); } }
            });
          if(!r.ok) return r;
          if(alien) err(e,"restarted mesh contains an octant that was not in the checkpoint"); for(size_t i=0;i<fm.size();i++) if(owned[i]!=1) err(e,mc::cat("leaf ",ref::str(fm.leaves[i])," owned by ",(int)owned[i]," processes after restart"));
          std::set<std::string> ef(fs.begin(),fs.end()); for(auto& x : ef) if(!gotf.count(x)) err(e,"field "+x+" missing after restart");
          int f=0; for(auto& nm : fs){ for(size_t g=0;g<fm.size()*nc;g++) if(val[f][g]!=full(oh(fm.leaves[g/nc]),g%nc,f)) err(e,mc::cat("field ",nm," cell ",str(cell_of(B.b,fm.leaves[g/nc],g%nc))," is ",val[f][g]," instead of ",full(oh(fm.leaves[g/nc]),g%nc,f))); f++; }
          for(auto& a : as){ auto x=a.p; auto y=got[a.name]; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(!(x==y)) err(e,mc::cat("particles of array ",a.name," differ after restart (",x.size()," written, ",y.size()," read)")); }
          return r; };
        if(mode=="restart"){
          auto r=write(iter0,time0,0,true); std::string what="write";
          if(r.ok){ r=verify(iter0,time0); what="restart"; }
          c.trace(); c.transition(2); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
          if(!r.ok) c.violation(mc::cat(what,":",r.kind,":data",pat,":",key(B.D,n)),r.error); else if(!e.empty()) c.violation(mc::cat("restart:data",pat,":",key(B.D,n)),e);
        } else {
          // every crash point of the second checkpoint of a run: operations of the file library that never happen
          auto r=write(iter0,time0,0,true); if(!r.ok){ c.violation(mc::cat("write:",r.kind,":",key(B.D,n)),r.error); continue; } uint64_t first=fh5::ops();
          r=write(iter0+1,time0+.5,0,false); uint64_t total=fh5::ops();
          for(uint64_t k=first;k<=total;k++){ write(iter0,time0,0,true); fh5::crash_at=(int64_t)k; auto rr=write(iter0+1,time0+.5,0,false); fh5::crash_at=-1; if(rr.ok != (k==total)) err(e,mc::cat("operation ",k," of ",total,": ",rr.ok?"no crash":rr.error));
            for(auto& ff : std::filesystem::directory_iterator(scratch())){ std::string nm=ff.path().filename(); if(nm.size()>4 && nm.substr(nm.size()-4)==".ini" && nm.rfind("restart_",0)==0){ ConfigMap cm(slurp(nm)); std::string h5=cm.getValue<std::string>("restart","filename"); auto it=fh5::files().find(h5); if(it==fh5::files().end()||!it->second.complete) err(e,mc::cat("crash before file operation ",k-first," leaves ",nm," referring to an incomplete ",h5)); } }
            auto v=verify(iter0,time0); if(!v.ok) err(e,mc::cat("crash before file operation ",k-first,": previous checkpoint unusable: ",v.error)); c.trace(); c.transition(); c.evaluation(); c.state(mc::Hash().str(c.desc()).add(k).h); if(!e.empty()) break; }
          if(!e.empty()) c.violation(mc::cat("crash:data",pat,":",key(B.D,n)),e); }
      } } } });
      return; }

    if(mode=="tile"){
      // the checkpoint of a small domain repeated nrep times along each axis of a larger one
      std::vector<std::array<int,3>> reps={{1,1,1},{2,1,1},{1,2,1},{2,2,1},{3,1,1},{4,1,1},{1,3,1},{2,3,1}}; if(T) for(auto x : {std::array<int,3>{4,2,1},{3,3,1},{1,5,1}}) reps.push_back(x);
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ size_t n0=Mesh::initial(t.B.D).size(); auto rp=reps; if(t.B.D.dim==3) rp={{1,1,1},{2,1,1},{1,1,2},{1,2,2},{2,2,2},{1,1,3}}; for(auto& nr : rp) for(int per=0;per<(h.empty()?1:2);per++) for(int n : {1,2}) for(int pat=0;pat<3;pat++){
        if(pat!=1 && !T && h.size()>1) continue; if((size_t)n>n0) continue; if(n==2 && (nr[0]*nr[1]*nr[2]>4 || pat!=1)) continue;
        if(c.skip()) continue; if(!c.begin(mc::cat("tile ",str(t.B)," written by ",n," | ",ref::str(h)," | data ",pat," repeated ",nr[0],"x",nr[1],"x",nr[2]," periodic ",per))) continue;
        const Box& B=t.B; const Mesh& fm=m; Lookup L(B,fm); int nc=L.nc; auto fs=fields_of(pat); std::string e; fh5::reset(); scratch_clear();
        auto r=run_history(B.D,n,h,[&](int,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,"[output]\noutputDir=./\noutputPrefix=chk\n")); fill(K,fs,{},nc); ScalarSimulationData sd; sd.set<int>("iter",3); sd.set<real_t>("time",.25); sd.set<real_t>("dt",.5); auto io=IOManagerFactory::make_instance("IOManager_checkpoint",K.cm,K.fc,K.tm); io->save_snapshot(K.U,sd); });
        std::string file; if(r.ok){ ConfigMap cm(slurp("./restart_chk_3.ini")); file=cm.getValue<std::string>("restart","filename"); }
        Box B2=B; uint32_t w=1; for(int d=0;d<B.D.dim;d++){ B2.D.coarse[d]=B.D.coarse[d]*nr[d]; B2.len[d]=B.len[d]*nr[d]; B2.D.per[d]=per; w=std::max(w,B2.D.coarse[d]); } B2.walls("reflecting"); int l2=B.D.lmin; while((1u<<l2)<w) l2++; if(nr==std::array<int,3>{1,1,1}) l2=B.D.lmin; int diff=l2-B.D.lmin; B2.D.lmin=l2; B2.D.lmax=B.D.lmax+diff;
        // the tiled leaves, refined where the 2:1 balance across tiles requires it
        std::set<Oct> want; for(auto& o : fm.leaves) for(int x=0;x<nr[0];x++) for(int y=0;y<nr[1];y++) for(int z=0;z<nr[2];z++) want.insert(Oct{o.l+diff,o.x+x*B.D.count(0,o.l),o.y+y*B.D.count(1,o.l),B.D.dim==3?o.z+z*B.D.count(2,o.l):0});
        auto inside=[](Oct o,const std::set<Oct>& S,Oct& r){ for(;o.l>=0;){ if(S.count(o)){ r=o; return true; } o=Oct{o.l-1,o.x/2,o.y/2,o.z/2}; if(o.l<0) break; } return false; };
        Mesh em=Mesh::initial(B2.D); for(int q=0;q<8;q++){ std::vector<int> mk; bool any=false; for(auto& o : em.leaves){ Oct s; bool fine=inside(o,want,s); mk.push_back(fine?0:1); any|=!fine; } if(!any) break; em=em.adapt(mk); }
        std::vector<char> owned(em.size(),0); std::map<Oct,int> idx; for(size_t i=0;i<em.size();i++) idx[em.leaves[i]]=(int)i; std::map<Oct,int> old; for(size_t i=0;i<fm.size();i++) old[fm.leaves[i]]=(int)i;
        if(r.ok) r=fmpi::run(nr[0]*nr[1]*nr[2],[&](int){ ConfigMap cm(B2.config(nullptr,mc::cat("[run]\ninitial_conditions=tiled_restart\n[restart]\nfilename=",file,"\nnrep_x=",nr[0],"\nnrep_y=",nr[1],"\nnrep_z=",nr[2],"\n"))); auto p=AMRmesh::parse_parameters(cm); AMRmesh am(p.dim,p.dim,p.periodic,p.level_min,p.level_max,p.coarse_grid_size); ForeachCell fc(am,cm); UserData U(cm,fc); Timers tm; InitialConditionsFactory::make_instance("tiled_restart",cm,fc,tm)->init(U);
          auto lo=local_octs(am,B2.D); for(size_t o=0;o<lo.size();o++){ auto f=idx.find(lo[o]); if(f==idx.end()){ err(e,"octant "+ref::str(lo[o])+" is not in the tiled mesh"); continue; } owned[f->second]++;
            Oct s; inside(lo[o],want,s); int up=lo[o].l-s.l; Oct s0{s.l-diff,s.x,s.y,s.z}; s0.x%=B.D.count(0,s0.l); s0.y%=B.D.count(1,s0.l); if(B.D.dim==3) s0.z%=B.D.count(2,s0.l); int leaf=old.at(s0);
            int fi=0; for(auto& nm : fs){ if(!U.has_field(nm)){ err(e,"field "+nm+" missing"); continue; } auto A=U.getAccessor({{nm,(VarIndex)0}}); for(int l=0;l<nc;l++){ int ci[3]={l%(int)B.b[0],(l/(int)B.b[0])%(int)B.b[1],l/(int)(B.b[0]*B.b[1])}; for(int d=0;d<B.D.dim;d++) ci[d]=(int)((lo[o].c(d)*B.b[d]+ci[d])>>up)-(int)(s.c(d)*B.b[d]); int l0=ci[0]+B.b[0]*(ci[1]+B.b[1]*ci[2]); double v=A.at(Rank::ci(B.b,o,l),(VarIndex)0), x=full(oh(fm.leaves[leaf]),l0,fi); if(v!=x) err(e,mc::cat("field ",nm," in ",ref::str(lo[o])," cell ",l," is ",v," instead of ",x)); } fi++; } } });
        for(size_t i=0;r.ok && i<em.size();i++) if(owned[i]!=1) err(e,mc::cat("leaf ",ref::str(em.leaves[i])," of the tiled mesh owned by ",(int)owned[i]," processes"));
        c.trace(); c.transition(2); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%199==1) c.sample(c.desc());
        if(!r.ok) c.violation(mc::cat("tile:",r.kind,":data",pat,":",key(B.D,n),":",nr[0],nr[1],nr[2]),r.error); else if(!e.empty()) c.violation(mc::cat("tile:data",pat,":",key(B.D,n),":",nr[0],nr[1],nr[2]),e);
      } });
      return; }

    if(mode=="output"){
      for(auto& t : tc) ref::all_trees(t.B.D,t.k,[&](const Mesh& m,const History& h){ for(int n : t.ranks){ size_t n0=Mesh::initial(t.B.D).size(); if((size_t)n>n0) continue; for(auto& hh : partitions(m,h,n)) for(int pat=0;pat<3;pat++) for(int dbl=0;dbl<2;dbl++){
        if(c.skip()) continue; if(!c.begin(mc::cat("output ",str(t.B)," ranks=",n," | ",ref::str(hh)," | data ",pat," ",dbl?"double":"float"))) continue;
        const Box& B=t.B; const int dim=B.D.dim; Mesh fm=final_mesh(B.D,hh); Lookup L(B,fm); int nc=L.nc; auto fs=fields_of(pat); auto as=arrays_of(pat,B,L); std::string e; fh5::reset(); scratch_clear();
        int iter=12+pat; double time=1.0/3; std::vector<int> ow(fm.size(),-1); std::vector<std::string> order; // global order of leaves
        std::string vars="ioct,level,rank", pv; for(auto& f : fs) vars+=","+f; for(auto& a : as){ if(a.attr.empty()) pv+=(pv.empty()?"":",")+a.name; for(auto& x : a.attr) pv+=(pv.empty()?"":",")+a.name+"/"+x; } if(pat==2) vars+=",not_there";
        auto r=run_history(B.D,n,hh,[&](int rank,AMRmesh& am,const Mesh& rm){ Rank K(am,rm,B,B.config(nullptr,mc::cat("[output]\noutputDir=out/sub\noutputPrefix=pre\noutput_real_type=",dbl?"double":"float","\nwrite_variables=",vars,"\n",pv.empty()?"":"write_particle_variables="+pv,"\n"))); fill(K,fs,as,nc); for(int l : K.loc) ow[l]=rank; ScalarSimulationData sd; sd.set<int>("iter",iter); sd.set<real_t>("time",time); sd.set<real_t>("dt",.5);
          auto io=IOManagerFactory::make_instance("IOManager_hdf5",K.cm,K.fc,K.tm); io->save_snapshot(K.U,sd); sd.set<int>("iter",iter+1); io->save_snapshot(K.U,sd); });
        c.trace(); c.transition(); c.evaluation(); c.state(mc::Hash().str(c.desc()).h); if(c.traces%499==1) c.sample(c.desc());
        auto ty=[&](double v){ return dbl?v:(double)(float)v; };
        // an .xmf file: every data item refers to an existing dataset with the announced shape and type
        auto xmf=[&](const std::string& file){ std::string s=slurp("out/sub/"+file); if(s.empty()){ err(e,"missing "+file); return; } std::regex re("<DataItem Dimensions=\"([0-9 ]+)\"([^>]*)>\\s*([^\\s:]+):/(\\S+)\\s*</DataItem>"); int cnt=0; for(std::sregex_iterator it(s.begin(),s.end(),re),end;it!=end;++it){ cnt++; std::string ds=(*it)[4], at=(*it)[2]; auto fi=fh5::files().find("out/sub/"+(*it)[3].str()); if(fi==fh5::files().end()||!fi->second.complete){ err(e,file+" refers to missing "+(*it)[3].str()); continue; } auto o=fh5::find(fi->second.root,ds); if(!o){ err(e,file+" refers to missing dataset "+ds); continue; } std::vector<hsize_t> d; std::stringstream ss((*it)[1].str()); hsize_t q; while(ss>>q) d.push_back(q); auto od=o->dims; if(od.size()==1 && d.size()==2 && d[1]==1) od.push_back(1); if(od!=d) err(e,file+": shape of "+ds+" is not the one of the dataset"); std::smatch mm; int prec=std::regex_search(at,mm,std::regex("Precision=\"(\\d+)\""))?std::stoi(mm[1]):0, have=(int)(o->n()?o->data.size()/o->n():0); if(o->n()&&have!=prec) err(e,mc::cat(file,": precision of ",ds," is ",have," bytes, announced ",prec)); bool fl=o->type==H5T_NATIVE_FLOAT||o->type==H5T_NATIVE_DOUBLE; if(fl!=(at.find("Float")!=std::string::npos)) err(e,file+": number type of "+ds); }
          size_t items=0; for(size_t p=0;(p=s.find("<DataItem",p))!=std::string::npos;p++) items++; if(!cnt || (size_t)cnt!=items) err(e,mc::cat(file,": ",cnt," of ",items," data items understood")); };
        auto once=[&](const fh5::Obj& o,const std::string& nm){ for(int w : o.writes) if(w!=1){ err(e,mc::cat("element of ",nm," written ",w," times")); break; } };
        if(r.ok) for(int it=iter;it<=iter+1;it++){ char b[64]; snprintf(b,64,"pre_iter%07d",it); std::string base=b; auto fi=fh5::files().find("out/sub/"+base+".h5"); if(fi==fh5::files().end()||!fi->second.complete){ err(e,"no file "+base+".h5"); break; } auto root=fi->second.root;
          xmf(base+".xmf"); std::string mx=slurp("out/sub/pre_main.xmf"); size_t inc=0; for(size_t p=0;(p=mx.find("xi:include href=\""+base+".xmf\"",p))!=std::string::npos;p++) inc++; if(inc!=1||mx.find("</Xdmf>")==std::string::npos) err(e,mc::cat("main .xmf lists ",base,".xmf ",inc," times"));
          auto D=[&](const std::string& nm){ auto o=fh5::find(root,nm); if(!o){ err(e,"dataset "+nm+" missing"); return std::vector<double>(); } once(*o,nm); return fh5::doubles(*o); };
          auto X=D("coordinates"), C=D("connectivity"), io=D("ioct"), lv=D("level"), rk=D("rank"); int np=dim==2?4:8; size_t N=fm.size()*nc; if(C.size()!=N*np||io.size()!=N||lv.size()!=N||rk.size()!=N) err(e,"number of cells"); if(!e.empty()) break;
          if(!fh5::find(root,"scalar_data")||!fh5::find(root,"scalar_data")->attrs.count("iter")||fh5::doubles(*fh5::find(root,"scalar_data")->attrs["iter"])[0]!=it||fh5::doubles(*fh5::find(root,"scalar_data")->attrs["time"])[0]!=time) err(e,"scalar data");
          std::map<std::array<double,3>,size_t> at; for(size_t g=0;g<N;g++){ long l[3],w; L.box(g,l,w); std::array<double,3> p{ double(2*l[0]+w), double(2*l[1]+w), dim==3?double(2*l[2]+w):0 }; at[p]=g; }
          std::vector<char> seen(N,0); std::vector<std::vector<double>> F; for(auto& f : fs) F.push_back(D(f)); if(!e.empty()) break; std::map<int,int> leaf_of_ioct;
          for(size_t q=0;q<N && e.empty();q++){ double lo[3]={1e9,1e9,1e9},hi[3]={-1e9,-1e9,-1e9}; std::set<size_t> nodes; for(int k=0;k<np;k++){ size_t nd=(size_t)C[q*np+k]; nodes.insert(nd); if((nd+1)*3>X.size()){ err(e,"connectivity refers to a node that does not exist"); break; } for(int d=0;d<3;d++){ lo[d]=std::min(lo[d],X[nd*3+d]); hi[d]=std::max(hi[d],X[nd*3+d]); } } if(!e.empty()) break;
            // corner order: counter-clockwise bottom then top
            static const int cc[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; for(int k=0;k<np;k++) for(int d=0;d<dim;d++) if(X[(size_t)C[q*np+k]*3+d]!=(cc[k][d]?hi[d]:lo[d])) err(e,"corners of a cell not in the order of the element type");
            if(dim==2 && lo[2]!=hi[2]) err(e,"2D cell with a thickness");
            std::array<double,3> p{0,0,0}; for(int d=0;d<dim;d++) p[d]=std::round(((lo[d]+hi[d])/2-B.lo[d])/B.len[d]*L.n[d]*2); auto f=at.find(p); if(f==at.end()){ err(e,"a cell of the file is not a cell of the mesh"); break; } size_t g=f->second; if(seen[g]++) err(e,"a cell is written twice"); for(int d=0;d<dim;d++) if(fabs(hi[d]-lo[d]-L.size(g,d))>1e-5) err(e,"size of a cell");
            int leaf=(int)(g/nc); if(lv[q]!=fm.leaves[leaf].l) err(e,"level of a cell"); if(rk[q]!=ow[leaf]) err(e,"rank of a cell"); if(leaf_of_ioct.count((int)io[q]) && leaf_of_ioct[(int)io[q]]!=leaf) err(e,"two octants with the same ioct"); leaf_of_ioct[(int)io[q]]=leaf;
            for(size_t fi=0;fi<F.size();fi++) if(F[fi].size()!=N || F[fi][q]!=ty(full(oh(fm.leaves[leaf]),g%nc,fi))) err(e,"value of a field"); }
          if(leaf_of_ioct.size()!=fm.size()||leaf_of_ioct.begin()->first!=0||leaf_of_ioct.rbegin()->first!=(int)fm.size()-1) err(e,"ioct does not number the octants from 0");
          for(auto& a : as){ std::string pb=mc::cat("pre_particles_",a.name,"_iter",base.substr(8)); auto pf=fh5::files().find("out/sub/"+pb+".h5"); if(pf==fh5::files().end()||!pf->second.complete){ err(e,"no file "+pb); continue; } xmf(pb+".xmf"); root=pf->second.root; auto PX=D("coordinates"); std::vector<std::vector<double>> A; for(auto& x : a.attr) A.push_back(D(x)); if(PX.size()!=3*a.p.size()){ err(e,"number of particles"); continue; } std::vector<Part> x=a.p,y; for(auto& p : x){ for(auto& v : p.x) v=ty(v); for(auto& v : p.a) v=ty(v); } for(size_t i=0;i<a.p.size();i++){ Part p; p.x={PX[3*i],PX[3*i+1],PX[3*i+2]}; for(auto& v : A) p.a.push_back(v[i]); y.push_back(p); } std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(!(x==y)) err(e,"particles of "+a.name+" differ in the file"); }
        }
        if(!r.ok) c.violation(mc::cat("output:",r.kind,":data",pat,":",key(B.D,n)),r.error); else if(!e.empty()) c.violation(mc::cat("output:data",pat,":",key(B.D,n)),e);
      } } });
      return; }
  }); }
