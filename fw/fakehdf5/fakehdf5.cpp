#include "hdf5.h"
#include "fakempi/fakempi.h"
#include <cstring>
#include <sstream>
namespace fh5 {
int64_t crash_at=-1; static uint64_t nops=0; uint64_t& ops(){ return nops; }
std::map<std::string,File>& files(){ static std::map<std::string,File> f; return f; }
enum Kind { PROP, SPACE, FILEK, GROUP, DSET, ATTR };
struct Id { Kind k; int rank; bool mpio=false; int xfer=0; std::shared_ptr<Obj> o; std::string file; bool writable=false;
  std::vector<hsize_t> dims, start, count; bool sel=false; };
static std::map<hid_t,Id> ids; static hid_t nextid=1000;
void reset(){ ids.clear(); files().clear(); nops=0; crash_at=-1; }
static hid_t put(Id i){ i.rank=fmpi::in_fiber()?fmpi::current_rank():0; ids[nextid]=i; return nextid++; }
static Id* get(hid_t h,Kind k){ auto it=ids.find(h); if(it==ids.end()||it->second.k!=k) return nullptr; return &it->second; }
static Id* loc(hid_t h){ Id* i=get(h,FILEK); return i?i:get(h,GROUP); }
static size_t tsize(hid_t t){ switch(t){ case H5T_NATIVE_DOUBLE: case H5T_NATIVE_UINT64: case H5T_NATIVE_INT64: return 8; case H5T_NATIVE_FLOAT: case H5T_NATIVE_UINT32: case H5T_NATIVE_INT32: return 4; case H5T_NATIVE_UINT16: case H5T_NATIVE_INT16: return 2; case H5T_NATIVE_UINT8: case H5T_NATIVE_INT8: return 1; } return 0; }
static void op(){ if(crash_at>=0 && (int64_t)nops==crash_at) fmpi::halt("crash","injected crash"); nops++; }
static std::vector<std::string> split(const std::string& p){ std::vector<std::string> r; std::stringstream s(p); std::string t; while(std::getline(s,t,'/')) if(!t.empty()) r.push_back(t); return r; }
std::shared_ptr<Obj> find(std::shared_ptr<Obj> o,const std::string& path){ for(auto& t : split(path)){ if(!o) return nullptr; auto it=o->kids.find(t); if(it==o->kids.end()) return nullptr; o=it->second; } return o; }
template<class T> static void cvt(const char* p,size_t n,std::vector<double>& r){ for(size_t i=0;i<n;i++){ T v; memcpy(&v,p+i*sizeof(T),sizeof(T)); r.push_back((double)v); } }
std::vector<double> doubles(const Obj& o){ std::vector<double> r; size_t n=o.n(); const char* p=o.data.data(); switch(o.type){ case H5T_NATIVE_DOUBLE: cvt<double>(p,n,r); break; case H5T_NATIVE_FLOAT: cvt<float>(p,n,r); break; case H5T_NATIVE_UINT64: cvt<uint64_t>(p,n,r); break; case H5T_NATIVE_INT64: cvt<int64_t>(p,n,r); break; case H5T_NATIVE_UINT32: cvt<uint32_t>(p,n,r); break; case H5T_NATIVE_INT32: cvt<int32_t>(p,n,r); break; case H5T_NATIVE_UINT16: cvt<uint16_t>(p,n,r); break; case H5T_NATIVE_INT16: cvt<int16_t>(p,n,r); break; } return r; }
/// executes f once for all processes (collective call), or for this process only when the file is not shared
static void coll(bool shared,const std::string& tag,const std::function<void()>& f){ op(); int x=0; if(shared && fmpi::in_fiber()) fmpi::collective("H5:"+tag,[&](const std::vector<void*>&){ f(); },&x); else f(); }
static std::string sdims(const std::vector<hsize_t>& d){ std::string s; for(auto x : d) s+=std::to_string(x)+","; return s; }
/// linear offsets of the selection of a dataspace
static bool offsets(const Id& s,std::vector<size_t>& r){ std::vector<hsize_t> st(s.dims.size(),0), ct=s.dims; if(s.sel){ st=s.start; ct=s.count; } size_t n=1; for(size_t d=0;d<ct.size();d++){ n*=ct[d]; if(st[d]+ct[d]>s.dims[d] && ct[d]) return false; } r.resize(n);
  for(size_t i=0;i<n;i++){ size_t q=i, off=0, mul=1; for(int d=(int)ct.size()-1;d>=0;d--){ off+=(st[d]+q%ct[d])*mul; q/=ct[d]; mul*=s.dims[d]; } r[i]=off; } return true; }
}
using namespace fh5;
hid_t H5Pcreate(hid_t){ Id i{PROP}; return put(i); }
herr_t H5Pclose(hid_t h){ return ids.erase(h)?0:-1; }
herr_t H5Pset_fapl_mpio(hid_t h,MPI_Comm c,MPI_Info){ Id* i=get(h,PROP); if(!i) return -1; i->mpio= c==MPI_COMM_WORLD; return 0; }
herr_t H5Pset_dxpl_mpio(hid_t h,H5FD_mpio_xfer_t x){ Id* i=get(h,PROP); if(!i) return -1; i->xfer=x; return 0; }
hid_t H5Fcreate(const char* name,unsigned,hid_t,hid_t fapl){ Id* p=get(fapl,PROP); bool sh=p&&p->mpio; std::string n=name;
  coll(sh,"Fcreate "+n,[n]{ File& f=files()[n]; f=File(); }); Id i{FILEK}; i.mpio=sh; i.o=files()[n].root; i.file=n; i.writable=true; files()[n].open++; return put(i); }
hid_t H5Fopen(const char* name,unsigned fl,hid_t fapl){ Id* p=get(fapl,PROP); bool sh=p&&p->mpio; std::string n=name; coll(sh,"Fopen "+n,[]{}); auto it=files().find(n); if(it==files().end()||!it->second.complete) return -1; Id i{FILEK}; i.mpio=sh; i.o=it->second.root; i.file=n; i.writable=fl!=H5F_ACC_RDONLY; return put(i); }
herr_t H5Fflush(hid_t h,H5F_scope_t){ Id* i=loc(h); if(!i) return -1; coll(i->mpio,"Fflush "+i->file,[]{}); return 0; }
herr_t H5Fclose(hid_t h){ Id* i=get(h,FILEK); if(!i) return -1; Id c=*i; coll(c.mpio,"Fclose "+c.file,[c]{ if(c.writable) files()[c.file].complete=true; }); ids.erase(h); return 0; }
hid_t H5Screate(H5S_class_t){ Id i{SPACE}; return put(i); }
hid_t H5Screate_simple(int r,const hsize_t* d,const hsize_t*){ Id i{SPACE}; i.dims.assign(d,d+r); return put(i); }
herr_t H5Sclose(hid_t h){ return get(h,SPACE)&&ids.erase(h)?0:-1; }
int H5Sget_simple_extent_ndims(hid_t h){ Id* i=get(h,SPACE); return i?(int)i->dims.size():-1; }
int H5Sget_simple_extent_dims(hid_t h,hsize_t* d,hsize_t* m){ Id* i=get(h,SPACE); if(!i) return -1; for(size_t k=0;k<i->dims.size();k++){ if(d) d[k]=i->dims[k]; if(m) m[k]=i->dims[k]; } return (int)i->dims.size(); }
herr_t H5Sselect_hyperslab(hid_t h,H5S_seloper_t,const hsize_t* st,const hsize_t* stride,const hsize_t* ct,const hsize_t* blk){ Id* i=get(h,SPACE); if(!i) return -1; size_t n=i->dims.size(); i->start.assign(st,st+n); i->count.assign(ct,ct+n); i->sel=true; for(size_t d=0;d<n;d++){ if(stride && stride[d]!=1 && ct[d]>1) fmpi::halt("hdf5","strided selection not modelled"); if(blk) i->count[d]=ct[d]==1?blk[d]:ct[d]; } return 0; }
hid_t H5Gcreate2(hid_t h,const char* name,hid_t,hid_t,hid_t){ Id* i=loc(h); if(!i) return -1; Id c=*i; std::string n=name; coll(c.mpio,"Gcreate "+c.file+" "+n,[c,n]{ c.o->kids.emplace(n,std::make_shared<Obj>()); }); Id g{GROUP}; g.mpio=c.mpio; g.file=c.file; g.o=c.o->kids[n]; return put(g); }
hid_t H5Gopen2(hid_t h,const char* name,hid_t){ op(); Id* i=loc(h); if(!i) return -1; auto o=fh5::find(i->o,name); if(!o||o->dataset) return -1; Id g{GROUP}; g.mpio=i->mpio; g.file=i->file; g.o=o; return put(g); }
herr_t H5Gclose(hid_t h){ return get(h,GROUP)&&ids.erase(h)?0:-1; }
htri_t H5Lexists(hid_t h,const char* name,hid_t){ Id* i=loc(h); if(!i) return -1; return fh5::find(i->o,name)?1:0; }
herr_t H5Literate(hid_t h,H5_index_t,H5_iter_order_t,hsize_t*,H5L_iterate_t f,void* d){ Id* i=loc(h); if(!i) return -1; H5L_info_t inf{0}; auto o=i->o; for(auto& k : o->kids){ int r=f(h,k.first.c_str(),&inf,d); if(r) return r; } return 0; }
hid_t H5Dcreate2(hid_t h,const char* name,hid_t type,hid_t space,hid_t,hid_t,hid_t){ Id* i=loc(h); Id* s=get(space,SPACE); if(!i||!s) return -1; Id c=*i; auto dims=s->dims; std::string n=name; bool dup=c.o->kids.count(n);
  coll(c.mpio,"Dcreate "+c.file+" "+n+" type "+std::to_string(type)+" extents "+sdims(dims),[=]{ if(dup) return; auto o=std::make_shared<Obj>(); o->dataset=true; o->type=type; o->dims=dims; o->data.assign(o->n()*tsize(type),0); o->writes.assign(o->n(),0); c.o->kids[n]=o; });
  if(dup) return -1; Id d{DSET}; d.mpio=c.mpio; d.file=c.file; d.o=c.o->kids[n]; return put(d); }
hid_t H5Dopen2(hid_t h,const char* name,hid_t){ op(); Id* i=loc(h); if(!i) return -1; auto o=fh5::find(i->o,name); if(!o||!o->dataset) return -1; Id d{DSET}; d.mpio=i->mpio; d.file=i->file; d.o=o; return put(d); }
herr_t H5Dclose(hid_t h){ return get(h,DSET)&&ids.erase(h)?0:-1; }
hid_t H5Dget_space(hid_t h){ Id* i=get(h,DSET); if(!i) return -1; Id s{SPACE}; s.dims=i->o->dims; return put(s); }
static herr_t transfer(hid_t h,hid_t type,hid_t ms,hid_t fs,hid_t pl,void* buf,bool write){ Id* i=get(h,DSET); if(!i) return -1; Id d=*i; Id* p=get(pl,PROP); bool co=p&&p->xfer==H5FD_MPIO_COLLECTIVE&&d.mpio;
  herr_t ret=-1;
  do{ Id all{SPACE}; all.dims=d.o->dims; Id F=all; if(fs!=H5S_ALL){ Id* x=get(fs,SPACE); if(!x) break; F=*x; } Id M=F; if(ms!=H5S_ALL){ Id* x=get(ms,SPACE); if(!x) break; M=*x; }
    std::vector<size_t> a,b; if(!offsets(F,a)||!offsets(M,b)||a.size()!=b.size()) break; if(type!=d.o->type) fmpi::halt("hdf5","type conversion not modelled"); size_t sz=tsize(type); bool in=true; for(auto o : a) if(o>=d.o->n()) in=false; if(!in) break;
    for(size_t k=0;k<a.size();k++){ if(write){ memcpy(d.o->data.data()+a[k]*sz,(char*)buf+b[k]*sz,sz); d.o->writes[a[k]]++; } else memcpy((char*)buf+b[k]*sz,d.o->data.data()+a[k]*sz,sz); }
    ret=0; }while(0);
  coll(co,std::string(write?"Dwrite ":"Dread ")+d.file,[]{}); return ret; }
herr_t H5Dwrite(hid_t h,hid_t t,hid_t ms,hid_t fs,hid_t pl,const void* b){ return transfer(h,t,ms,fs,pl,(void*)b,true); }
herr_t H5Dread(hid_t h,hid_t t,hid_t ms,hid_t fs,hid_t pl,void* b){ return transfer(h,t,ms,fs,pl,b,false); }
hid_t H5Acreate2(hid_t h,const char* name,hid_t type,hid_t space,hid_t,hid_t){ Id* i=loc(h); Id* s=get(space,SPACE); if(!i||!s) return -1; Id c=*i; auto dims=s->dims; std::string n=name; coll(c.mpio,"Acreate "+c.file+" "+n+" type "+std::to_string(type),[=]{ auto o=std::make_shared<Obj>(); o->type=type; o->dims=dims; o->data.assign(o->n()*tsize(type),0); o->writes.assign(o->n(),0); c.o->attrs[n]=o; }); Id a{ATTR}; a.mpio=c.mpio; a.file=c.file; a.o=c.o->attrs[n]; return put(a); }
hid_t H5Aopen(hid_t h,const char* n,hid_t){ Id* i=loc(h); if(!i||!i->o->attrs.count(n)) return -1; Id a{ATTR}; a.mpio=i->mpio; a.file=i->file; a.o=i->o->attrs[n]; return put(a); }
herr_t H5Awrite(hid_t h,hid_t type,const void* b){ Id* i=get(h,ATTR); if(!i||type!=i->o->type) return -1; Id a=*i; std::string v((const char*)b,tsize(type)*a.o->n()); coll(a.mpio,"Awrite "+a.file,[=]{ memcpy(a.o->data.data(),v.data(),v.size()); a.o->writes.assign(a.o->n(),1); }); return 0; }
herr_t H5Aread(hid_t h,hid_t type,void* b){ Id* i=get(h,ATTR); if(!i||type!=i->o->type) return -1; memcpy(b,i->o->data.data(),i->o->data.size()); return 0; }
herr_t H5Aclose(hid_t h){ return get(h,ATTR)&&ids.erase(h)?0:-1; }
