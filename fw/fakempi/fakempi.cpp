#include "mpi.h"
#include "fakempi.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <limits>
#include <cstdio>
#include <cstdlib>
#include <type_traits>

namespace fmpi {

std::function<void(int)> on_switch;

namespace {

constexpr size_t STACK_SIZE = 16u << 20;

struct FiberAbort { };  // unwinds a fiber once the run has failed

struct Message {
  int src, dst, tag; MPI_Datatype type; size_t bytes;
  std::vector<char> data;       // filled at send (eager) or at completion (late)
  const void* src_buf = nullptr;
  bool copied = false;
  bool matched = false;         // consumed by a receive
  int send_req = -1;
};

struct Request {
  enum Kind { NONE, SEND, RECV } kind = NONE;
  int owner = -1;
  std::shared_ptr<Message> msg; // SEND: the message; RECV: matched message (or null)
  void* buf = nullptr; size_t bytes = 0; int peer = 0, tag = 0; MPI_Datatype type = 0;
  bool delivered = false;
  bool active = false;
};

struct Coll {
  std::string tag;
  int arrived = 0, left = 0;
  std::vector<void*> args;
  std::vector<bool> in;
  bool done = false;
};

struct Fiber {
  ucontext_t ctx; void* stack = nullptr; bool finished = false; bool started = false;
  std::function<bool()> pred; const char* what = "";
  uint64_t coll_seq = 0;
};

struct World {
  int n; Options opt; Result res; const std::function<void(int)>* body;
  std::vector<Fiber> fibers; ucontext_t main_ctx; int cur = -1;
  std::deque<std::shared_ptr<Message>> mailbox; // unmatched, in send order
  std::vector<Request> reqs; std::vector<int> free_reqs;
  std::map<uint64_t, std::shared_ptr<Coll>> colls;
  std::vector<std::pair<int,int>> posted; // posted receives in order (request ids) per all ranks
  bool failed = false, halted = false;
};

World* W = nullptr;
std::vector<void*> stack_pool;

void* get_stack(){
  if(!stack_pool.empty()){ void* s = stack_pool.back(); stack_pool.pop_back(); return s; }
  void* s = mmap(nullptr, STACK_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if(s == MAP_FAILED) { perror("mmap"); _Exit(3); }
  mprotect(s, 4096, PROT_NONE);
  return s;
}

void record(const std::string& kind, const std::string& msg){
  if(!W->failed){ W->failed = true; W->res.ok = false; W->res.kind = kind; W->res.error = msg; }
}

void to_main(){ swapcontext(&W->fibers[W->cur].ctx, &W->main_ctx); if(W->failed) throw FiberAbort{}; }

void fiber_entry(){
  int me = W->cur;
  try { (*W->body)(me); }
  catch(const FiberAbort&) {}
  catch(const std::exception& e){ record("exception", "rank " + std::to_string(me) + ": " + e.what()); }
  catch(...){ record("exception", "rank " + std::to_string(me) + ": unknown exception"); }
  W->fibers[me].finished = true;
  swapcontext(&W->fibers[me].ctx, &W->main_ctx);
}

bool runnable(int r){ Fiber& f = W->fibers[r]; return !f.finished && (!f.pred || f.pred()); }

// scheduling point before an MPI call
void yield_point(){
  if(!W || W->cur < 0) return;
  if(W->failed) throw FiberAbort{};
  if(W->opt.preempt && W->opt.chooser && W->n > 1) { to_main(); }
}

size_t dsize(MPI_Datatype t){
  switch(t){
    case MPI_DOUBLE: return 8; case MPI_FLOAT: return 4; case MPI_UINT64_T: case MPI_INT64_T: case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: return 8;
    case MPI_UINT32_T: case MPI_INT32_T: case MPI_INT: case MPI_UNSIGNED: return 4;
    case MPI_UINT16_T: case MPI_INT16_T: return 2;
    case MPI_UINT8_T: case MPI_INT8_T: case MPI_CHAR: case MPI_CXX_BOOL: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: return 1;
  }
  fmpi::fail("bad_datatype", "unknown MPI datatype " + std::to_string(t));
}

template<class T> void red(T* a, const T* b, size_t n, MPI_Op op){
  for(size_t i=0;i<n;i++) switch(op){
    case MPI_MIN: a[i] = std::min(a[i],b[i]); break;
    case MPI_MAX: a[i] = std::max(a[i],b[i]); break;
    case MPI_SUM: a[i] = T(a[i]+b[i]); break;
    case MPI_PROD: a[i] = T(a[i]*b[i]); break;
    case MPI_LOR: a[i] = T(a[i]||b[i]); break;
    case MPI_LAND: a[i] = T(a[i]&&b[i]); break;
    case MPI_BOR: if constexpr(std::is_integral<T>::value) a[i] = T(a[i]|b[i]); break;
    case MPI_BAND: if constexpr(std::is_integral<T>::value) a[i] = T(a[i]&b[i]); break;
    default: fmpi::fail("bad_op","unknown MPI op");
  }
}
void reduce(void* a, const void* b, size_t n, MPI_Datatype t, MPI_Op op){
  switch(t){
    case MPI_DOUBLE: red((double*)a,(const double*)b,n,op); break;
    case MPI_FLOAT: red((float*)a,(const float*)b,n,op); break;
    case MPI_UINT64_T: case MPI_UNSIGNED_LONG: red((uint64_t*)a,(const uint64_t*)b,n,op); break;
    case MPI_INT64_T: case MPI_LONG: case MPI_LONG_LONG: red((int64_t*)a,(const int64_t*)b,n,op); break;
    case MPI_UINT32_T: case MPI_UNSIGNED: red((uint32_t*)a,(const uint32_t*)b,n,op); break;
    case MPI_INT32_T: case MPI_INT: red((int32_t*)a,(const int32_t*)b,n,op); break;
    case MPI_UINT16_T: red((uint16_t*)a,(const uint16_t*)b,n,op); break;
    case MPI_INT16_T: red((int16_t*)a,(const int16_t*)b,n,op); break;
    case MPI_UINT8_T: case MPI_BYTE: case MPI_UNSIGNED_CHAR: red((uint8_t*)a,(const uint8_t*)b,n,op); break;
    case MPI_INT8_T: case MPI_CHAR: red((int8_t*)a,(const int8_t*)b,n,op); break;
    case MPI_CXX_BOOL: case MPI_C_BOOL: red((bool*)a,(const bool*)b,n,op); break;
    default: fmpi::fail("bad_datatype","reduce on unknown datatype");
  }
}

int new_req(){
  if(!W->free_reqs.empty()){ int r = W->free_reqs.back(); W->free_reqs.pop_back(); W->reqs[r] = Request{}; W->reqs[r].active = true; return r; }
  W->reqs.emplace_back(); W->reqs.back().active = true; return (int)W->reqs.size()-1;
}

void copy_payload(Message& m){
  if(!m.copied){ m.data.assign((const char*)m.src_buf, (const char*)m.src_buf + m.bytes); m.copied = true; }
}

void deliver(Request& r){
  if(r.delivered || !r.msg) return;
  Message& m = *r.msg;
  copy_payload(m);
  if(m.bytes) memcpy(r.buf, m.data.data(), m.bytes);
  r.delivered = true;
}

// match posted receives to mailbox, in order
void do_match(){
  for(size_t p=0; p<W->posted.size(); ){
    Request& r = W->reqs[W->posted[p].first];
    bool matched = false;
    for(auto it = W->mailbox.begin(); it != W->mailbox.end(); ++it){
      Message& m = **it;
      if(m.dst == r.owner && (r.peer == MPI_ANY_SOURCE || m.src == r.peer) && (r.tag == MPI_ANY_TAG || m.tag == r.tag)){
        if(m.bytes > r.bytes) { record("truncation", "message from rank " + std::to_string(m.src) + " to rank " + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + " has " + std::to_string(m.bytes) + " bytes, receive buffer has " + std::to_string(r.bytes)); return; }
        if(m.bytes < r.bytes) { record("short_message", "message from rank " + std::to_string(m.src) + " to rank " + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + " has " + std::to_string(m.bytes) + " bytes, receive buffer expects " + std::to_string(r.bytes)); return; }
        if(m.type != r.type) { record("type_mismatch", "datatype mismatch between rank " + std::to_string(m.src) + " and " + std::to_string(m.dst)); return; }
        m.matched = true; r.msg = *it; W->mailbox.erase(it); matched = true;
        if(!W->opt.late_recv) deliver(r);
        break;
      }
    }
    if(matched) W->posted.erase(W->posted.begin()+p); else p++;
  }
}

int serial_rank_size_guard(){ return 0; }

} // namespace

bool in_fiber(){ return W && W->cur >= 0; }
int current_rank(){ return in_fiber() ? W->cur : -1; }
int current_size(){ return in_fiber() ? W->n : 1; }

void fail(const std::string& kind, const std::string& msg){
  if(in_fiber()){ record(kind, "rank " + std::to_string(W->cur) + ": " + msg); throw FiberAbort{}; }
  throw std::runtime_error(kind + ": " + msg);
}

void halt(const std::string& kind, const std::string& msg){
  if(!in_fiber()) throw std::runtime_error(kind + ": " + msg);
  record(kind, "rank " + std::to_string(W->cur) + ": " + msg); W->halted = true;
  swapcontext(&W->fibers[W->cur].ctx, &W->main_ctx); abort();
}

void wait_until(const std::function<bool()>& pred, const char* what){
  if(!in_fiber()) { if(!pred()) throw std::runtime_error(std::string("would block forever: ")+what); return; }
  if(W->failed) throw FiberAbort{};
  while(!pred()){
    Fiber& f = W->fibers[W->cur];
    f.pred = pred; f.what = what;
    to_main();
    W->fibers[W->cur].pred = nullptr;
  }
}

void collective(const std::string& tag, const std::function<void(const std::vector<void*>&)>& exec, void* mine){
  if(!in_fiber()){ exec(std::vector<void*>{mine}); return; }
  yield_point();
  int me = W->cur; W->res.collectives++;
  uint64_t seq = W->fibers[me].coll_seq++;
  auto& slot = W->colls[seq];
  if(!slot){ slot = std::make_shared<Coll>(); slot->tag = tag; slot->args.resize(W->n); slot->in.resize(W->n); }
  std::shared_ptr<Coll> c = slot;
  if(c->tag != tag){
    int other = 0; while(!c->in[other]) other++;
    halt("collective_mismatch", "calls '" + tag + "' while rank " + std::to_string(other) + " is in '" + c->tag + "'");
  }
  c->args[me] = mine; c->in[me] = true; c->arrived++;
  if(c->arrived == W->n){ exec(c->args); c->done = true; W->colls.erase(seq); }
  else wait_until([c]{ return c->done; }, "collective");
}

Result run(int nranks, const std::function<void(int)>& body, const Options& opt){
  World w; World* outer = W; 
  w.n = nranks; w.opt = opt; w.body = &body; w.fibers.resize(nranks);
  W = &w;
  for(int r=0;r<nranks;r++){
    Fiber& f = w.fibers[r]; f.stack = get_stack();
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK_SIZE; f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, (void(*)())fiber_entry, 0);
  }
  int last = 0; bool first = true;
  std::vector<int> cand;
  while(true){
    cand.clear();
    if(w.failed) break;
    // candidate order: last running rank first, then cyclic
    for(int i=0;i<nranks;i++){ int r = (last+i)%nranks; if(runnable(r)) cand.push_back(r); }
    if(cand.empty()) break;
    int k = 0;
    if(opt.chooser && cand.size()>1) k = opt.chooser->choose((int)cand.size(), "sched");
    int r = cand[k];
    if(r != last || first) { w.res.switches++; }
    first = false; last = r; w.cur = r;
    if(on_switch) on_switch(r);
    swapcontext(&w.main_ctx, &w.fibers[r].ctx);
    w.cur = -1;
  }
  if(w.failed){
    // unwind the other fibers so that their objects are released
    for(int r=0;r<nranks;r++) if(!w.fibers[r].finished){
      w.cur = r; if(on_switch) on_switch(r);
      w.fibers[r].pred = nullptr;
      // a fiber that never started would run the body: mark finished instead
      if(w.fibers[r].ctx.uc_stack.ss_sp && w.res.switches==0) { w.fibers[r].finished = true; continue; }
      // leave it suspended: its stack is not reused
      if(!w.halted) w.fibers[r].stack = nullptr;
    }
    w.cur = -1;
  } else {
    std::string blocked;
    for(int r=0;r<nranks;r++) if(!w.fibers[r].finished) blocked += " rank " + std::to_string(r) + " waits for " + w.fibers[r].what + ";";
    if(!blocked.empty()) { w.failed = true; w.res.ok = false; w.res.kind = "deadlock"; w.res.error = "deadlock:" + blocked;
      for(auto& f : w.fibers) if(!f.finished) f.stack = nullptr; }
    else {
      if(!w.mailbox.empty()) { Message& m = *w.mailbox.front(); w.res.ok=false; w.res.kind="leak"; w.res.error = "message from rank " + std::to_string(m.src) + " to " + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + " never received"; }
      for(auto& r : w.reqs) if(r.active) { w.res.ok=false; w.res.kind="leak"; w.res.error = "request of rank " + std::to_string(r.owner) + " never completed"; }
    }
  }
  for(auto& f : w.fibers) if(f.stack) stack_pool.push_back(f.stack);
  W = outer;
  if(on_switch) on_switch(-1);
  return w.res;
}

} // namespace fmpi

using namespace fmpi;

int MPI_Init(int*, char***){ return 0; }
int MPI_Init_thread(int*, char***, int r, int* p){ *p = r; return 0; }
int MPI_Finalize(){ return 0; }
int MPI_Initialized(int* f){ *f = 1; return 0; }
int MPI_Finalized(int* f){ *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int e){ fmpi::fail("abort", "MPI_Abort(" + std::to_string(e) + ")"); }
int MPI_Comm_rank(MPI_Comm c, int* r){ *r = (in_fiber() && c==MPI_COMM_WORLD) ? W->cur : 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s){ *s = (in_fiber() && c==MPI_COMM_WORLD) ? W->n : 1; return 0; }
double MPI_Wtime(){ static double t = 0; return t += 1e-3; }

namespace {
struct CollArgs { const void* s; void* r; const int *sc, *sd, *rc, *rd; int rank; };
bool inplace(const void* p){ return p == MPI_IN_PLACE; }
std::string tagof(const char* name, std::initializer_list<long> v){ std::string s = name; for(long x : v) s += "," + std::to_string(x); return s; }
int me(){ return in_fiber() ? W->cur : 0; }
int np(){ return in_fiber() ? W->n : 1; }
void check_comm(MPI_Comm c){ if(c != MPI_COMM_WORLD && c != MPI_COMM_SELF) fmpi::fail("bad_comm", "bad communicator"); }
// collectives on COMM_SELF are executed alone
void coll(MPI_Comm c, const std::string& tag, const std::function<void(const std::vector<void*>&)>& exec, void* mine){
  check_comm(c);
  if(c == MPI_COMM_SELF) exec(std::vector<void*>{mine}); else fmpi::collective(tag, exec, mine);
}
}

int MPI_Barrier(MPI_Comm c){ int x=0; coll(c, "Barrier", [](const std::vector<void*>&){}, &x); return 0; }

int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c){
  CollArgs a{nullptr,b}; size_t bytes = n*dsize(t);
  coll(c, tagof("Bcast",{n,t,root}), [=](const std::vector<void*>& v){ void* src = ((CollArgs*)v[root])->r; for(size_t i=0;i<v.size();i++) if((int)i!=root && bytes) memcpy(((CollArgs*)v[i])->r, src, bytes); }, &a);
  return 0;
}

static int allreduce_like(const char* name, int mode, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c){
  // mode 0 allreduce, 1 scan, 2 exscan, 3 reduce
  CollArgs a{s,r}; size_t bytes = n*dsize(t);
  coll(c, tagof(name,{n,t,op,root}), [=](const std::vector<void*>& v){
    size_t N = v.size(); std::vector<std::vector<char>> in(N);
    for(size_t i=0;i<N;i++){ CollArgs* x=(CollArgs*)v[i]; const char* p=(const char*)(inplace(x->s)?x->r:x->s); in[i].assign(p,p+bytes); }
    if(mode==0 || mode==3){
      std::vector<char> acc; bool rev = W && W->opt.reverse_reduce;
      for(size_t k=0;k<N;k++){ size_t i = rev ? N-1-k : k; if(k==0) acc=in[i]; else reduce(acc.data(), in[i].data(), n, t, op); }
      for(size_t i=0;i<N;i++) if((mode==0 || (int)i==root) && bytes) memcpy(((CollArgs*)v[i])->r, acc.data(), bytes);
    } else {
      std::vector<char> acc;
      for(size_t i=0;i<N;i++){
        if(mode==2 && i>0 && bytes) memcpy(((CollArgs*)v[i])->r, acc.data(), bytes);
        if(i==0) acc=in[0]; else { std::vector<char> tmp = acc; reduce(tmp.data(), in[i].data(), n, t, op); acc = tmp; }
        if(mode==1 && bytes) memcpy(((CollArgs*)v[i])->r, acc.data(), bytes);
      }
    }
  }, &a);
  return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return allreduce_like("Allreduce",0,s,r,n,t,op,-1,c); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c){ return allreduce_like("Reduce",3,s,r,n,t,op,root,c); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return allreduce_like("Scan",1,s,r,n,t,op,-1,c); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c){ return allreduce_like("Exscan",2,s,r,n,t,op,-1,c); }

int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c){
  if(!inplace(s) && sn*dsize(st) != rn*dsize(rt)) fmpi::fail("count_mismatch","Allgather send/recv sizes differ");
  CollArgs a{s,r}; size_t bytes = rn*dsize(rt);
  coll(c, tagof("Allgather",{rn,rt}), [=](const std::vector<void*>& v){
    size_t N=v.size(); std::vector<std::vector<char>> in(N);
    for(size_t i=0;i<N;i++){ CollArgs* x=(CollArgs*)v[i]; const char* p = inplace(x->s) ? (char*)x->r + i*bytes : (const char*)x->s; in[i].assign(p,p+bytes);} 
    for(size_t j=0;j<N;j++) for(size_t i=0;i<N;i++) if(bytes) memcpy((char*)((CollArgs*)v[j])->r + i*bytes, in[i].data(), bytes);
  }, &a);
  return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c){
  CollArgs a{s,r}; size_t bytes = sn*dsize(st);
  (void)rn; (void)rt;
  coll(c, tagof("Gather",{sn,st,root}), [=](const std::vector<void*>& v){
    for(size_t i=0;i<v.size();i++){ CollArgs* x=(CollArgs*)v[i]; if(bytes && !inplace(x->s)) memcpy((char*)((CollArgs*)v[root])->r + i*bytes, x->s, bytes); }
  }, &a);
  return 0;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c){
  CollArgs a{s,r,nullptr,nullptr,rc,rd}; size_t es = dsize(rt);
  if(!inplace(s) && sn*dsize(st) != rc[me()]*es) fmpi::fail("count_mismatch","Allgatherv send count differs from own recv count");
  std::string tag = tagof("Allgatherv",{rt}); for(int i=0;i<np();i++) tag += "," + std::to_string(rc[i]); // counts must agree on all ranks
  coll(c, tag, [=](const std::vector<void*>& v){
    size_t N=v.size(); std::vector<std::vector<char>> in(N);
    for(size_t i=0;i<N;i++){ CollArgs* x=(CollArgs*)v[i]; const char* p = inplace(x->s) ? (char*)x->r + x->rd[i]*es : (const char*)x->s; in[i].assign(p,p+x->rc[i]*es);} 
    for(size_t j=0;j<N;j++){ CollArgs* y=(CollArgs*)v[j]; for(size_t i=0;i<N;i++) if(!in[i].empty()) memcpy((char*)y->r + y->rd[i]*es, in[i].data(), in[i].size()); }
  }, &a);
  return 0;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c){
  if(sn*dsize(st) != rn*dsize(rt)) fmpi::fail("count_mismatch","Alltoall send/recv sizes differ");
  CollArgs a{s,r}; size_t bytes = rn*dsize(rt);
  coll(c, tagof("Alltoall",{rn,rt}), [=](const std::vector<void*>& v){
    size_t N=v.size(); std::vector<std::vector<char>> in(N);
    for(size_t i=0;i<N;i++){ CollArgs* x=(CollArgs*)v[i]; const char* p=(const char*)(inplace(x->s)?x->r:x->s); in[i].assign(p,p+bytes*N);} 
    for(size_t j=0;j<N;j++) for(size_t i=0;i<N;i++) if(bytes) memcpy((char*)((CollArgs*)v[j])->r + i*bytes, in[i].data()+j*bytes, bytes);
  }, &a);
  return 0;
}
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c){
  CollArgs a{s,r,sc,sd,rc,rd}; size_t es = dsize(st);
  if(st != rt) fmpi::fail("type_mismatch","Alltoallv types");
  coll(c, tagof("Alltoallv",{st}), [=](const std::vector<void*>& v){
    size_t N=v.size();
    for(size_t i=0;i<N;i++){ CollArgs* x=(CollArgs*)v[i]; for(size_t j=0;j<N;j++){ CollArgs* y=(CollArgs*)v[j];
      if(x->sc[j] != y->rc[i]) { fmpi::fail("count_mismatch","Alltoallv rank " + std::to_string(i) + " sends " + std::to_string(x->sc[j]) + " to rank " + std::to_string(j) + " which expects " + std::to_string(y->rc[i])); }
      if(x->sc[j]) memcpy((char*)y->r + y->rd[i]*es, (const char*)x->s + x->sd[j]*es, x->sc[j]*es); } }
  }, &a);
  return 0;
}

static void check_peer(int p){ if(p < 0 || p >= np()) fmpi::fail("bad_rank", "message to/from invalid rank " + std::to_string(p)); }

int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* req){
  check_comm(c); if(n<0) fmpi::fail("bad_count","negative count"); check_peer(dst); if(!in_fiber()) fmpi::fail("p2p_outside","p2p outside of a world");
  yield_point(); W->res.p2p++;
  int id = new_req(); Request& r = W->reqs[id]; r.kind = Request::SEND; r.owner = W->cur;
  auto m = std::make_shared<Message>(); m->src=W->cur; m->dst=dst; m->tag=tag; m->type=t; m->bytes=n*dsize(t); m->src_buf=b; m->send_req=id;
  if(!W->opt.late_send) copy_payload(*m);
  r.msg = m; W->mailbox.push_back(m); do_match(); if(W->failed) throw FiberAbort{};
  *req = id; return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* req){
  check_comm(c); if(n<0) fmpi::fail("bad_count","negative count"); if(src != MPI_ANY_SOURCE) check_peer(src); if(!in_fiber()) fmpi::fail("p2p_outside","p2p outside of a world");
  yield_point(); W->res.p2p++;
  int id = new_req(); Request& r = W->reqs[id]; r.kind = Request::RECV; r.owner = W->cur; r.buf=b; r.bytes=n*dsize(t); r.peer=src; r.tag=tag; r.type=t;
  if(W->opt.late_recv && r.bytes) memset(b, 0xA5, r.bytes); // the buffer content is undefined until completion
  W->posted.push_back({id,0}); do_match(); if(W->failed) throw FiberAbort{};
  *req = id; return 0;
}
static bool req_ready(int id){
  Request& r = W->reqs[id];
  if(r.kind == Request::SEND) return W->opt.sync_send ? r.msg->matched : true;
  return (bool)r.msg;
}
static void finish_req(int id, MPI_Status* st){
  Request& r = W->reqs[id];
  if(r.kind == Request::SEND) copy_payload(*r.msg);
  else { deliver(r); if(st){ st->MPI_SOURCE=r.msg->src; st->MPI_TAG=r.msg->tag; st->MPI_ERROR=0; st->count_bytes=(int)r.msg->bytes; } }
  r.active=false; r.msg.reset(); W->free_reqs.push_back(id);
}
static void check_req(int id){ if(id<0 || id>=(int)W->reqs.size() || !W->reqs[id].active || W->reqs[id].owner != W->cur) fmpi::fail("bad_request","wait on an invalid request"); }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st){
  if(n==0) return 0;
  bool any=false; for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL) any=true;
  if(!any) return 0;
  if(!in_fiber()) fmpi::fail("p2p_outside","wait outside of a world");
  yield_point();
  for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL) check_req(q[i]);
  std::vector<int> ids(q,q+n);
  wait_until([ids]{ for(int i : ids) if(i!=MPI_REQUEST_NULL && !req_ready(i)) return false; return true; }, "Waitall");
  for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL){ finish_req(q[i], st?st+i:nullptr); q[i]=MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st){ return MPI_Waitall(1,q,st); }
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st){
  *idx=-1; bool any=false; for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL) any=true; if(!any) return 0;
  yield_point(); std::vector<int> ids(q,q+n);
  wait_until([ids]{ for(int i : ids) if(i!=MPI_REQUEST_NULL && req_ready(i)) return true; return false; }, "Waitany");
  std::vector<int> rd; for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL && req_ready(q[i])) rd.push_back(i);
  int k = (W->opt.chooser && rd.size()>1) ? W->opt.chooser->choose((int)rd.size(),"waitany") : 0;
  finish_req(q[rd[k]], st); q[rd[k]]=MPI_REQUEST_NULL; *idx=rd[k]; return 0;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st){
  if(*q==MPI_REQUEST_NULL){ *flag=1; return 0; }
  yield_point(); *flag = req_ready(*q); if(*flag){ finish_req(*q, st); *q=MPI_REQUEST_NULL; } return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c){ MPI_Request q; MPI_Isend(b,n,t,dst,tag,c,&q); return MPI_Waitall(1,&q,nullptr); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st){ MPI_Request q; MPI_Irecv(b,n,t,src,tag,c,&q); return MPI_Waitall(1,&q,st); }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n){ *n = st->count_bytes/(int)dsize(t); return 0; }
