#include "mc.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <chrono>

namespace mc {

uint64_t hash_bytes(const void* p, size_t n, uint64_t h){
  const unsigned char* c = (const unsigned char*)p;
  for(size_t i=0;i<n;i++){ h ^= c[i]; h *= 1099511628211ull; }
  h ^= h >> 29; return h;
}

namespace {
struct Shared { char desc[8192]; char what[256]; volatile int in_case; };
Shared* shared = nullptr;
int watchdog_s = 120;

const char* signame(int s){ switch(s){ case SIGSEGV: return "SIGSEGV"; case SIGABRT: return "SIGABRT (assertion or abort)"; case SIGFPE: return "SIGFPE"; case SIGBUS: return "SIGBUS"; case SIGILL: return "SIGILL"; case SIGALRM: return "no progress (watchdog)"; } return "signal"; }
void on_crash(int s){
  if(shared){ strncpy(shared->what, signame(s), sizeof(shared->what)-1); }
  _Exit(s == SIGALRM ? 98 : 99);
}
void install(){
  static char alt[1<<16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof(alt); sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; 
  for(int s : {SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGALRM}) sigaction(s,&sa,nullptr);
}
std::string esc(const std::string& s){ std::string o; for(char c : s){ if(c=='\n') o += "\\n"; else if(c=='\t') o += "\\t"; else if(c=='\\') o += "\\\\"; else o += c; } return o; }
std::string unesc(const std::string& s){ std::string o; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\' && i+1<s.size()){ char c=s[++i]; o += c=='n'?'\n':c=='t'?'\t':c; } else o += s[i]; } return o; }
std::string json(const std::string& s){ std::string o="\""; for(unsigned char c : s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
}

void Ctx::progress(){ alarm(watchdog_s); }

bool Ctx::begin(const std::string& desc){
  uint64_t i = index++;
  if(!only.empty()){ if(desc != only) return false; }
  else if((int)(i % nshards) != shard) return false;
  cur = desc; case_failed = false;
  if(shared){ strncpy(shared->desc, desc.c_str(), sizeof(shared->desc)-1); shared->desc[sizeof(shared->desc)-1]=0; shared->in_case=1; }
  alarm(watchdog_s);
  return true;
}

void Ctx::violation(const std::string& key, const std::string& msg){
  nviolations++; case_failed = true;
  int& n = per_key[key];
  if(n++ < 3) violations.push_back({key, cur, msg});
  if(!only.empty()) fprintf(stderr, "violation [%s] case {%s}: %s\n", key.c_str(), cur.c_str(), msg.c_str());
}

static void dump(const Ctx& c, const std::string& file){
  std::ofstream f(file);
  for(auto& v : c.violations) f << "V\t" << esc(v.key) << "\t" << esc(v.desc) << "\t" << esc(v.msg) << "\n";
  f << "n\t" << c.nviolations << "\n";
  f << "t\t" << c.transitions << "\n" << "r\t" << c.traces << "\n" << "e\t" << c.evaluations << "\n";
  for(auto& k : c.counters) f << "C\t" << k.first << "\t" << k.second << "\n";
  for(auto& s : c.samples) f << "S\t" << esc(s) << "\n";
  for(auto h : c.states) f << "H\t" << h << "\n";
  for(auto h : c.distincts) f << "D\t" << h << "\n";
  f << "END\n";
}
static bool load(Ctx& c, const std::string& file){
  std::ifstream f(file); std::string line; bool end=false;
  while(std::getline(f,line)){
    if(line=="END"){ end=true; break; }
    std::vector<std::string> p; size_t a=0; while(true){ size_t b=line.find('\t',a); p.push_back(line.substr(a,b==std::string::npos?b:b-a)); if(b==std::string::npos) break; a=b+1; }
    switch(line[0]){
      case 'V': c.violations.push_back({unesc(p[1]),unesc(p[2]),unesc(p[3])}); break;
      case 'n': c.nviolations += std::stoull(p[1]); break;
      case 't': c.transitions += std::stoull(p[1]); break;
      case 'r': c.traces += std::stoull(p[1]); break;
      case 'e': c.evaluations += std::stoull(p[1]); break;
      case 'C': { uint64_t v = std::stoull(p[2]); uint64_t& d = c.counters[p[1]]; if(p[1].rfind("max_",0)==0) { if(v>d) d=v; } else d += v; break; }
      case 'S': c.samples.push_back(unesc(p[1])); break;
      case 'H': c.states.insert(std::stoull(p[1])); break;
      case 'D': c.distincts.insert(std::stoull(p[1])); break;
    }
  }
  return end;
}

int run(int argc, char** argv, const std::function<void(Ctx&)>& explore){
  std::string out, only; bool thorough=false; int jobs=8;
  for(int i=1;i<argc;i++){ std::string a=argv[i];
    if(a=="--out") out=argv[++i]; else if(a=="--only") only=argv[++i]; else if(a=="--only-file"){ std::ifstream f(argv[++i]); std::getline(f,only); }
    else if(a=="--thorough") thorough=true; else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--watchdog") watchdog_s=atoi(argv[++i]); }
  if(const char* w = getenv("MC_WATCHDOG")) watchdog_s = atoi(w);
  auto t0 = std::chrono::steady_clock::now();
  Ctx total;
  setenv("OMP_NUM_THREADS","1",0); setenv("OMP_PROC_BIND","false",0);
  if(!only.empty()){
    shared = (Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    pid_t p = fork();
    std::string tmp = out.empty() ? "/tmp/mc_replay." + std::to_string(getpid()) : out + ".w0";
    if(p==0){ install(); Ctx c; c.only=only; c.thorough=thorough; explore(c); dump(c,tmp); _Exit(0); }
    int st=0; waitpid(p,&st,0); load(total,tmp); unlink(tmp.c_str());
    if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) { total.violations.push_back({std::string("crash"), shared->desc, shared->what[0]?shared->what:"killed"}); total.nviolations++; }
  } else {
    std::vector<pid_t> pids; std::vector<Shared*> sh;
    for(int w=0;w<jobs;w++){
      Shared* s = (Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh.push_back(s);
      fflush(nullptr);
      pid_t p = fork();
      if(p==0){ shared=s; install(); Ctx c; c.shard=w; c.nshards=jobs; c.thorough=thorough; explore(c); alarm(0); dump(c, out + ".w" + std::to_string(w)); _Exit(0); }
      pids.push_back(p);
    }
    for(int w=0;w<jobs;w++){
      int st=0; waitpid(pids[w],&st,0);
      std::string f = out + ".w" + std::to_string(w);
      bool ok = WIFEXITED(st) && WEXITSTATUS(st)==0 && load(total,f);
      unlink(f.c_str());
      if(!ok){ 
        std::string why = sh[w]->what[0] ? sh[w]->what : (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st)));
        if(!sh[w]->in_case) { fprintf(stderr,"worker %d died outside of any case: %s\n", w, why.c_str()); if(!(WIFEXITED(st) && (WEXITSTATUS(st)==98||WEXITSTATUS(st)==99))) return 3; }
        total.violations.push_back({"crash", sh[w]->desc, why}); total.nviolations++; 
      }
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  std::ostringstream j; j << "{\n \"violations\": [";
  for(size_t i=0;i<total.violations.size() && i<200;i++){ auto& v=total.violations[i]; j << (i?",":"") << "\n  {\"key\":" << json(v.key) << ",\"desc\":" << json(v.desc) << ",\"msg\":" << json(v.msg) << "}"; }
  j << "],\n \"nviolations\": " << total.nviolations << ",\n \"states\": " << total.states.size() << ",\n \"transitions\": " << total.transitions
    << ",\n \"traces\": " << total.traces << ",\n \"evaluations\": " << total.evaluations << ",\n \"distinct\": " << total.distincts.size() << ",\n \"counters\": {";
  bool first=true; for(auto& k : total.counters){ j << (first?"":",") << json(k.first) << ":" << k.second; first=false; }
  j << "},\n \"samples\": ["; for(size_t i=0;i<total.samples.size() && i<8;i++) j << (i?",":"") << json(total.samples[i]);
  j << "],\n \"wall_s\": " << wall << "\n}\n";
  if(!out.empty()){ std::ofstream f(out); f << j.str(); } else std::cerr << j.str();
  return total.nviolations ? 1 : 0;
}

int DfsChooser::choose(int n, const char*){
  points++;
  if(pos < path.size()){ P& p = path[pos++]; if(p.n<0) p.n=n; int c = p.choice < n ? p.choice : 0; if(c) dev++; return c; }
  path.push_back({0, dev < bound ? n : 1}); pos++; return 0;
}
bool DfsChooser::next(){
  executions++;
  while(!path.empty()){ P& p = path.back(); if(p.choice+1 < p.n){ p.choice++; pos=0; dev=0; return true; } path.pop_back(); }
  pos=0; dev=0; return false;
}
std::string DfsChooser::str() const { std::string s; for(auto& p : path) s += std::to_string(p.choice) + ","; return s; }

} // namespace mc
