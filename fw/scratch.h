// Scratch directory of this worker: the code under test writes files with paths relative to it
#pragma once
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
namespace dy {
inline std::string scratch(){ static std::string d; if(d.empty()){ const char* e=getenv("VERIF_SCRATCH"); d=std::string(e?e:"/tmp")+"/w"+std::to_string(getpid()); mkdir(d.c_str(),0700); if(chdir(d.c_str())) abort(); } return d; }
inline void scratch_clear(){ for(auto& p : std::filesystem::directory_iterator(scratch())) std::filesystem::remove_all(p.path()); }
inline std::string slurp(const std::string& f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
inline bool exists(const std::string& f){ return access(f.c_str(),F_OK)==0; }
}
