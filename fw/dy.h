// Glue between the reference model and the real dyablo classes (through their public interface)
#pragma once
#include <cmath>
#include <iostream>
#include <memory>
#include "Kokkos_Core.hpp"
#include "kokkos_shared.h"
#include "utils/mpi/GlobalMpiSession.h"
#include "amr/AMRmesh.h"
#include "amr/LightOctree.h"
#include "refmesh.h"
#include "mc.h"

namespace dy {

using dyablo::AMRmesh;

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };

/// once per worker process, before anything else
inline void init(){
  static bool done=false; if(done) return; done=true;
  static NullBuf nb; std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb);
  Kokkos::InitArguments a; a.num_threads=1; a.disable_warnings=true;
  Kokkos::initialize(a);
  dyablo::MpiComm::world();
  fmpi::on_switch = [](int r){
    static std::map<std::pair<int,int>, dyablo::MpiComm> cache;
    int n = fmpi::current_size(); (void)n;
    if(r<0){ dyablo::MpiComm::world() = dyablo::MpiComm(MPI_COMM_SELF); return; }
    auto k = std::make_pair(r,n); auto it = cache.find(k);
    if(it==cache.end()) it = cache.emplace(k, dyablo::MpiComm(MPI_COMM_WORLD)).first;
    dyablo::MpiComm::world() = it->second;
  };
}

inline std::unique_ptr<AMRmesh> make_mesh(const ref::Domain& D){
  Kokkos::Array<uint32_t,3> cg{D.coarse[0],D.coarse[1],D.dim==3?D.coarse[2]:1};
  return std::make_unique<AMRmesh>(D.dim, D.dim, std::array<bool,3>{D.per[0],D.per[1],D.per[2]}, (uint8_t)D.lmin, (uint8_t)D.lmax, cg);
}

inline ref::Oct to_oct(const ref::Domain& D, const std::array<double,3>& pos, int level){
  ref::Oct o; o.l=level; uint32_t c[3]={0,0,0};
  for(int d=0; d<D.dim; d++) c[d]=(uint32_t)std::llround(pos[d]*D.count(d,level));
  o.x=c[0]; o.y=c[1]; o.z=c[2]; return o;
}
inline ref::Oct local_oct(const AMRmesh& m, const ref::Domain& D, uint32_t i){ return to_oct(D, m.getCoordinates(i), m.getLevel(i)); }
inline ref::Oct ghost_oct(const AMRmesh& m, const ref::Domain& D, uint32_t i){ return to_oct(D, m.getCoordinatesGhost(i), m.getLevelGhost(i)); }

/// set the requested markers (given for the leaves of `rm`) on the local octants
inline void set_markers(AMRmesh& m, const ref::Mesh& rm, const std::vector<int>& mk){
  std::map<ref::Oct,int> by; for(size_t i=0;i<rm.size();i++) if(mk[i]) by[rm.leaves[i]]=mk[i];
  for(uint32_t i=0;i<m.getNumOctants();i++){ auto it=by.find(local_oct(m,rm.D,i)); if(it!=by.end()) m.setMarker(i,it->second); }
}

/// run a history on the real mesh; rm is the evolving reference mesh
inline void apply(AMRmesh& m, ref::Mesh& rm, const ref::History& h){
  for(auto& o : h){
    if(o.k==ref::Op::ADAPT){ set_markers(m,rm,o.markers); m.adapt(); rm = rm.adapt(o.markers); }
    else m.loadBalance((uint8_t)o.compact);
  }
}

} // namespace dy
