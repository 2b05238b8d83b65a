"""mkseed(id, property, [(file, old, new), ...], needs, breaks, demo_cpp, np): write /verif/seeded/<id>/ from string replacements on /repo's HEAD."""
import os, subprocess, json, shutil, tempfile
DEMO_SH = r'''#!/bin/bash
# usage: demo.sh (cwd /repo, after the build). Exit 0: behaviour as expected; nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=1 OMP_PROC_BIND=false OMP_WAIT_POLICY=passive
S=$R/core/src
mpicxx -std=c++17 -O1 -DNDEBUG -w -fopenmp -DDYABLO_USE_HDF5 -DDYABLO_USE_HDF5_PARALLEL -DDYABLO_USE_DOUBLE -DDYABLO_USE_MPI -DBITPIT_ENABLE_MPI -DKOKKOS_DEPENDENCE \
  -include /opt/vp/kokkos37_compat.h -I/usr/include/hdf5/openmpi -I$S -I$S/utils -I$S/utils/mpi -I$S/utils/config/inih -I$S/utils/monitoring -I"$D" \
  "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $B/src/libdyablo_core.a $B/src/utils/config/libconfig.a $B/src/utils/monitoring/libmonitoring.a $B/src/utils/misc/libmisc.a $B/src/utils/mpi/libmpiUtils.a -Wl,--end-group \
  -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lkokkoscontainers -lkokkoscore -ldl -lpthread > "$T/log" 2>&1 || { tail -20 "$T/log"; echo "demo does not compile"; exit 2; }
cd "$T" && timeout 120 mpirun -np @NP@ "$T/demo" > "$T/out" 2>&1; r=$?
tail -15 "$T/out"; exit $r
'''
HEAD = r'''#include "Kokkos_Core.hpp"
#include "DyabloSession.hpp"
#include "amr/AMRmesh.h"
#include "UserData.h"
#include <cstdio>
#include <cstdlib>
using namespace dyablo;
static int bad = 0;
#define CHECK(c, ...) do { if(!(c)) { bad++; std::printf("FAILED %s : ", #c); std::printf(__VA_ARGS__); std::printf("\n"); } } while(0)
static int finish(){ int g=0; MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); if(g==0) std::printf("OK\n"); std::fflush(stdout); return g?1:0; }
'''
def mkseed(id, prop, edits, needs, breaks, demo, np=1, sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", os.environ.get("DYABLO_REPO", "/repo"), t + "/w"])
    try:
        for f, old, new in edits:
            p = os.path.join(t, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True)
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write((sh or DEMO_SH).replace("@NP@", str(np)))
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None: open(d + "/demo.cpp", "w").write(HEAD + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print(id, len(diff.splitlines()))
