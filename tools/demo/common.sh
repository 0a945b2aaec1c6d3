# compiles $1.cpp (beside this file) against the library built in /repo/_build and runs it with $2 processes
HERE="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT
S=/repo/core/src; O=/usr/lib/x86_64-linux-gnu/openmpi
build() {
  g++ -O1 -w -std=c++17 -fopenmp -include /opt/vp/kokkos37_compat.h -DBITPIT_ENABLE_MPI -DKOKKOS_DEPENDENCE -DNDEBUG -DDYABLO_USE_HDF5 -DDYABLO_USE_HDF5_PARALLEL \
    -DDYABLO_USE_DOUBLE -DDYABLO_USE_MPI -I/usr/include/hdf5/openmpi -I$S -I$S/utils/mpi -I$S/utils -I$S/utils/config/inih -I$S/utils/monitoring \
    -isystem $O/include -isystem $O/include/openmpi -I"$HERE" "$HERE/$1.cpp" -o "$T/$1" -Wl,--whole-archive /repo/_build/src/libdyablo_core.a -Wl,--no-whole-archive /repo/_build/src/utils/*/*.a \
    -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi:$O/lib /usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so $O/lib/libmpi_cxx.so $O/lib/libmpi.so \
    /usr/lib/x86_64-linux-gnu/libkokkoscontainers.so.3.7.01 /usr/lib/x86_64-linux-gnu/libkokkoscore.so.3.7.01 -ldl -lm -lpthread
}
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated \
  OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=1 OMP_PROC_BIND=false OMP_WAIT_POLICY=passive
run() { n=$1; p=$2; shift 2; (cd "$T" && TMPDIR="$T" timeout 120 mpiexec -np "$n" "$T/$p" "$@"); }
