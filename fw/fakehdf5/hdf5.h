// In-memory parallel HDF5 used by the model-checking harnesses: only what dyablo uses, same semantics as
// HDF5 1.10 with the MPI-IO driver (collective metadata operations, hyperslab selections, zero fill value).
#pragma once
#include <mpi.h>
#include <cstdint>
#include <cstddef>
typedef int64_t hid_t; typedef unsigned long long hsize_t; typedef long long hssize_t; typedef int herr_t; typedef int htri_t;
enum : hid_t { H5P_DEFAULT=0, H5P_FILE_ACCESS=1, H5P_DATASET_CREATE=2, H5P_DATASET_ACCESS=3, H5P_DATASET_XFER=4, H5P_ATTRIBUTE_CREATE=5, H5P_FILE_CREATE=6 };
enum : hid_t { H5S_ALL=0 };
enum : hid_t { H5T_NATIVE_FLOAT=101, H5T_NATIVE_DOUBLE, H5T_NATIVE_UINT8, H5T_NATIVE_UINT16, H5T_NATIVE_UINT32, H5T_NATIVE_UINT64, H5T_NATIVE_INT8, H5T_NATIVE_INT16, H5T_NATIVE_INT32, H5T_NATIVE_INT64 };
#define H5T_NATIVE_INT H5T_NATIVE_INT32
#define H5T_NATIVE_UINT H5T_NATIVE_UINT32
enum { H5F_ACC_RDONLY=0, H5F_ACC_RDWR=1, H5F_ACC_TRUNC=2, H5F_ACC_EXCL=4 };
enum H5F_scope_t { H5F_SCOPE_LOCAL, H5F_SCOPE_GLOBAL };
enum H5S_class_t { H5S_SCALAR, H5S_SIMPLE, H5S_NULL };
enum H5S_seloper_t { H5S_SELECT_SET };
enum H5FD_mpio_xfer_t { H5FD_MPIO_INDEPENDENT, H5FD_MPIO_COLLECTIVE };
enum H5_index_t { H5_INDEX_NAME, H5_INDEX_CRT_ORDER };
enum H5_iter_order_t { H5_ITER_INC, H5_ITER_DEC, H5_ITER_NATIVE };
struct H5L_info_t { int type; };
typedef herr_t (*H5L_iterate_t)(hid_t,const char*,const H5L_info_t*,void*);
hid_t H5Pcreate(hid_t cls); herr_t H5Pclose(hid_t);
herr_t H5Pset_fapl_mpio(hid_t,MPI_Comm,MPI_Info); herr_t H5Pset_dxpl_mpio(hid_t,H5FD_mpio_xfer_t);
hid_t H5Fcreate(const char*,unsigned,hid_t,hid_t); hid_t H5Fopen(const char*,unsigned,hid_t); herr_t H5Fflush(hid_t,H5F_scope_t); herr_t H5Fclose(hid_t);
hid_t H5Screate(H5S_class_t); hid_t H5Screate_simple(int,const hsize_t*,const hsize_t*); herr_t H5Sclose(hid_t);
int H5Sget_simple_extent_ndims(hid_t); int H5Sget_simple_extent_dims(hid_t,hsize_t*,hsize_t*);
herr_t H5Sselect_hyperslab(hid_t,H5S_seloper_t,const hsize_t*,const hsize_t*,const hsize_t*,const hsize_t*);
hid_t H5Gcreate2(hid_t,const char*,hid_t,hid_t,hid_t); hid_t H5Gopen2(hid_t,const char*,hid_t); herr_t H5Gclose(hid_t);
#define H5Gcreate H5Gcreate2
#define H5Gopen H5Gopen2
htri_t H5Lexists(hid_t,const char*,hid_t);
herr_t H5Literate(hid_t,H5_index_t,H5_iter_order_t,hsize_t*,H5L_iterate_t,void*);
hid_t H5Dcreate2(hid_t,const char*,hid_t,hid_t,hid_t,hid_t,hid_t); hid_t H5Dopen2(hid_t,const char*,hid_t); herr_t H5Dclose(hid_t); hid_t H5Dget_space(hid_t);
herr_t H5Dwrite(hid_t,hid_t,hid_t,hid_t,hid_t,const void*); herr_t H5Dread(hid_t,hid_t,hid_t,hid_t,hid_t,void*);
hid_t H5Acreate2(hid_t,const char*,hid_t,hid_t,hid_t,hid_t); hid_t H5Aopen(hid_t,const char*,hid_t); herr_t H5Awrite(hid_t,hid_t,const void*); herr_t H5Aread(hid_t,hid_t,void*); herr_t H5Aclose(hid_t);
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace fh5 {
struct Obj { hid_t type=0; std::vector<hsize_t> dims; std::vector<char> data; std::vector<int> writes; bool dataset=false; std::map<std::string,std::shared_ptr<Obj>> kids, attrs; size_t n() const { size_t r=1; for(auto d : dims) r*=d; return r; } };
struct File { std::shared_ptr<Obj> root=std::make_shared<Obj>(); bool complete=false; int open=0; };
std::map<std::string,File>& files();        // by path given to H5Fcreate
std::shared_ptr<Obj> find(std::shared_ptr<Obj> o,const std::string& path);
std::vector<double> doubles(const Obj&);    // elements converted to double
uint64_t& ops();                            // operations executed so far
extern int64_t crash_at;                    // operation number that never happens (-1: none)
void reset();                               // forgets ids and files
}
