/* mpi.h of the model MPI used by the conformance harness in /verif.
 * Every handle is an int.  See mockmpi.c for the semantics. */
#ifndef VERIF_MOCK_MPI_H
#define VERIF_MOCK_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifdef MOCK_OPEN_MPI
# define OPEN_MPI 1
# define OMPI_MAJOR_VERSION MOCK_OPEN_MPI
# define OMPI_MINOR_VERSION 1
# define OMPI_RELEASE_VERSION 6
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Group; typedef int MPI_Datatype; typedef int MPI_Request;
typedef int MPI_Win; typedef int MPI_Info; typedef int MPI_Op; typedef int MPI_Errhandler; typedef int MPI_Message;
typedef ptrdiff_t MPI_Aint; typedef long long MPI_Count; typedef long long MPI_Offset; typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long nbytes_; int cancelled_; } MPI_Status;
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_BOTTOM ((void*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_SUCCESS 0
enum { MPI_ERR_BUFFER=1, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM, MPI_ERR_RANK, MPI_ERR_REQUEST,
 MPI_ERR_ROOT, MPI_ERR_GROUP, MPI_ERR_OP, MPI_ERR_TOPOLOGY, MPI_ERR_DIMS, MPI_ERR_ARG, MPI_ERR_UNKNOWN, MPI_ERR_TRUNCATE,
 MPI_ERR_OTHER, MPI_ERR_INTERN, MPI_ERR_IN_STATUS, MPI_ERR_PENDING, MPI_ERR_WIN, MPI_ERR_NO_MEM, MPI_ERR_RMA_RANGE, MPI_ERR_RMA_SYNC, MPI_ERR_LASTCODE=100 };
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_GROUP_EMPTY 1
#define MPI_REQUEST_NULL 0
#define MPI_WIN_NULL 0
#define MPI_INFO_NULL 0
#define MPI_INFO_ENV 1
#define MPI_OP_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_ERRHANDLER_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_INFO_KEY 64
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_TAG_UB 1
#define MPI_WTIME_IS_GLOBAL 2
#define MPI_UNIVERSE_SIZE 3
#define MPI_KEYVAL_INVALID (-1)
enum { MPI_WIN_BASE=11, MPI_WIN_SIZE, MPI_WIN_DISP_UNIT, MPI_WIN_CREATE_FLAVOR, MPI_WIN_MODEL };
enum { MPI_WIN_SEPARATE=1, MPI_WIN_UNIFIED=2 };
enum { MPI_WIN_FLAVOR_CREATE=1, MPI_WIN_FLAVOR_ALLOCATE, MPI_WIN_FLAVOR_DYNAMIC, MPI_WIN_FLAVOR_SHARED };
enum { MPI_LOCK_EXCLUSIVE=1, MPI_LOCK_SHARED=2 };
enum { MPI_MODE_NOCHECK=1, MPI_MODE_NOPRECEDE=2, MPI_MODE_NOPUT=4, MPI_MODE_NOSTORE=8, MPI_MODE_NOSUCCEED=16 };
enum { MPI_IDENT=0, MPI_CONGRUENT, MPI_SIMILAR, MPI_UNEQUAL };
enum { MPI_THREAD_SINGLE=0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_ORDER_C=0, MPI_ORDER_FORTRAN=1 };
enum { MPI_COMM_TYPE_SHARED=1 };
enum { MPI_COMBINER_NAMED=1, MPI_COMBINER_DUP, MPI_COMBINER_CONTIGUOUS };
/* basic datatypes */
enum { MPI_CHAR=1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED,
 MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG_INT, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE,
 MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_UINT8_T, MPI_UINT16_T, MPI_UINT32_T, MPI_UINT64_T,
 MPI_C_FLOAT_COMPLEX, MPI_C_DOUBLE_COMPLEX, MPI_C_BOOL, MPI_AINT, MPI_OFFSET, MPI_COUNT, MPI_PACKED, MPI_WCHAR,
 MPI_2INT, MPI_FLOAT_INT, MPI_DOUBLE_INT, MPI_LONG_INT, MPI_COMPLEX, MPI_DOUBLE_COMPLEX, MPI_INTEGER, MPI_REAL, MPI_DOUBLE_PRECISION, MPI_CHARACTER, MPI_LOGICAL,
 MPI_MOCK_NBASIC };
#define MPI_LONG_LONG MPI_LONG_LONG_INT
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
/* ops */
enum { MPI_MAX=1, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC, MPI_REPLACE, MPI_NO_OP, MPI_MOCK_NOPS };
typedef void MPI_User_function(void*, void*, int*, MPI_Datatype*);
typedef int MPI_Comm_copy_attr_function(MPI_Comm, int, void*, void*, void*, int*);
typedef int MPI_Comm_delete_attr_function(MPI_Comm, int, void*, void*);
typedef void MPI_Comm_errhandler_function(MPI_Comm*, int*, ...);
typedef void MPI_Win_errhandler_function(MPI_Win*, int*, ...);
#define MPI_COMM_NULL_COPY_FN ((MPI_Comm_copy_attr_function*)0)
#define MPI_COMM_NULL_DELETE_FN ((MPI_Comm_delete_attr_function*)0)

int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Finalize(void); int MPI_Query_thread(int*); int MPI_Is_thread_main(int*); int MPI_Abort(MPI_Comm,int) __attribute__((noreturn));
int MPI_Get_version(int*,int*); int MPI_Get_library_version(char*,int*); int MPI_Get_processor_name(char*,int*);
double MPI_Wtime(void); double MPI_Wtick(void); int MPI_Error_string(int,char*,int*); int MPI_Error_class(int,int*);
int MPI_Pcontrol(const int,...);
/* comm */
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_remote_size(MPI_Comm,int*); int MPI_Comm_test_inter(MPI_Comm,int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_dup_with_info(MPI_Comm,MPI_Info,MPI_Comm*); int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*); int MPI_Comm_create_group(MPI_Comm,MPI_Group,int,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*); int MPI_Comm_split_type(MPI_Comm,int,int,MPI_Info,MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_disconnect(MPI_Comm*);
int MPI_Comm_group(MPI_Comm,MPI_Group*); int MPI_Comm_remote_group(MPI_Comm,MPI_Group*); int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
int MPI_Intercomm_create(MPI_Comm,int,MPI_Comm,int,int,MPI_Comm*); int MPI_Intercomm_merge(MPI_Comm,int,MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler); int MPI_Comm_get_errhandler(MPI_Comm,MPI_Errhandler*); int MPI_Comm_get_attr(MPI_Comm,int,void*,int*); int MPI_Comm_set_name(MPI_Comm,const char*); int MPI_Comm_get_name(MPI_Comm,char*,int*);
int MPI_Comm_set_info(MPI_Comm,MPI_Info); int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*,MPI_Comm_delete_attr_function*,int*,void*); int MPI_Comm_free_keyval(int*); int MPI_Comm_set_attr(MPI_Comm,int,void*); int MPI_Comm_delete_attr(MPI_Comm,int);
/* group */
int MPI_Group_size(MPI_Group,int*); int MPI_Group_rank(MPI_Group,int*); int MPI_Group_translate_ranks(MPI_Group,int,const int[],MPI_Group,int[]); int MPI_Group_compare(MPI_Group,MPI_Group,int*);
int MPI_Group_incl(MPI_Group,int,const int[],MPI_Group*); int MPI_Group_excl(MPI_Group,int,const int[],MPI_Group*); int MPI_Group_range_incl(MPI_Group,int,int[][3],MPI_Group*);
int MPI_Group_union(MPI_Group,MPI_Group,MPI_Group*); int MPI_Group_intersection(MPI_Group,MPI_Group,MPI_Group*); int MPI_Group_difference(MPI_Group,MPI_Group,MPI_Group*); int MPI_Group_free(MPI_Group*);
/* p2p */
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Sendrecv_replace(void*,int,MPI_Datatype,int,int,int,int,MPI_Comm,MPI_Status*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*); int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*); int MPI_Get_elements(const MPI_Status*,MPI_Datatype,int*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request[],MPI_Status[]); int MPI_Waitany(int,MPI_Request[],int*,MPI_Status*); int MPI_Waitsome(int,MPI_Request[],int*,int[],MPI_Status[]);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request[],int*,MPI_Status[]); int MPI_Testany(int,MPI_Request[],int*,int*,MPI_Status*); int MPI_Testsome(int,MPI_Request[],int*,int[],MPI_Status[]);
int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*); int MPI_Test_cancelled(const MPI_Status*,int*); int MPI_Request_get_status(MPI_Request,int*,MPI_Status*);
/* collectives */
int MPI_Barrier(MPI_Comm); int MPI_Ibarrier(MPI_Comm,MPI_Request*); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Reduce_scatter_block(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Reduce_local(const void*,void*,int,MPI_Datatype,MPI_Op);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int[],const int[],MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int[],const int[],MPI_Datatype,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Scatterv(const void*,const int[],const int[],MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Alltoallv(const void*,const int[],const int[],MPI_Datatype,void*,const int[],const int[],MPI_Datatype,MPI_Comm);
int MPI_Op_create(MPI_User_function*,int,MPI_Op*); int MPI_Op_free(MPI_Op*); int MPI_Op_commutative(MPI_Op,int*);
/* datatypes */
int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*); int MPI_Type_vector(int,int,int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*);
int MPI_Type_indexed(int,const int[],const int[],MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed(int,const int[],const MPI_Aint[],MPI_Datatype,MPI_Datatype*); int MPI_Type_hindexed(int,int[],MPI_Aint[],MPI_Datatype,MPI_Datatype*); int MPI_Type_hvector(int,int,MPI_Aint,MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_indexed_block(int,int,const int[],MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed_block(int,int,const MPI_Aint[],MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_struct(int,const int[],const MPI_Aint[],const MPI_Datatype[],MPI_Datatype*); int MPI_Type_create_subarray(int,const int[],const int[],const int[],int,MPI_Datatype,MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype,MPI_Aint,MPI_Aint,MPI_Datatype*); int MPI_Type_dup(MPI_Datatype,MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype,int*); int MPI_Type_size_x(MPI_Datatype,MPI_Count*); int MPI_Type_get_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*); int MPI_Type_get_true_extent(MPI_Datatype,MPI_Aint*,MPI_Aint*);
int MPI_Type_get_extent_x(MPI_Datatype,MPI_Count*,MPI_Count*); int MPI_Type_get_true_extent_x(MPI_Datatype,MPI_Count*,MPI_Count*); int MPI_Type_extent(MPI_Datatype,MPI_Aint*); int MPI_Type_lb(MPI_Datatype,MPI_Aint*); int MPI_Type_ub(MPI_Datatype,MPI_Aint*);
int MPI_Type_get_envelope(MPI_Datatype,int*,int*,int*,int*); int MPI_Type_set_name(MPI_Datatype,const char*); int MPI_Type_get_name(MPI_Datatype,char*,int*);
int MPI_Get_address(const void*,MPI_Aint*); int MPI_Address(void*,MPI_Aint*); MPI_Aint MPI_Aint_add(MPI_Aint,MPI_Aint); MPI_Aint MPI_Aint_diff(MPI_Aint,MPI_Aint);
int MPI_Pack(const void*,int,MPI_Datatype,void*,int,int*,MPI_Comm); int MPI_Unpack(const void*,int,int*,void*,int,MPI_Datatype,MPI_Comm); int MPI_Pack_size(int,MPI_Datatype,MPI_Comm,int*);
/* rma */
int MPI_Win_create(void*,MPI_Aint,int,MPI_Info,MPI_Comm,MPI_Win*); int MPI_Win_allocate(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*); int MPI_Win_allocate_shared(MPI_Aint,int,MPI_Info,MPI_Comm,void*,MPI_Win*); int MPI_Win_shared_query(MPI_Win,int,MPI_Aint*,int*,void*);
int MPI_Win_free(MPI_Win*); int MPI_Win_get_attr(MPI_Win,int,void*,int*); int MPI_Win_get_group(MPI_Win,MPI_Group*); int MPI_Win_set_info(MPI_Win,MPI_Info); int MPI_Win_get_info(MPI_Win,MPI_Info*); int MPI_Win_set_name(MPI_Win,const char*); int MPI_Win_get_name(MPI_Win,char*,int*); int MPI_Win_set_errhandler(MPI_Win,MPI_Errhandler);
int MPI_Win_fence(int,MPI_Win); int MPI_Win_lock(int,int,int,MPI_Win); int MPI_Win_unlock(int,MPI_Win); int MPI_Win_lock_all(int,MPI_Win); int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int,MPI_Win); int MPI_Win_flush_all(MPI_Win); int MPI_Win_flush_local(int,MPI_Win); int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_sync(MPI_Win);
int MPI_Put(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win); int MPI_Get(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win);
int MPI_Accumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Get_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win);
int MPI_Fetch_and_op(const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Op,MPI_Win); int MPI_Compare_and_swap(const void*,const void*,void*,MPI_Datatype,int,MPI_Aint,MPI_Win);
int MPI_Rput(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*); int MPI_Rget(void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Win,MPI_Request*);
int MPI_Raccumulate(const void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
int MPI_Rget_accumulate(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Aint,int,MPI_Datatype,MPI_Op,MPI_Win,MPI_Request*);
/* info, mem */
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info,const char*,const char*); int MPI_Info_get(MPI_Info,const char*,int,char*,int*); int MPI_Info_free(MPI_Info*); int MPI_Info_dup(MPI_Info,MPI_Info*); int MPI_Info_delete(MPI_Info,const char*); int MPI_Info_get_nkeys(MPI_Info,int*);
int MPI_Alloc_mem(MPI_Aint,MPI_Info,void*); int MPI_Free_mem(void*);
MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
