/* MPI interface of the simulator: same C API, implemented in sim/simmpi.cpp. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define SIMMPI 1
#ifdef __cplusplus
extern "C" {
#endif
typedef struct simmpi_comm* MPI_Comm;
typedef struct simmpi_type* MPI_Datatype;
typedef struct simmpi_op* MPI_Op;
typedef struct simmpi_req* MPI_Request;
typedef struct simmpi_group* MPI_Group;
typedef struct simmpi_info* MPI_Info;
typedef struct simmpi_errh* MPI_Errhandler;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Count;
typedef long long MPI_Offset;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int _cancelled; size_t _bytes; } MPI_Status;
typedef void MPI_User_function(void*, void*, int*, MPI_Datatype*);

extern struct simmpi_comm simmpi_world, simmpi_self;
#define MPI_COMM_WORLD (&simmpi_world)
#define MPI_COMM_SELF (&simmpi_self)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_OP_NULL ((MPI_Op)0)
#define MPI_GROUP_NULL ((MPI_Group)0)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)1)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)2)
#define MPI_IN_PLACE ((void*)(intptr_t)-7)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-101)
#define MPI_ANY_TAG (-102)
#define MPI_PROC_NULL (-103)
#define MPI_ROOT (-104)
#define MPI_UNDEFINED (-32766)
#define MPI_TAG_UB 0x64400001
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_COMM_TYPE_SHARED 1

#define SIMMPI_TYPES(X) \
  X(CHAR) X(SIGNED_CHAR) X(UNSIGNED_CHAR) X(BYTE) X(SHORT) X(UNSIGNED_SHORT) X(INT) X(UNSIGNED) \
  X(LONG) X(UNSIGNED_LONG) X(LONG_LONG) X(UNSIGNED_LONG_LONG) X(FLOAT) X(DOUBLE) X(LONG_DOUBLE) \
  X(INT8_T) X(UINT8_T) X(INT16_T) X(UINT16_T) X(INT32_T) X(UINT32_T) X(INT64_T) X(UINT64_T) \
  X(CXX_BOOL) X(C_BOOL) X(DOUBLE_INT) X(FLOAT_INT) X(LONG_INT) X(2INT) X(AINT) X(OFFSET) X(COUNT) X(PACKED) \
  X(C_FLOAT_COMPLEX) X(C_DOUBLE_COMPLEX)
#define X(n) extern struct simmpi_type simmpi_t_##n;
SIMMPI_TYPES(X)
#undef X
#define MPI_CHAR (&simmpi_t_CHAR)
#define MPI_SIGNED_CHAR (&simmpi_t_SIGNED_CHAR)
#define MPI_UNSIGNED_CHAR (&simmpi_t_UNSIGNED_CHAR)
#define MPI_BYTE (&simmpi_t_BYTE)
#define MPI_SHORT (&simmpi_t_SHORT)
#define MPI_UNSIGNED_SHORT (&simmpi_t_UNSIGNED_SHORT)
#define MPI_INT (&simmpi_t_INT)
#define MPI_UNSIGNED (&simmpi_t_UNSIGNED)
#define MPI_LONG (&simmpi_t_LONG)
#define MPI_UNSIGNED_LONG (&simmpi_t_UNSIGNED_LONG)
#define MPI_LONG_LONG (&simmpi_t_LONG_LONG)
#define MPI_LONG_LONG_INT (&simmpi_t_LONG_LONG)
#define MPI_UNSIGNED_LONG_LONG (&simmpi_t_UNSIGNED_LONG_LONG)
#define MPI_FLOAT (&simmpi_t_FLOAT)
#define MPI_DOUBLE (&simmpi_t_DOUBLE)
#define MPI_LONG_DOUBLE (&simmpi_t_LONG_DOUBLE)
#define MPI_INT8_T (&simmpi_t_INT8_T)
#define MPI_UINT8_T (&simmpi_t_UINT8_T)
#define MPI_INT16_T (&simmpi_t_INT16_T)
#define MPI_UINT16_T (&simmpi_t_UINT16_T)
#define MPI_INT32_T (&simmpi_t_INT32_T)
#define MPI_UINT32_T (&simmpi_t_UINT32_T)
#define MPI_INT64_T (&simmpi_t_INT64_T)
#define MPI_UINT64_T (&simmpi_t_UINT64_T)
#define MPI_CXX_BOOL (&simmpi_t_CXX_BOOL)
#define MPI_C_BOOL (&simmpi_t_C_BOOL)
#define MPI_DOUBLE_INT (&simmpi_t_DOUBLE_INT)
#define MPI_FLOAT_INT (&simmpi_t_FLOAT_INT)
#define MPI_LONG_INT (&simmpi_t_LONG_INT)
#define MPI_2INT (&simmpi_t_2INT)
#define MPI_AINT (&simmpi_t_AINT)
#define MPI_OFFSET (&simmpi_t_OFFSET)
#define MPI_COUNT (&simmpi_t_COUNT)
#define MPI_PACKED (&simmpi_t_PACKED)
#define MPI_C_COMPLEX (&simmpi_t_C_FLOAT_COMPLEX)
#define MPI_C_FLOAT_COMPLEX (&simmpi_t_C_FLOAT_COMPLEX)
#define MPI_C_DOUBLE_COMPLEX (&simmpi_t_C_DOUBLE_COMPLEX)
#define MPI_CXX_DOUBLE_COMPLEX (&simmpi_t_C_DOUBLE_COMPLEX)
#define MPI_CXX_FLOAT_COMPLEX (&simmpi_t_C_FLOAT_COMPLEX)

#define SIMMPI_OPS(X) X(SUM) X(PROD) X(MAX) X(MIN) X(LAND) X(BAND) X(LOR) X(BOR) X(LXOR) X(BXOR) X(MINLOC) X(MAXLOC) X(REPLACE)
#define X(n) extern struct simmpi_op simmpi_op_##n;
SIMMPI_OPS(X)
#undef X
#define MPI_SUM (&simmpi_op_SUM)
#define MPI_PROD (&simmpi_op_PROD)
#define MPI_MAX (&simmpi_op_MAX)
#define MPI_MIN (&simmpi_op_MIN)
#define MPI_LAND (&simmpi_op_LAND)
#define MPI_BAND (&simmpi_op_BAND)
#define MPI_LOR (&simmpi_op_LOR)
#define MPI_BOR (&simmpi_op_BOR)
#define MPI_LXOR (&simmpi_op_LXOR)
#define MPI_BXOR (&simmpi_op_BXOR)
#define MPI_MINLOC (&simmpi_op_MINLOC)
#define MPI_MAXLOC (&simmpi_op_MAXLOC)
#define MPI_REPLACE (&simmpi_op_REPLACE)

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Query_thread(int*);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);

int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);

int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter(const void*, void*, const int*, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Iallgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Reduce_local(const void*, void*, int, MPI_Datatype, MPI_Op);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
#ifdef __cplusplus
}
#endif
#endif
