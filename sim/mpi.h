/* Simulated MPI: declarations.  Implemented by sim.cpp inside one process. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Fint;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef long long MPI_Count;
typedef long long MPI_Offset;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long long sim_bytes; int sim_cancelled; } MPI_Status;
typedef void MPI_User_function(void *, void *, int *, MPI_Datatype *);

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_NULL 0x0c000001
#define MPI_COMM_WORLD 0x0c000002
#define MPI_COMM_SELF 0x0c000003
#define MPI_GROUP_NULL 0x09000001
#define MPI_GROUP_EMPTY 0x09000002
#define MPI_REQUEST_NULL 0x0b000001
#define MPI_DATATYPE_NULL 0x0d000000
#define MPI_OP_NULL 0x0e000000
#define MPI_INFO_NULL 0x0f000001
#define MPI_ERRHANDLER_NULL 0x0a000000
#define MPI_ERRORS_ARE_FATAL 0x0a000001
#define MPI_ERRORS_RETURN 0x0a000002

#define MPI_CHAR 0x0d000001
#define MPI_SIGNED_CHAR 0x0d000002
#define MPI_UNSIGNED_CHAR 0x0d000003
#define MPI_BYTE 0x0d000004
#define MPI_SHORT 0x0d000005
#define MPI_UNSIGNED_SHORT 0x0d000006
#define MPI_INT 0x0d000007
#define MPI_UNSIGNED 0x0d000008
#define MPI_LONG 0x0d000009
#define MPI_UNSIGNED_LONG 0x0d00000a
#define MPI_LONG_LONG 0x0d00000b
#define MPI_LONG_LONG_INT 0x0d00000b
#define MPI_UNSIGNED_LONG_LONG 0x0d00000c
#define MPI_FLOAT 0x0d00000d
#define MPI_DOUBLE 0x0d00000e
#define MPI_LONG_DOUBLE 0x0d00000f
#define MPI_INT8_T 0x0d000010
#define MPI_INT16_T 0x0d000011
#define MPI_INT32_T 0x0d000012
#define MPI_INT64_T 0x0d000013
#define MPI_UINT8_T 0x0d000014
#define MPI_UINT16_T 0x0d000015
#define MPI_UINT32_T 0x0d000016
#define MPI_UINT64_T 0x0d000017
#define MPI_C_BOOL 0x0d000018
#define MPI_CXX_BOOL 0x0d000018
#define MPI_PACKED 0x0d000019
#define MPI_2INT 0x0d00001a
#define MPI_DOUBLE_INT 0x0d00001b
#define MPI_FLOAT_INT 0x0d00001c
#define MPI_C_FLOAT_COMPLEX 0x0d00001d
#define MPI_C_COMPLEX 0x0d00001d
#define MPI_CXX_FLOAT_COMPLEX 0x0d00001d
#define MPI_C_DOUBLE_COMPLEX 0x0d00001e
#define MPI_CXX_DOUBLE_COMPLEX 0x0d00001e
#define MPI_AINT 0x0d00001f
#define MPI_INTEGER 0x0d000007
#define MPI_REAL 0x0d00000d
#define MPI_DOUBLE_PRECISION 0x0d00000e

#define MPI_MAX 0x0e000001
#define MPI_MIN 0x0e000002
#define MPI_SUM 0x0e000003
#define MPI_PROD 0x0e000004
#define MPI_LAND 0x0e000005
#define MPI_LOR 0x0e000006
#define MPI_BAND 0x0e000007
#define MPI_BOR 0x0e000008
#define MPI_LXOR 0x0e000009
#define MPI_BXOR 0x0e00000a
#define MPI_MINLOC 0x0e00000b
#define MPI_MAXLOC 0x0e00000c

#define MPI_SUCCESS 0
#define MPI_ERR_COMM 5
#define MPI_ERR_OTHER 15
#define MPI_ERR_TRUNCATE 14
#define MPI_ERR_IN_STATUS 17
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_TAG_UB 0x64400001
#define MPI_IN_PLACE ((void *) -1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_ERRCODES_IGNORE ((int *) 0)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_COMM_TYPE_SHARED 1

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Query_thread(int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char *, int *);
int MPI_Get_version(int *, int *);
int MPI_Error_string(int, char *, int *);
int MPI_Error_class(int, int *);
int MPI_Get_address(const void *, MPI_Aint *);

int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_disconnect(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_test_inter(MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_set_name(MPI_Comm, const char *);
int MPI_Comm_get_name(MPI_Comm, char *, int *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
MPI_Fint MPI_Group_c2f(MPI_Group);
MPI_Group MPI_Group_f2c(MPI_Fint);

int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int [][3], MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_free(MPI_Group *);
int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_compare(MPI_Group, MPI_Group, int *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *);

int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Buffer_attach(void *, int);
int MPI_Buffer_detach(void *, int *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ssend_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Start(MPI_Request *);
int MPI_Startall(int, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *);
int MPI_Cancel(MPI_Request *);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoallw(const void *, const int *, const int *, const MPI_Datatype *, void *, const int *, const int *, const MPI_Datatype *, MPI_Comm);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ialltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);

int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Op_create(MPI_User_function *, int, MPI_Op *);
int MPI_Op_free(MPI_Op *);
#ifdef __cplusplus
}
#endif
#endif
