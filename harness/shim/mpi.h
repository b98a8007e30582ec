/* Minimal MPI interface implemented by the simulation host (harness/host).
 * Handles are integers.  Only used by the verification harness. */
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Group; typedef int MPI_Win;
typedef int MPI_Request; typedef int MPI_Op; typedef int MPI_Info; typedef int MPI_Fint;
typedef int MPI_Errhandler; typedef long MPI_Aint; typedef long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int vcount; } MPI_Status;
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_WIN_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_FLOAT 5
#define MPI_DOUBLE 6
#define MPI_UNSIGNED_LONG 7
#define MPI_UNSIGNED_CHAR 8
#define MPI_UNSIGNED 9
#define MPI_LONG_LONG 10
#define MPI_SHORT 11
#define MPI_INT64_T 12
#define MPI_UINT64_T 13
#define MPI_SIGNED_CHAR 14
#define MPI_UNSIGNED_LONG_LONG 15
#define MPI_INT32_T 16
#define MPI_UINT32_T 17
#define MPI_INT8_T 18
#define MPI_UINT8_T 19
#define MPI_INT16_T 20
#define MPI_UINT16_T 21
#define MPI_UNSIGNED_SHORT 22
#define MPI_AINT 23
#define MPI_CXX_BOOL 24
#define MPI_C_BOOL 25
#define MPI_OFFSET 26
#define MPI_COUNT 27
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_REPLACE 6
#define MPI_NO_OP 7
#define MPI_BOR 8
#define MPI_BAND 9
#define MPI_PROD 10
#define MPI_LXOR 11
#define MPI_BXOR 12
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_MODE_NOCHECK 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_GROUP_EMPTY 0
#define MPI_MESSAGE_NULL 0
#define MPI_MODE_NOPRECEDE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOSTORE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_COMM_TYPE_SHARED 1
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_TAG_UB 1
#define MPI_WIN_BASE 2
#define MPI_WIN_SIZE 3
#define MPI_WIN_DISP_UNIT 4
#define MPI_ERR_COMM 5
#define MPI_ERR_ARG 12
#define MPI_ERR_NO_MEM 34
typedef int MPI_Message; typedef long MPI_Offset;
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Finalize(void);
int MPI_Initialized(int*); int MPI_Query_thread(int*); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*); MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*); int MPI_Group_free(MPI_Group*);
int MPI_Group_size(MPI_Group, int*); int MPI_Group_rank(MPI_Group, int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*); int MPI_Free_mem(void*);
int MPI_Get_processor_name(char*, int*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*); int MPI_Win_free(MPI_Win*);
int MPI_Win_lock(int, int, int, MPI_Win); int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win); int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win); int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win); int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_sync(MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void*, const void*, void*, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Finalized(int*); int MPI_Is_thread_main(int*); int MPI_Get_version(int*, int*); double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Error_string(int, char*, int*); int MPI_Error_class(int, int*); int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info, const char*, const char*); int MPI_Info_free(MPI_Info*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*); int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Comm_set_name(MPI_Comm, const char*); int MPI_Comm_get_name(MPI_Comm, char*, int*); int MPI_Comm_test_inter(MPI_Comm, int*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*); int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*); int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*); int MPI_Group_compare(MPI_Group, MPI_Group, int*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*); int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*); int MPI_Request_get_status(MPI_Request, int*, MPI_Status*); int MPI_Cancel(MPI_Request*); int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*); int MPI_Improbe(int, int, MPI_Comm, int*, MPI_Message*, MPI_Status*);
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*); int MPI_Get_address(const void*, MPI_Aint*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype*);
int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_hindexed(int, const int*, const MPI_Aint*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype*); int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*); int MPI_Type_set_name(MPI_Datatype, const char*);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void*, MPI_Win*); int MPI_Win_fence(int, MPI_Win);
int MPI_Win_get_group(MPI_Win, MPI_Group*); int MPI_Win_get_attr(MPI_Win, int, void*, int*); int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler); int MPI_Win_set_name(MPI_Win, const char*);
int MPI_Get_accumulate(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Rget(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Rput(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
#ifdef __cplusplus
}
#endif
#endif
