/* the numbers of types and errors as a C program sees them */
#include <asagi.h>
static const int v[] = {ASAGI_BYTE, ASAGI_INT, ASAGI_LONG, ASAGI_FLOAT, ASAGI_DOUBLE, ASAGI_SUCCESS, ASAGI_MPI_ERROR, ASAGI_THREAD_ERROR, ASAGI_NUMA_ERROR, ASAGI_UNKNOWN_PARAM, ASAGI_INVALID_VALUE, ASAGI_NOT_INITIALIZED, ASAGI_ALREADY_INITIALIZED, ASAGI_NOT_OPEN, ASAGI_VAR_NOT_FOUND, ASAGI_WRONG_SIZE, ASAGI_UNSUPPORTED_DIMENSIONS, ASAGI_INVALID_VAR_SIZE};
static const char* const n[] = {"BYTE", "INT", "LONG", "FLOAT", "DOUBLE", "SUCCESS", "MPI_ERROR", "THREAD_ERROR", "NUMA_ERROR", "UNKNOWN_PARAM", "INVALID_VALUE", "NOT_INITIALIZED", "ALREADY_INITIALIZED", "NOT_OPEN", "VAR_NOT_FOUND", "WRONG_SIZE", "UNSUPPORTED_DIMENSIONS", "INVALID_VAR_SIZE"};
int c_const(int i) { return v[i]; }
const char* c_name(int i) { return n[i]; }
