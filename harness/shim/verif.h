/* Interface between a driver (an ordinary multi-threaded MPI program linked with
 * the code under test) and the simulation host. */
#ifndef VERIF_H
#define VERIF_H
#ifdef __cplusplus
extern "C" {
#endif
void verif_event(const char* json);          /* append one JSON object to the trace */
int verif_rank(void);                        /* world rank of the calling simulated thread */
int verif_nranks(void);
int verif_thread(void);                      /* id of the simulated thread */
void verif_set_cpu(int cpu, int node);       /* CPU / NUMA node reported to this thread */
void verif_yield(void);
void verif_barrier(const char* name, int n);   /* reusable barrier of n simulated threads (any rank) */
void verif_await(volatile int* p, int atleast);
unsigned verif_rand(void);                   /* schedule-independent driver randomness */
long verif_stat(const char* what);           /* live_mem live_comm live_win live_type live_group live_file live_key live_thread ... */
void verif_log(int level, const char* text);
void verif_set(const char* key, long value);  /* tune the simulator from within a driver */
long verif_blocked(int thread);              /* 1: that simulated thread is blocked, -1: finished */
/* entry point of a driver: run once per rank */
void rank_main(int rank, int nranks, const char* scenario);
#ifdef __cplusplus
}
#endif
#endif
