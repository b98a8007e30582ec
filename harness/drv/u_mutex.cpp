// Driver of mpi::Mutex (and mpi::MPIComm's tags).
#include "asagi.h"
#include <cassert>
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mpicomm.h"
#include "mpi/mutex.h"
#include "script.h"

static numa::Numa* nu;
static numa::NumaComm* nc;
static mpi::MPIComm* cm[2];
static mpi::Mutex* mx[6];
static MPI_Win win[6];
static long* mem[6];
static int tids[32];
static pthread_mutex_t wm[6];

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	int k = a.size() > 1 ? atoi(a[1].c_str()) : 0;
	int n = a.size() > 2 ? atoi(a[2].c_str()) : 0;
	if (op == "numa") { nu = new numa::Numa(); nu->setThreads(team); }
	else if (op == "reg") { bool m; nu->registerThread(m, k != 0); if (m) { numa::NumaComm* c = nu->createComm(); if (nu->domainId() == 0) nc = c; } tids[t] = nu->threadId(); }
	else if (op == "comm") { cm[k] = new mpi::MPIComm(); cm[k]->init(MPI_COMM_WORLD); }
	else if (op == "tags") { int v = cm[k]->reserveTags(n); Ev("tags", t)("c", k)("n", n)("v", v); }
	else if (op == "mnew") {      // mutex, communicator, places per rank
		int s = atoi(a[3].c_str());
		MPI_Alloc_mem(s * sizeof(long), MPI_INFO_NULL, &mem[k]);
		for (int i = 0; i < s; i++) mpi::Mutex::initMutexMem(mem[k][i]);
		MPI_Win_create(mem[k], s * sizeof(long), sizeof(long), MPI_INFO_NULL, cm[n]->comm(), &win[k]);
		pthread_mutex_init(&wm[k], 0);
		MPI_Barrier(MPI_COMM_WORLD);
		mx[k] = new mpi::Mutex();
		mx[k]->init(*cm[n], win[k], *nc);
	}
	else if (op == "mdel") { delete mx[k]; MPI_Win_free(&win[k]); MPI_Free_mem(mem[k]); }
	else if (op == "cdel") { delete cm[k]; }
	else if (op == "ndel") { delete nc; delete nu; }
	else if (op == "cs") {      // mutex, rank, offset, work: critical section
		int off = atoi(a[3].c_str()), w = atoi(a[4].c_str());
		long p = (k * 8 + n) * 8 + off;
		Ev("ask", t)("p", p);
		// the window is locked exclusively around acquire and release, by one thread of a process at a time
		pthread_mutex_lock(&wm[k]);
		MPI_Win_lock(MPI_LOCK_EXCLUSIVE, n, 0, win[k]);
		long old = mx[k]->acquire(n, off);
		MPI_Win_unlock(n, win[k]);
		pthread_mutex_unlock(&wm[k]);
		mx[k]->wait(old);
		Ev("in", t)("p", p);
		for (int i = 0; i < w; i++) verif_yield();
		Ev("rel", t)("p", p);
		pthread_mutex_lock(&wm[k]);
		MPI_Win_lock(MPI_LOCK_EXCLUSIVE, n, 0, win[k]);
		mx[k]->release(n, off);
		MPI_Win_unlock(n, win[k]);
		pthread_mutex_unlock(&wm[k]);
		Ev("reld", t)("p", p);
	}
}
