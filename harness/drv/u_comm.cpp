// Driver of mpi::CommThread.
#include "asagi.h"
#include <cassert>
#include "mpi/mpicomm.h"
#include "mpi/commthread.h"
#include "script.h"

static MPI_Comm comms[4] = {MPI_COMM_NULL, MPI_COMM_NULL, MPI_COMM_NULL, MPI_COMM_NULL};
static std::string code(int c)
{
	return c == asagi::Grid::SUCCESS ? "ok" : c == asagi::Grid::ALREADY_INITIALIZED ? "already" : c == asagi::Grid::NOT_INITIALIZED ? "notinit" : its(c);
}
struct Rec : mpi::Receiver {
	int j, work;
	volatile int got;
	int tag, answer;       // answer: receiver number whose sender gets an answer, or -1
	bool alive;
	Rec() : j(0), work(0), got(0), tag(-1), answer(-1), alive(false) {}
	void recv(int sender, mpi::message_t data);
};
static Rec recs[40];
static void doSend(int t, int j, int dest, unsigned long data)
{
	Ev("sendb", t)("j", j)("dest", dest)("v", data);
	mpi::CommThread::commThread.send(recs[j].tag, dest, data);
	Ev("send", t)("j", j)("dest", dest)("v", data);
}
void Rec::recv(int sender, mpi::message_t data)
{
	Ev("recv", verif_thread() + 1000)("j", j)("from", sender)("v", data)("alive", alive);
	for (int i = 0; i < work; i++) verif_yield();
	if (answer >= 0 && data < 100000) doSend(verif_thread() + 1000, answer, sender, data + 100000);
	Ev("recvd", verif_thread() + 1000)("j", j)("v", data);
	got++;
}

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	int k = a.size() > 1 ? atoi(a[1].c_str()) : 0;
	int n = a.size() > 2 ? atoi(a[2].c_str()) : 0;
	if (op == "comm") {      // number, how: 0 world order, 1 reversed, 2 odd/even, 3 self, 4 rotated
		MPI_Comm_split(MPI_COMM_WORLD, n == 2 ? myRank % 2 : n == 3 ? myRank : 0, n == 1 ? -myRank + 100 : n == 4 ? (myRank + 1) % nRanks : myRank, &comms[k]);
		int r, s;
		MPI_Comm_rank(comms[k], &r); MPI_Comm_size(comms[k], &s);
		Ev("comm", t)("k", k)("c", n == 2 ? myRank % 2 : n == 3 ? myRank : 0)("rank", r)("size", s);
	}
	else if (op == "freecomm") { MPI_Comm_free(&comms[k]); }
	else if (op == "start") {      // cpu, communicator (-1: default argument)
		Ev("startb", t)("cpu", k)("k", n);
		int e = n < 0 ? mpi::CommThread::commThread.init(k) : mpi::CommThread::commThread.init(k, comms[n]);
		Ev("start", t).str("code", code(e));
	}
	else if (op == "stop") { Ev("stopb", t); mpi::CommThread::commThread.finialize(); Ev("stop", t); }
	else if (op == "reg") {      // receiver, communicator, work, answer
		Rec& r = recs[k];
		r.j = k; r.work = atoi(a[3].c_str()); r.answer = a.size() > 4 ? atoi(a[4].c_str()) : -1; r.got = 0;
		r.alive = true;
		Ev("regb", t)("j", k)("k", n);
		int e = mpi::CommThread::commThread.registerReceiver(comms[n], r, r.tag);
		if (e) r.alive = false;
		Ev("reg", t)("j", k)("k", n)("tag", r.tag).str("code", code(e));
	}
	else if (op == "unreg") {
		Ev("unregb", t)("j", k);
		mpi::CommThread::commThread.unregisterReceiver(recs[k].tag);
		Ev("unreg", t)("j", k);
		recs[k].alive = false;
	}
	else if (op == "send") doSend(t, k, n, atol(a[3].c_str()));
	else if (op == "await") verif_await(&recs[k].got, n);
}
