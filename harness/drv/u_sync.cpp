// Driver of threads::Sync and threads::Once.
#include "asagi.h"
#include "threads/sync.h"
#include "threads/once.h"
#include "script.h"

static threads::Sync* syn[8];
struct Val { long a, b, c; };
struct Obj {
	volatile long x, y;
	int k;
	void f()
	{
		Ev("execb", -1)("k", k);
		x++;
		for (int i = 0; i < 4; i++) verif_yield();
		y++;
		Ev("exece", -1)("k", k);
	}
};
static Obj obj[8];
static threads::Once* once[8];

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	int k = a.size() > 1 ? atoi(a[1].c_str()) : 0;
	int n = a.size() > 2 ? atoi(a[2].c_str()) : 0;
	if (op == "snew") syn[k] = new threads::Sync();
	else if (op == "sdel") { delete syn[k]; syn[k] = 0; }
	else if (op == "sbar") {       // object, participants
		Ev("inb", t)("k", k)("n", n)("root", -1)("v", 0)("x", 0)("last", 0);
		bool r = syn[k]->barrier(n);
		Ev("out", t)("k", k)("ok", r)("v", 0);
	}
	else if (op == "phase") {      // object, participants, last
		int last = atoi(a[3].c_str());
		Ev("inb", t)("k", k)("n", n)("root", -1)("v", 0)("x", 1)("last", last);
		bool r = syn[k]->startBarrier();
		Ev("ent", t)("k", k)("w", syn[k]->waiting());
		r = r && syn[k]->waitBarrier(n, last != 0);
		Ev("left", t)("k", k);
		r = r && syn[k]->endBarrier();
		Ev("out", t)("k", k)("ok", r)("v", 0);
	}
	else if (op == "bcast") {      // object, participants, own id, root, value
		int cur = atoi(a[3].c_str()), root = atoi(a[4].c_str());
		long v = atol(a[5].c_str());
		Val x = {v, v + 1, v * 3};
		Ev("inb", t)("k", k)("n", n)("root", cur == root)("v", v)("x", 0)("last", 0);
		bool r = root == 0 && v % 2 ? syn[k]->broadcast(x, n, cur) : syn[k]->broadcast(x, n, cur, root);
		long got = x.b == x.a + 1 && x.c == x.a * 3 ? x.a : -7;
		x.a = x.b = x.c = -5;
		Ev("out", t)("k", k)("ok", r)("v", got);
	}
	else if (op == "onew") { once[k] = new threads::Once(); obj[k].x = obj[k].y = 0; obj[k].k = k; }
	else if (op == "odel") { delete once[k]; }
	else if (op == "once") {
		Ev("onceb", t)("k", k);
		once[k]->saveExec(obj[k], &Obj::f);
		Ev("once", t)("k", k)("x", obj[k].x)("y", obj[k].y);
	}
}
