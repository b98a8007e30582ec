// Scenario interpreter shared by the class drivers.
// Scenario: "team=N;R.T:op args;..." with R/T a number or '*'; the driver defines run(t, tokens).
#ifndef SCRIPT_H
#define SCRIPT_H
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "verif.h"
typedef std::vector<std::string> Toks;
static std::vector<std::pair<std::string, Toks> > script;
static int team = 1, myRank, nRanks;
static void run(int t, const Toks& a);
static std::string its(long v) { std::ostringstream s; s << v; return s.str(); }
// one trace event: ev("name", t, "k1", v1, "k2", v2, ..., (char*)0)
struct Ev {
	std::string s;
	Ev(const char* e, int t) { s = std::string("{\"e\":\"") + e + "\",\"r\":" + its(myRank) + ",\"t\":" + its(t); }
	Ev& operator()(const char* k, long v) { s += std::string(",\"") + k + "\":" + its(v); return *this; }
	Ev& str(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":\"" + v + "\""; return *this; }
	~Ev() { s += "}"; verif_event(s.c_str()); }
};
static bool common(int t, const Toks& a)
{
	const std::string& op = a[0];
	if (op == "bar") { verif_barrier(("team" + its(myRank)).c_str(), team); return true; }
	if (op == "abar") { verif_barrier("all", nRanks * team); return true; }
	if (op == "cpu") { verif_set_cpu(atoi(a[1].c_str()), atoi(a[2].c_str())); return true; }
	if (op == "yield") { for (int i = 0; i < atoi(a[1].c_str()); i++) verif_yield(); return true; }
	if (op == "set") { verif_set(a[1].c_str(), atol(a[2].c_str())); return true; }
	if (op == "qbar") {      // barrier, then wait until no other thread (of any process) can run
		verif_barrier("all", nRanks * team);
		if (myRank == 0 && t == 0)
			for (bool busy = true; busy;) {
				busy = false;
				for (int i = 0; verif_blocked(i) != -2; i++)
					if (i != verif_thread() && verif_blocked(i) == 0)
						busy = true;
				if (busy)
					verif_yield();
			}
		verif_barrier("all", nRanks * team);
		return true;
	}
	if (op == "stat") {
		Ev e("stat", t);
		for (size_t i = 1; i < a.size(); i++) e(a[i].c_str(), verif_stat(a[i].c_str()));
		return true;
	}
	return false;
}
static void runAll(int t)
{
	std::string R = its(myRank), T = its(t);
	for (size_t i = 0; i < script.size(); i++) {
		const std::string& w = script[i].first;
		size_t d = w.find('.');
		std::string r = w.substr(0, d), tt = w.substr(d + 1);
		if ((r == "*" || r == R) && (tt == "*" || tt == T))
			if (!common(t, script[i].second))
				run(t, script[i].second);
	}
}
static void* threadMain(void* p) { runAll((int)(long)p); return 0; }
extern "C" void rank_main(int rank, int nranks, const char* scenario)
{
	myRank = rank; nRanks = nranks;
	std::istringstream in(scenario);
	std::string part;
	while (std::getline(in, part, ';')) {
		if (part.empty()) continue;
		if (part.substr(0, 5) == "team=") { team = atoi(part.c_str() + 5); continue; }
		size_t c = part.find(':');
		std::istringstream ps(part.substr(c + 1));
		Toks t; std::string w;
		while (ps >> w) t.push_back(w);
		if (!t.empty()) script.push_back(std::make_pair(part.substr(0, c), t));
	}
	pthread_t th[32];
	for (int i = 1; i < team; i++) pthread_create(&th[i], 0, threadMain, (void*)(long)i);
	runAll(0);
	for (int i = 1; i < team; i++) pthread_join(th[i], 0);
}
#endif
