// Scenario interpreter on the public interface (C++, C and Fortran bindings).
// Scenario: "team=N;R.T:op args;..." with R/T a number or '*'.
#include <asagi.h>
#include "asagi_f90.h"
#include <pthread.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "verif.h"

// The Fortran interface: through the Fortran module where the build has a Fortran part (harness/drv/fapi.f90)
#ifdef VERIF_F
extern "C" {
int fx_asagi_grid_create(int); int fx_asagi_grid_create_array(int); int fx_asagi_grid_create_struct(int, const int*, const long*, const int*);
void fx_asagi_grid_set_comm(int, int); void fx_asagi_grid_set_threads(int, int); void fx_asagi_grid_set_param(int, const char*, int, const char*, int, int);
int fx_asagi_grid_open(int, const char*, int, int); int fx_asagi_grid_dimensions(int); double fx_asagi_grid_min(int, int); double fx_asagi_grid_max(int, int);
double fx_asagi_grid_delta(int, int, int); int fx_asagi_grid_var_size(int); unsigned char fx_asagi_grid_get_byte(int, const double*, int);
int fx_asagi_grid_get_int(int, const double*, int); long fx_asagi_grid_get_long(int, const double*, int); float fx_asagi_grid_get_float(int, const double*, int);
double fx_asagi_grid_get_double(int, const double*, int); void fx_asagi_grid_get_buf(int, void*, const double*, int); void fx_asagi_grid_close(int);
int fx_asagi_start_comm_thread(int, int); void fx_asagi_stop_comm_thread(); int fx_asagi_node_local_rank(int);
int fx_const(int); int c_const(int); const char* c_name(int);
}
static void fx_asagi_grid_set_param(int g, const char* n, const char* v, int l) { fx_asagi_grid_set_param(g, n, (int)strlen(n), v, (int)strlen(v), l); }
static int fx_asagi_grid_open(int g, const char* n, int l) { return fx_asagi_grid_open(g, n, (int)strlen(n), l); }
static int fx_asagi_grid_create_struct(int n, const int* b, const long* d, const asagi_type* t)
{
	int ty[8];
	for (int i = 0; i < n; i++) ty[i] = t[i];
	return fx_asagi_grid_create_struct(n, b, d, (const int*)ty);
}
#define F(x) fx_##x
#else
#define F(x) f90##x
#endif
typedef std::vector<std::string> Toks;
static std::vector<std::pair<std::string, Toks> > script;
static int team = 1, myRank, nRanks;
struct Slot { int id; asagi::Grid* g; asagi_grid* c; int f; int api; std::string kind; };
static Slot slots[16];
static int api = 0;      // 0 C++, 1 C, 2 Fortran
#ifndef ASAGI_NOMPI
static MPI_Comm userComm;
static MPI_Comm commOf(const std::string& n) { return n == "world" ? MPI_COMM_WORLD : n == "self" ? MPI_COMM_SELF : userComm; }
#endif
static int calls;      // default arguments are left out every other time
static bool even() { return calls++ % 2; }

static std::string its(long v) { std::ostringstream s; s << v; return s.str(); }
// values appear doubled in the trace (they are multiples of 1/2); the marker stands for any other value
// twice the value, 800000000 + k for 2^30 + k, 1000000000 + k for 2^53 + k
static std::string wide(long v, bool& is)
{
	is = true;
	if (v >= 1L << 53 && v < (1L << 53) + (1L << 24)) return its(1000000000 + (v - (1L << 53)));
	if (v >= 1L << 30 && v < (1L << 30) + (1L << 24)) return its(800000000 + (v - (1L << 30)));
	is = false;
	return "";
}
template<typename T> static std::string num(T x)
{
	bool is;
	double v = (double)x * 2;
	if (v != v || v > 4e18 || v < -4e18 || v != std::floor(v)) return "-1999999999";
	std::string w = wide((long)x, is);
	if (is && (T)(long)x == x) return w;
	if (v > 7e8 || v < -7e8) return "-1999999999";
	return its((long)v);
}
static std::string milli(double v)    // 1024ths, with the deviation's sign
{
	if (std::isinf(v)) return v > 0 ? "2000000000" : "-2000000000";
	double s = v * 1024;
	if (s > 1.9e9 || s < -1.9e9 || s != s) return "-1999999999";
	return its((long)std::floor(s + 0.5));
}
static std::string devi(double v)
{
	if (std::isinf(v)) return "0";
	double s = v * 1024, r = std::floor(s + 0.5);
	if (std::fabs(s - r) > 1e-3) return "9";
	return s > r ? "1" : s < r ? "-1" : "0";
}
static std::string head(const char* e, int t) { return std::string("{\"e\":\"") + e + "\",\"r\":" + its(myRank) + ",\"t\":" + its(t); }

static double scale = 1024;

static asagi_type typeOf(const std::string& s)
{
#ifdef __cplusplus
	return s == "byte" ? asagi::Grid::BYTE : s == "int" ? asagi::Grid::INT : s == "long" ? asagi::Grid::LONG : s == "double" ? asagi::Grid::DOUBLE : asagi::Grid::FLOAT;
#endif
}
static std::string decode(const unsigned char* b, unsigned size, const std::string& kind)
{
	// kind: T | arr_T | struct*
	std::string r;
	unsigned p = 0;
	if (kind.substr(0, 6) == "struct") {
		typedef std::vector<std::pair<unsigned, char>> Lay;
		Lay lay = kind == "struct" ? Lay{{0, 'i'}, {4, 'f'}} : kind == "structb" ? Lay{{0, 'b'}, {8, 'd'}, {16, 'i'}}
			: Lay{{0, 'i'}, {4, 'i'}, {8, 'b'}, {9, 'b'}, {10, 'b'}, {16, 'l'}};
		for (auto& m : lay) {
			const unsigned char* q = b + m.first; int i; long l; float f; double d;
			std::string v;
			if (m.second == 'b') v = num(*q); else if (m.second == 'i') { memcpy(&i, q, 4); v = num(i); } else if (m.second == 'l') { memcpy(&l, q, 8); v = num(l); }
			else if (m.second == 'f') { memcpy(&f, q, 4); v = num(f); } else { memcpy(&d, q, 8); v = num(d); }
			r += (r.empty() ? "" : ",") + v;
		}
		return r;
	}
	std::string t = kind.substr(0, 4) == "arr_" ? kind.substr(4) : kind;
	while (p < size) {
		std::string v;
		if (t == "byte") { v = num(b[p]); p += 1; }
		else if (t == "int") { int x; memcpy(&x, b + p, 4); v = num(x); p += 4; }
		else if (t == "long") { long x; memcpy(&x, b + p, 8); v = num(x); p += 8; }
		else if (t == "float") { float x; memcpy(&x, b + p, 4); v = num(x); p += 4; }
		else { double x; memcpy(&x, b + p, 8); v = num(x); p += 8; }
		r += (r.empty() ? "" : ",") + v;
	}
	return r;
}

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	if (op == "bar") { verif_barrier(("team" + its(myRank)).c_str(), team); return; }
	if (op == "mbar") { verif_barrier("ranks", nRanks); return; }
	if (op == "abar") { verif_barrier("all", nRanks * team); return; }
	if (op == "qbar") {      // barrier, then wait until no other thread (of any process) can run
		verif_barrier("all", nRanks * team);
		if (myRank == 0 && t == 0)
			for (bool busy = true; busy;) {
				busy = false;
				for (int i = 0; verif_blocked(i) != -2; i++)
					if (i != verif_thread() && verif_blocked(i) == 0)
						busy = true;
				if (busy)
					verif_yield();
			}
		verif_barrier("all", nRanks * team);
		return;
	}
	if (op == "set") { verif_set(a[1].c_str(), atol(a[2].c_str())); verif_event((head("set", t) + ",\"k\":\"" + a[1] + "\",\"n\":" + a[2] + "}").c_str()); return; }
	if (op == "api") { api = atoi(a[1].c_str()); return; }
	if (op == "scale") { scale = atof(a[1].c_str()); return; }
	if (op == "cpu") { verif_set_cpu(atoi(a[1].c_str()), atoi(a[2].c_str())); return; }
	if (op == "yield") { for (int i = 0; i < atoi(a[1].c_str()); i++) verif_yield(); return; }
#ifndef ASAGI_NOMPI
	if (op == "mpi") { MPI_Barrier(MPI_COMM_WORLD); return; }
#endif
	if (op == "note") { verif_event((head("note", t) + ",\"n\":\"" + a[1] + "\"}").c_str()); return; }
#ifndef ASAGI_NOMPI
	if (op == "nodelocal") {
		std::string cn = a.size() > 1 ? a[1] : "world";
		MPI_Comm c = commOf(cn);
		int v = api == 0 ? cn == "world" && even() ? asagi::Grid::nodeLocalRank() : asagi::Grid::nodeLocalRank(c) : api == 1 ? asagi_node_local_rank(c) : F(asagi_node_local_rank)(MPI_Comm_c2f(c));
		verif_event((head("nodelocal", t) + ",\"c\":\"" + cn + "\",\"v\":" + its(v) + "}").c_str());
		return;
	}
	if (op == "startcomm") {
		int cpu = a.size() > 1 ? atoi(a[1].c_str()) : -1;
		int e = api == 0 ? (cpu < 0 && even() ? asagi::Grid::startCommThread() : asagi::Grid::startCommThread(cpu)) : api == 1 ? asagi_start_comm_thread(cpu, MPI_COMM_WORLD) : F(asagi_start_comm_thread)(cpu, MPI_Comm_c2f(MPI_COMM_WORLD));
		verif_event((head("startcomm", t) + ",\"cpu\":" + its(cpu) + ",\"code\":" + its(e) + "}").c_str());
		return;
	}
	if (op == "stopcomm") {
		if (api == 0) asagi::Grid::stopCommThread(); else if (api == 1) asagi_stop_comm_thread(); else F(asagi_stop_comm_thread)();
		verif_event((head("stopcomm", t) + "}").c_str());
		return;
	}
	if (op == "newcomm") {        // newcomm color [key]
		MPI_Comm_split(MPI_COMM_WORLD, atoi(a[1].c_str()), a.size() > 2 ? atoi(a[2].c_str()) : myRank, &userComm);
		return;
	}
	if (op == "freecomm") { MPI_Comm_free(&userComm); return; }
#else
	if (op == "nodelocal") { verif_event((head("nodelocal", t) + ",\"c\":\"self\",\"v\":" + its(F(asagi_node_local_rank)(0)) + "}").c_str()); return; }
	if (op == "startcomm") { verif_event((head("startcomm", t) + ",\"cpu\":-1,\"code\":" + its(F(asagi_start_comm_thread)(-1, 0)) + "}").c_str()); return; }
	if (op == "stopcomm") { F(asagi_stop_comm_thread)(); verif_event((head("stopcomm", t) + "}").c_str()); return; }
#endif
	if (op == "stat") {
		std::string s = head("stat", t);
		for (size_t i = 1; i < a.size(); i++) s += ",\"" + a[i] + "\":" + its(verif_stat(a[i].c_str()));
		verif_event((s + "}").c_str());
		return;
	}
#ifdef VERIF_F
	if (op == "consts") {      // the numbers of types and errors in the three languages
		static const int cpp[] = {asagi::Grid::BYTE, asagi::Grid::INT, asagi::Grid::LONG, asagi::Grid::FLOAT, asagi::Grid::DOUBLE, asagi::Grid::SUCCESS, asagi::Grid::MPI_ERROR,
			asagi::Grid::THREAD_ERROR, asagi::Grid::NUMA_ERROR, asagi::Grid::UNKNOWN_PARAM, asagi::Grid::INVALID_VALUE, asagi::Grid::NOT_INITIALIZED, asagi::Grid::ALREADY_INITIALIZED,
			asagi::Grid::NOT_OPEN, asagi::Grid::VAR_NOT_FOUND, asagi::Grid::WRONG_SIZE, asagi::Grid::UNSUPPORTED_DIMENSIONS, asagi::Grid::INVALID_VAR_SIZE};
		for (int i = 0; i < 18; i++)
			verif_event((head("const", t) + ",\"n\":\"" + c_name(i) + "\",\"cpp\":" + its(cpp[i]) + ",\"c\":" + its(c_const(i)) + ",\"f\":" + its(fx_const(i)) + "}").c_str());
		return;
	}
#endif
	int gi = atoi(a[1].c_str());
	Slot& s = slots[gi];
	std::string gl = ",\"g\":" + a[1];
	if (op == "create" || op == "createarr" || op == "createstruct") {
		s.api = api; s.g = 0; s.c = 0; s.f = 0;
		if (op == "createstruct") {
			s.kind = a[2];
			unsigned bl[3] = {1, 1, 1}; unsigned long dis[3] = {0, 4, 16}; asagi::Grid::Type ty[3] = {asagi::Grid::INT, asagi::Grid::FLOAT, asagi::Grid::INT};
			unsigned n = 2;
			if (a[2] == "structb") { n = 3; dis[1] = 8; ty[0] = asagi::Grid::BYTE; ty[1] = asagi::Grid::DOUBLE; }
			if (a[2] == "structw") { n = 3; bl[0] = 2; bl[1] = 3; dis[1] = 8; ty[1] = asagi::Grid::BYTE; ty[2] = asagi::Grid::LONG; }
			int ibl[3]; long idis[3]; for (int i = 0; i < 3; i++) { ibl[i] = bl[i]; idis[i] = dis[i]; }
			if (api == 0) s.g = asagi::Grid::createStruct(n, bl, dis, ty);
			else if (api == 1) s.c = asagi_grid_create_struct(n, bl, dis, ty);
			else s.f = F(asagi_grid_create_struct)(n, ibl, idis, ty);
		} else if (op == "createarr") {
			s.kind = "arr_" + a[2];
			if (api == 0) s.g = a[2] == "float" && even() ? asagi::Grid::createArray() : asagi::Grid::createArray(typeOf(a[2])); else if (api == 1) s.c = asagi_grid_create_array(typeOf(a[2])); else s.f = F(asagi_grid_create_array)(typeOf(a[2]));
		} else {
			s.kind = a[2];
			if (api == 0) s.g = a[2] == "float" && even() ? asagi::Grid::create() : asagi::Grid::create(typeOf(a[2])); else if (api == 1) s.c = asagi_grid_create(typeOf(a[2])); else s.f = F(asagi_grid_create)(typeOf(a[2]));
		}
		verif_event((head("create", t) + gl + ",\"kind\":\"" + s.kind + "\",\"ok\":" + its(s.g || s.c || s.api == 2) + ",\"h\":" + its(s.api == 2 ? s.f : -1) + "}").c_str());
		return;
	}
	asagi::Grid* g = s.g ? s.g : s.c;
	if (op == "threads") {
		int e = 0; unsigned n = atoi(a[2].c_str());
		if (s.api == 0) e = g->setThreads(n); else if (s.api == 1) asagi_grid_set_threads(s.c, n); else F(asagi_grid_set_threads)(s.f, n);
		verif_event((head("threads", t) + gl + ",\"n\":" + a[2] + ",\"code\":" + its(e) + "}").c_str());
	} else if (op == "comm") {
#ifndef ASAGI_NOMPI
		int e = 0; MPI_Comm c = commOf(a[2]);
		if (s.api != 0) e = -1;      // does not return the error
		if (s.api == 0) e = a[2] == "world" && even() ? g->setComm() : g->setComm(c); else if (s.api == 1) asagi_grid_set_comm(s.c, c); else F(asagi_grid_set_comm)(s.f, MPI_Comm_c2f(c));
		verif_event((head("comm", t) + gl + ",\"c\":\"" + a[2] + "\",\"code\":" + its(e) + "}").c_str());
#endif
	} else if (op == "param") {
		std::string n = a[2], v = a[3] == "''" ? "" : a[3];
		int lvl = a.size() > 4 ? atoi(a[4].c_str()) : 0;
		if (s.api == 0) { if (lvl == 0 && even()) g->setParam(n.c_str(), v.c_str()); else g->setParam(n.c_str(), v.c_str(), lvl); } else if (s.api == 1) asagi_grid_set_param(s.c, n.c_str(), v.c_str(), lvl); else F(asagi_grid_set_param)(s.f, n.c_str(), v.c_str(), lvl);
		verif_event((head("param", t) + gl + ",\"n\":\"" + n + "\",\"v\":\"" + v + "\",\"l\":" + its(lvl) + "}").c_str());
	} else if (op == "open") {
		int lvl = a.size() > 3 ? atoi(a[3].c_str()) : 0, e;
		size_t sl = a[2].rfind('/');
		verif_event((head("openb", t) + gl + ",\"l\":" + its(lvl) + ",\"f\":\"" + (sl == std::string::npos ? a[2] : a[2].substr(sl + 1)) + "\",\"s\":" + its(verif_thread()) + "}").c_str());
		if (s.api == 0) e = lvl == 0 && even() ? g->open(a[2].c_str()) : g->open(a[2].c_str(), lvl); else if (s.api == 1) e = asagi_grid_open(s.c, a[2].c_str(), lvl); else e = F(asagi_grid_open)(s.f, a[2].c_str(), lvl);
		verif_event((head("open", t) + gl + ",\"l\":" + its(lvl) + ",\"code\":" + its(e) + "}").c_str());
	} else if (op == "get") {    // get g lvl kind p...
		int lvl = atoi(a[2].c_str());
		const std::string& k = a[3];
		double pos[8]; std::string ps;
		size_t nd = a.size() - 4;
		for (size_t i = 0; i < nd; i++) { pos[i] = atof(a[4 + i].c_str()) / scale; ps += (i ? "," : "") + (pos[i] * scale > (scale > 100 ? 4e8 : 2e9) ? std::string("400000000") : pos[i] * scale < (scale > 100 ? -4e8 : -2e9) ? "-400000000" : a[4 + i]); }
		std::string v;
		bool df = lvl == 0 && even();
		if (k == "byte") v = num(s.api == 0 ? df ? g->getByte(pos) : g->getByte(pos, lvl) : s.api == 1 ? asagi_grid_get_byte(s.c, pos, lvl) : F(asagi_grid_get_byte)(s.f, pos, lvl));
		else if (k == "int") v = num(s.api == 0 ? df ? g->getInt(pos) : g->getInt(pos, lvl) : s.api == 1 ? asagi_grid_get_int(s.c, pos, lvl) : F(asagi_grid_get_int)(s.f, pos, lvl));
		else if (k == "long") v = num((s.api == 0 ? df ? g->getLong(pos) : g->getLong(pos, lvl) : s.api == 1 ? asagi_grid_get_long(s.c, pos, lvl) : F(asagi_grid_get_long)(s.f, pos, lvl)));
		else if (k == "float") v = num(s.api == 0 ? df ? g->getFloat(pos) : g->getFloat(pos, lvl) : s.api == 1 ? asagi_grid_get_float(s.c, pos, lvl) : F(asagi_grid_get_float)(s.f, pos, lvl));
		else if (k == "double") v = num(s.api == 0 ? df ? g->getDouble(pos) : g->getDouble(pos, lvl) : s.api == 1 ? asagi_grid_get_double(s.c, pos, lvl) : F(asagi_grid_get_double)(s.f, pos, lvl));
		else {
			unsigned size = s.api == 0 ? g->getVarSize() : s.api == 1 ? asagi_grid_var_size(s.c) : F(asagi_grid_var_size)(s.f);
			std::vector<unsigned char> b(size + 64, 0xEE);
			if (s.api == 0) { if (df) g->getBuf(&b[0], pos); else g->getBuf(&b[0], pos, lvl); } else if (s.api == 1) asagi_grid_get_buf(s.c, &b[0], pos, lvl); else F(asagi_grid_get_buf)(s.f, &b[0], pos, lvl);
			v = decode(&b[0], size, s.kind);
			for (int i = 0; i < 64; i++) if (b[size + i] != 0xEE) { v = "-1999999998"; break; }
		}
		verif_event((head("get", t) + gl + ",\"l\":" + its(lvl) + ",\"k\":\"" + k + "\",\"p\":[" + ps + "],\"v\":[" + v + "]}").c_str());
	} else if (op == "close") {
		verif_event((head("closeb", t) + gl + "}").c_str());
		if (s.api == 0) asagi::Grid::close(s.g); else if (s.api == 1) asagi_grid_close(s.c); else F(asagi_grid_close)(s.f);
		s.g = 0; s.c = 0;
		verif_event((head("close", t) + gl + "}").c_str());
	} else if (op == "counter") { // counter g lvl name
		asagi::Grid* h = g;
		if (s.api == 2) return;
		long v = (long)(a[2] == "0" && even() ? h->getCounter(a[3].c_str()) : h->getCounter(a[3].c_str(), atoi(a[2].c_str())));
		verif_event((head("counter", t) + gl + ",\"l\":" + a[2] + ",\"n\":\"" + a[3] + "\",\"v\":" + its(v) + "}").c_str());
	} else if (op == "counters") { // counters g lvl
		if (s.api == 2) return;
		int l = atoi(a[2].c_str());
		const char* names[7] = {"accesses", "mpi_transfers", "numa_transfers", "file_loads", "local_hits", "node_hits", "local_misses"};
		std::string v;
		for (int i = 0; i < 7; i++) v += (i ? "," : "") + std::string("\"") + names[i] + "\":" + its((long)g->getCounter(names[i], l));
		verif_event((head("counters", t) + gl + ",\"l\":" + a[2] + "," + v + "}").c_str());
	} else if (op == "meta") {    // meta g lvl
		int lvl = a.size() > 2 ? atoi(a[2].c_str()) : 0;
		int nd = s.api == 0 ? g->getDimensions() : s.api == 1 ? asagi_grid_dimensions(s.c) : F(asagi_grid_dimensions)(s.f);
		std::string mn, mx, dl, mnd, mxd, dld;
		for (int i = 0; i < nd; i++) {
			double x = s.api == 0 ? g->getMin(i) : s.api == 1 ? asagi_grid_min(s.c, i) : F(asagi_grid_min)(s.f, i);
			double y = s.api == 0 ? g->getMax(i) : s.api == 1 ? asagi_grid_max(s.c, i) : F(asagi_grid_max)(s.f, i);
			double z = s.api == 0 ? lvl == 0 && even() ? g->getDelta(i) : g->getDelta(i, lvl) : s.api == 1 ? asagi_grid_delta(s.c, i, lvl) : F(asagi_grid_delta)(s.f, i, lvl);
			const char* c = i ? "," : "";
			mn += c + milli(x); mx += c + milli(y); dl += c + milli(z); mnd += c + devi(x); mxd += c + devi(y); dld += c + devi(z);
		}
		int vs = s.api == 0 ? g->getVarSize() : s.api == 1 ? asagi_grid_var_size(s.c) : F(asagi_grid_var_size)(s.f);
		verif_event((head("meta", t) + gl + ",\"l\":" + its(lvl) + ",\"nd\":" + its(nd) + ",\"size\":" + its(vs) + ",\"min\":[" + mn + "],\"max\":[" + mx + "],\"delta\":[" + dl + "],\"mind\":[" + mnd + "],\"maxd\":[" + mxd + "],\"deltad\":[" + dld + "]}").c_str());
	} else if (op == "edge") {    // edge g lvl i: read at getMin/getMax in every dimension (corner bits)
		int lvl = atoi(a[2].c_str()), bits = atoi(a[3].c_str());
		int nd = g ? g->getDimensions() : F(asagi_grid_dimensions)(s.f);
		double pos[8];
		for (int i = 0; i < nd; i++) pos[i] = s.api == 2 ? ((bits >> i & 1) ? F(asagi_grid_max)(s.f, i) : F(asagi_grid_min)(s.f, i)) : ((bits >> i & 1) ? g->getMax(i) : g->getMin(i));
		double v = s.api == 2 ? F(asagi_grid_get_double)(s.f, pos, lvl) : g->getDouble(pos, lvl);
		verif_event((head("edge", t) + gl + ",\"l\":" + a[2] + ",\"bits\":" + a[3] + ",\"v\":[" + num(v) + "]}").c_str());
	} else { fprintf(stderr, "unknown op %s\n", op.c_str()); abort(); }
}

static void runAll(int t)
{
	std::string rs = its(myRank), ts = its(t);
	for (size_t i = 0; i < script.size(); i++) {
		const std::string& w = script[i].first;
		size_t d = w.find('.');
		std::string r = w.substr(0, d), tt = w.substr(d + 1);
		if ((r == "*" || r == rs) && (tt == "*" || tt == ts)) run(t, script[i].second);
	}
}
static void* threadMain(void* p) { runAll((int)(long)p); return 0; }

extern "C" void rank_main(int rank, int nranks, const char* scenario)
{
	myRank = rank; nRanks = nranks;
	std::istringstream in(scenario);
	std::string part;
	while (std::getline(in, part, ';')) {
		if (part.empty()) continue;
		if (part.substr(0, 5) == "team=") { team = atoi(part.c_str() + 5); continue; }
		size_t c = part.find(':');
		std::istringstream ps(part.substr(c + 1));
		Toks t; std::string w;
		while (ps >> w) t.push_back(w);
		if (!t.empty()) script.push_back(std::make_pair(part.substr(0, c), t));
	}
	pthread_t th[32];
	for (int i = 1; i < team; i++) pthread_create(&th[i], 0, threadMain, (void*)(long)i);
	runAll(0);
	for (int i = 1; i < team; i++) pthread_join(th[i], 0);
}
