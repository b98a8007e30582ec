// Driver of the Fortran handles: the table itself (add, get, del) and the interface on top of it (create, use, close).
#include "asagi.h"
#include "asagi_f90.h"
#include "fortran/pointerarray.h"
#include "script.h"

static fortran::PointerArray<int>* tab;
static int objs[256];
static int hs[64];      // slot -> handle
static std::string file;

static void run(int t, const Toks& a)
{
	const std::string& op = a[0];
	int s = a.size() > 1 ? atoi(a[1].c_str()) : 0, o = a.size() > 2 ? atoi(a[2].c_str()) : 0;
	if (op == "tnew") tab = new fortran::PointerArray<int>();
	else if (op == "tdel") delete tab;
	else if (op == "file") file = a[1];
	else if (op == "add") {      // slot object
		Ev("b", t).str("op", "add")("o", o);
		hs[s] = tab->add(&objs[o]);
		Ev("f", t)("v", hs[s]);
	} else if (op == "tmany") {      // handles that come and go; what is left after it is unchanged
		for (int i = 0; i < s; i++) tab->remove(tab->add(&objs[255]));
	} else if (op == "many") {
		for (int i = 0; i < s; i++) f90asagi_grid_close(f90asagi_grid_create(asagi::Grid::INT));
	} else if (op == "get") {
		Ev("b", t).str("op", "get")("o", hs[s]);
		int* p = tab->get(hs[s]);
		Ev("f", t)("v", p >= objs && p < objs + 256 ? p - objs : -1);
	} else if (op == "del") {
		Ev("b", t).str("op", "del")("o", hs[s]);
		tab->remove(hs[s]);
		Ev("f", t)("v", 0);
	} else if (op == "create") {      // slot object kind: a grid of the object's variable
		Ev("b", t).str("op", "add")("o", o);
		int k = a.size() > 3 ? atoi(a[3].c_str()) : 0;
		if (k == 0) hs[s] = f90asagi_grid_create(asagi::Grid::INT);
		else if (k == 1) hs[s] = f90asagi_grid_create_array(asagi::Grid::INT);
		else { int bl[1] = {1}; long d[1] = {0}; asagi_type ty[1] = {asagi::Grid::INT}; hs[s] = f90asagi_grid_create_struct(1, bl, d, ty); }
		Ev("f", t)("v", hs[s]);
	} else if (op == "conf") {      // slot object: which variable; part of the creation as far as the handle is concerned
		f90asagi_grid_set_param(hs[s], "VARIABLE", ("v" + its(o)).c_str(), 0);
		if (a.size() > 3) f90asagi_grid_set_param(hs[s], "GRID", a[3].c_str(), 0);
	} else if (op == "open") {
		int e = f90asagi_grid_open(hs[s], file.c_str(), 0);
		if (e) Ev("f", t)("v", -100 - e);
	} else if (op == "use") {      // read through the handle: the value names the grid
		Ev("b", t).str("op", "get")("o", hs[s]);
		double pos[4] = {0, 0, 0, 0};
		int v = f90asagi_grid_get_int(hs[s], pos, 0);
		Ev("f", t)("v", v);
	} else if (op == "dims") {      // a grid's number of dimensions is also the object's
		Ev("b", t).str("op", "get")("o", hs[s]);
		int v = f90asagi_grid_dimensions(hs[s]);
		Ev("f", t)("v", v == o % 4 + 1 ? o : -2);
	} else if (op == "max") {
		Ev("b", t).str("op", "get")("o", hs[s]);
		double v = f90asagi_grid_max(hs[s], 0);
		Ev("f", t)("v", (long)(v > o + 9.9 && v < o + 10.6 ? o : v * 1000));
	} else if (op == "close") {
		Ev("b", t).str("op", "del")("o", hs[s]);
		f90asagi_grid_close(hs[s]);
		Ev("f", t)("v", 0);
	}
}
