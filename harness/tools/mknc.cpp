// mknc SPECFILE: creates the netCDF files of a test run.  One line per variable:
//   path var type nd n0..  off0 d0 off1 d1 ..  base
// type: byte int long float double arrK_T (compound with an array-like layout of K elements of T: int|float|double|byte|long)
//       struct {int; float} structb {byte; double; int} structw {int[2]; byte[3]; long} (compounds)
// offsets/spacings are reals; "-" for the spacing: no coordinate variable for this dimension.
// Element e of cell number lin (C order) holds base + lin*K + e (byte: modulo 251); base may end in .5 for float and double;
// a base Mn is 2^30+n, Bn is 2^53+n (integers; the byte is the value modulo 256).
#include <netcdf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#define CK(x) do { int e_ = (x); if (e_) { fprintf(stderr, "netcdf %s: %s\n", #x, nc_strerror(e_)); return 2; } } while (0)
static int put(char* p, const std::string& t, double dv)
{
	long v = (long)dv;
	if (t == "byte") { *(unsigned char*)p = (unsigned char)(((v % 251) + 251) % 251); return 1; }
	if (t == "int") { int x = (int)v; memcpy(p, &x, 4); return 4; }
	if (t == "long") { memcpy(p, &v, 8); return 8; }
	if (t == "float") { float x = (float)dv; memcpy(p, &x, 4); return 4; }
	double x = dv; memcpy(p, &x, 8); return 8;
}
static void putw(char* p, const std::string& t, long v)
{
	if (t == "byte") { *(unsigned char*)p = (unsigned char)v; }
	else if (t == "int") { int x = (int)v; memcpy(p, &x, 4); }
	else if (t == "long") { memcpy(p, &v, 8); }
	else if (t == "float") { float x = (float)v; memcpy(p, &x, 4); }
	else { double x = (double)v; memcpy(p, &x, 8); }
}
static nc_type nct(const std::string& t) { return t == "byte" ? NC_UBYTE : t == "int" ? NC_INT : t == "long" ? NC_INT64 : t == "float" ? NC_FLOAT : NC_DOUBLE; }
static int sz(const std::string& t) { return t == "byte" ? 1 : t == "int" || t == "float" ? 4 : 8; }
int main(int argc, char** argv)
{
	std::ifstream in(argv[1]);
	std::string line;
	std::set<std::string> seen;
	while (std::getline(in, line)) {
		if (line.empty()) continue;
		std::istringstream is(line);
		std::string path, var, type; int nd;
		is >> path >> var >> type >> nd;
		std::vector<size_t> n(nd); std::vector<double> off(nd), d(nd); std::vector<bool> has(nd);
		size_t total = 1;
		for (int i = 0; i < nd; i++) { is >> n[i]; total *= n[i]; }
		for (int i = 0; i < nd; i++) { std::string a, b; is >> a >> b; has[i] = b != "-"; off[i] = atof(a.c_str()); d[i] = has[i] ? atof(b.c_str()) : 0; }
		std::string bs; is >> bs;
		long wide = bs[0] == 'M' ? 1L << 30 : bs[0] == 'B' ? 1L << 53 : 0;
		double base = atof(bs.c_str() + (wide ? 1 : 0));
		int f;
		if (seen.insert(path).second) { unlink(path.c_str()); CK(nc_create(path.c_str(), NC_NETCDF4, &f)); }
		else { CK(nc_open(path.c_str(), NC_WRITE, &f)); CK(nc_redef(f)); }
		std::vector<int> dim(nd), cv(nd);
		for (int i = 0; i < nd; i++) {
			std::string dn = var + "_d" + std::to_string(i);
			CK(nc_def_dim(f, dn.c_str(), n[i], &dim[i]));
			if (has[i]) CK(nc_def_var(f, dn.c_str(), NC_DOUBLE, 1, &dim[i], &cv[i]));
		}
		nc_type t; int v; size_t esz; int K = 1;
		std::vector<std::pair<int, std::string>> lay;
		if (type.substr(0, 3) == "arr") {
			K = atoi(type.c_str() + 3);
			std::string bt = type.substr(type.find('_') + 1);
			esz = K * sz(bt);
			CK(nc_def_compound(f, esz, ("t_" + var).c_str(), &t));
			if (K > 500) CK(nc_insert_array_compound(f, t, "f", 0, nct(bt), 1, &K)); // one member: HDF5 limits their number
			for (int k = 0; k < K; k++) {
				if (K <= 500) CK(nc_insert_compound(f, t, ("f" + std::to_string(k)).c_str(), k * sz(bt), nct(bt)));
				lay.push_back({k * sz(bt), bt});
			}
		} else if (type.substr(0, 6) == "struct") {
			if (type == "struct") { esz = 8; lay = {{0, "int"}, {4, "float"}}; }
			else if (type == "structb") { esz = 24; lay = {{0, "byte"}, {8, "double"}, {16, "int"}}; }
			else { esz = 24; lay = {{0, "int"}, {4, "int"}, {8, "byte"}, {9, "byte"}, {10, "byte"}, {16, "long"}}; }
			K = lay.size();
			CK(nc_def_compound(f, esz, ("t_" + var).c_str(), &t));
			for (int k = 0; k < K; k++) CK(nc_insert_compound(f, t, ("m" + std::to_string(k)).c_str(), lay[k].first, nct(lay[k].second)));
		} else { t = nct(type); esz = sz(type); lay = {{0, type}}; }
		CK(nc_def_var(f, var.c_str(), t, nd, dim.data(), &v));
		if (K > 500) CK(nc_def_var_fill(f, v, NC_NOFILL, 0)); // the fill value would be too large for HDF5
		bool huge = var.substr(0, 4) == "huge";
		if (huge) { std::vector<size_t> ck(nd); for (int i = 0; i < nd; i++) ck[i] = n[i] < 16 ? n[i] : 16; CK(nc_def_var_chunking(f, v, NC_CHUNKED, ck.data())); }
		CK(nc_enddef(f));
		for (int i = 0; i < nd; i++) if (has[i]) { std::vector<double> x(n[i]); for (size_t k = 0; k < n[i]; k++) x[k] = off[i] + k * d[i]; CK(nc_put_var_double(f, cv[i], x.data())); }
		if (huge) { CK(nc_close(f)); continue; }
		std::vector<char> data(total * esz);
		for (size_t l = 0; l < total; l++) for (int k = 0; k < K; k++) if (wide) putw(&data[l * esz + lay[k].first], lay[k].second, wide + (long)base + (long)l * K + k); else put(&data[l * esz + lay[k].first], lay[k].second, base + (double)((long)l * K + k));
		CK(nc_put_var(f, v, data.data()));
		CK(nc_close(f));
	}
	return 0;
}
