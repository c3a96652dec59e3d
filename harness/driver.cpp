/*
 * Conformance driver: executes a script of public API calls against the real
 * library and prints one JSON object per call with everything the call made
 * observable.  It holds no expectations: specifications (../spec) judge.
 *
 * One command per line, instance number first (-1 = the C/Fortran wrapper).
 */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <new>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>

#include "micro.hpp"
#include "count.hpp"

extern "C" {
	void micropp_construct_(int *dim, int size[3], int *micro_type,
	                        double *micro_params, int *mat_types, double *params);
	void micropp_output_(int *tstep, int *gp_id);
	void micropp_get_non_linear_flag_(int *gp_id, int *non_linear);
	void micropp_set_macro_strain_(int *gp_id, double *macro_strain);
	void micropp_homogenize_(void);
	void micropp_get_macro_stress_(int *gp_id, double *macro_stress);
	void micropp_get_macro_ctan_(int *gp_id, double *macro_ctan);
	void micropp_update_internal_variables_(void);
	void micropp_write_convergence_file_(void);
}

/* ---- count linear solves (calls into the ell solvers) --------------------- */
static long nsolves = 0;
#ifdef COUNT_SOLVES
extern int real_cgpd_2D(ell_solver *, ell_matrix *, int, int, int, double *, double *)
	__asm__("__real__Z17ell_solve_cgpd_2DP10ell_solverP10ell_matrixiiiPdS3_") __attribute__((weak));
extern int real_cgpd_struct(ell_solver *, ell_matrix *, int, int, int, double *, double *)
	__asm__("__real__Z21ell_solve_cgpd_structP10ell_solverP10ell_matrixiiiPdS3_") __attribute__((weak));
extern int wrap_cgpd_2D(ell_solver *, ell_matrix *, int, int, int, double *, double *)
	__asm__("__wrap__Z17ell_solve_cgpd_2DP10ell_solverP10ell_matrixiiiPdS3_");
extern int wrap_cgpd_struct(ell_solver *, ell_matrix *, int, int, int, double *, double *)
	__asm__("__wrap__Z21ell_solve_cgpd_structP10ell_solverP10ell_matrixiiiPdS3_");
int wrap_cgpd_2D(ell_solver *s, ell_matrix *m, int f, int a, int b, double *r, double *x)
{ ++nsolves; return real_cgpd_2D(s, m, f, a, b, r, x); }
int wrap_cgpd_struct(ell_solver *s, ell_matrix *m, int f, int a, int b, double *r, double *x)
{ ++nsolves; return real_cgpd_struct(s, m, f, a, b, r, x); }
#endif

/* calc_ave_strain is public but unused by the library: observe it if present */
template <typename T> static auto ave_strain(T &m, double *v, int) -> decltype(m.calc_ave_strain(v), true)
{ m.calc_ave_strain(v); return true; }
template <typename T> static bool ave_strain(T &, double *, long) { return false; }

static std::map<int, micropp_t *> inst;

static void num(double v)
{
	if (std::isnan(v)) printf("\"nan\"");
	else if (std::isinf(v)) printf(v > 0 ? "\"inf\"" : "\"-inf\"");
	else printf("%.17g", v);
}

static void vec(const char *key, const double *v, int n)
{
	printf(",\"%s\":[", key);
	for (int i = 0; i < n; ++i) { if (i) printf(","); num(v[i]); }
	printf("]");
}

static const double SENT = -7.25e77;	/* sentinel: "the call did not write here" */

int main()
{
	setvbuf(stdout, NULL, _IOFBF, 1 << 20);
	std::string line;
	long ln = 0;
	while (std::getline(std::cin, line)) {
		++ln;
		std::istringstream is(line);
		std::string op;
		if (!(is >> op)) continue;
		if (op == "CD") {
			std::string d; is >> d;
			mkdir(d.c_str(), 0777);
			if (chdir(d.c_str())) { perror("chdir"); return 3; }
			printf("{\"op\":\"CD\"}\n"); fflush(stdout);
			continue;
		}
		if (op == "READ" || op == "LAST") {	/* file contents: all lines / last line */
			std::string f; is >> f;
			FILE *fp = fopen(f.c_str(), "rb");
			if (!fp) { printf("{\"op\":\"%s\",\"absent\":true}\n", op.c_str()); fflush(stdout); continue; }
			std::string all; char buf[65536]; size_t n;
			while ((n = fread(buf, 1, sizeof buf, fp)) > 0) all.append(buf, n);
			fclose(fp);
			if (op == "LAST") {
				size_t e = all.find_last_not_of('\n');
				if (e == std::string::npos) all.clear();
				else { all.resize(e + 1); size_t b = all.rfind('\n'); if (b != std::string::npos) all.erase(0, b + 1); }
			}
			printf("{\"op\":\"%s\",\"file\":\"%s\",\"text\":\"", op.c_str(), f.c_str());
			for (size_t k = 0; k < all.size(); ++k) {
				unsigned char c = all[k];
				if (c == '"' || c == '\\') printf("\\%c", c);
				else if (c == '\n') printf("\\n");
				else if (c < 32 || c > 126) printf("\\u%04x", c);
				else putchar(c);
			}
			printf("\"}\n"); fflush(stdout);
			continue;
		}
		if (op == "LS" || op == "RM") {		/* micropp_* files in the scratch directory */
			DIR *d = opendir(".");
			std::vector<std::string> names;
			while (struct dirent *de = readdir(d)) if (!strncmp(de->d_name, "micropp_", 8)) names.push_back(de->d_name);
			closedir(d);
			printf("{\"op\":\"%s\",\"files\":[", op.c_str());
			for (size_t k = 0; k < names.size(); ++k) {
				printf("%s\"%s\"", k ? "," : "", names[k].c_str());
				if (op == "RM") unlink(names[k].c_str());
			}
			printf("]}\n"); fflush(stdout);
			continue;
		}
		int i; is >> i;
		long bbefore = live_bytes, before = live_blocks, sb = nsolves;
		printf("{\"op\":\"%s\",\"i\":%d", op.c_str(), i);
		if (op == "NEW") {
			int dim, size[3], type, mt[2]; double mp[5], p[2 * MAX_MAT_PARAM];
			for (auto &x : p) x = 0.0;
			is >> dim >> size[0] >> size[1] >> size[2] >> type;
			for (auto &x : mp) is >> x;
			is >> mt[0] >> mt[1];
			for (int m = 0; m < 2; ++m) for (int k = 0; k < 4; ++k) is >> p[m * MAX_MAT_PARAM + k];
			/* exact-size heap copies, so that an over-read is visible to ASan */
			int *hs = new int[3], *hm = new int[2];
			double *hp = new double[5], *hq = new double[2 * MAX_MAT_PARAM];
			memcpy(hs, size, sizeof size); memcpy(hm, mt, sizeof mt);
			memcpy(hp, mp, sizeof mp); memcpy(hq, p, sizeof p);
			lib = true;
			if (i < 0) micropp_construct_(&dim, hs, &type, hp, hm, hq);
			else { micropp_t *q = new micropp_t(dim, hs, type, hp, hm, hq); lib = false; inst[i] = q; }
			lib = false;
			/* the arguments belong to the caller: scribble over them */
			for (int k = 0; k < 5; ++k) hp[k] = -1e30;
			for (int k = 0; k < 2 * MAX_MAT_PARAM; ++k) hq[k] = -1e30;
			hs[0] = hs[1] = hs[2] = -9; hm[0] = hm[1] = 9;
			delete[] hs; delete[] hm; delete[] hp; delete[] hq;
		} else if (op == "DEL") {
			micropp_t *q = inst[i]; inst.erase(i);
			lib = true; delete q; lib = false;
		} else if (op == "SET") {
			int gp, n; is >> gp >> n;
			double *e = new double[n];
			for (int k = 0; k < n; ++k) is >> e[k];
			lib = true;
			if (i < 0) micropp_set_macro_strain_(&gp, e); else inst[i]->set_macro_strain(gp, e);
			lib = false;
			for (int k = 0; k < n; ++k) e[k] = 1e30;
			delete[] e;
			printf(",\"gp\":%d", gp);
		} else if (op == "HOM") {
			lib = true;
			if (i < 0) micropp_homogenize_(); else inst[i]->homogenize();
			lib = false;
		} else if (op == "UPD") {
			lib = true;
			if (i < 0) micropp_update_internal_variables_(); else inst[i]->update_vars();
			lib = false;
		} else if (op == "OUT") {
			int ts, gp; is >> ts >> gp;
			lib = true;
			if (i < 0) micropp_output_(&ts, &gp); else inst[i]->output(ts, gp);
			lib = false;
			printf(",\"gp\":%d,\"ts\":%d", gp, ts);
		} else if (op == "WRI") {
			lib = true;
			if (i < 0) micropp_write_convergence_file_(); else inst[i]->write_info_files();
			lib = false;
		} else if (op == "SIG" || op == "TAN") {
			int gp, n; is >> gp >> n;
			if (op == "TAN") n *= n;
			double *v = new double[n];
			for (int k = 0; k < n; ++k) v[k] = SENT;
			lib = true;
			if (op == "SIG") { if (i < 0) micropp_get_macro_stress_(&gp, v); else inst[i]->get_macro_stress(gp, v); }
			else { if (i < 0) micropp_get_macro_ctan_(&gp, v); else inst[i]->get_macro_ctan(gp, v); }
			lib = false;
			printf(",\"gp\":%d", gp);
			bool untouched = true;
			for (int k = 0; k < n; ++k) if (v[k] != SENT) untouched = false;
			if (untouched) printf(",\"none\":true"); else vec("v", v, n);
			delete[] v;
		} else if (op == "NLF") {
			int gp; is >> gp;
			int *f = new int(-77);
			lib = true;
			if (i < 0) micropp_get_non_linear_flag_(&gp, f); else inst[i]->get_nl_flag(gp, f);
			lib = false;
			printf(",\"gp\":%d,\"nl\":%d", gp, *f);
			delete f;
		} else if (op == "AVS") {
			int n; is >> n;
			double v[6] = { 0, 0, 0, 0, 0, 0 };
			if (i >= 0 && ave_strain(*inst[i], v, 0)) vec("v", v, n); else printf(",\"none\":true");
		} else {
			fprintf(stderr, "line %ld: unknown op %s\n", ln, op.c_str());
			return 3;
		}
		printf(",\"bytes\":%ld", live_bytes - bbefore);
		printf(",\"alloc\":%ld,\"solves\":%ld}\n", live_blocks - before, nsolves - sb);
		fflush(stdout);
	}
	for (auto &p : inst) delete p.second;
	return 0;
}
