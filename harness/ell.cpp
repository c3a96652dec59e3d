/*
 * Conformance driver for the structured sparse matrices and their solvers: a
 * script of calls, one JSON object per call.  Matrix numbers come first.
 */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>

#include "ell.hpp"
#include "count.hpp"

struct Mat { ell_matrix m; int dim, F, n[3], N; };
static std::map<int, Mat> mats;

static void num(double v)
{
	if (std::isnan(v)) printf("\"nan\"");
	else if (std::isinf(v)) printf(v > 0 ? "\"inf\"" : "\"-inf\"");
	else printf("%.17g", v);
}
static void vec(const char *key, const double *v, int n)
{
	printf(",\"%s\":[", key);
	for (int i = 0; i < n; ++i) { if (i) printf(","); num(v[i]); }
	printf("]");
}
static double *read(std::istringstream &is, int n)
{
	double *v = new double[n];
	for (int i = 0; i < n; ++i) is >> v[i];
	return v;
}

int main()
{
	setvbuf(stdout, NULL, _IOFBF, 1 << 20);
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line);
		std::string op; int h;
		if (!(is >> op >> h)) continue;
		long bbefore = live_bytes, before = live_blocks;
		printf("{\"op\":\"%s\",\"h\":%d", op.c_str(), h);
		if (op == "INIT") {
			Mat x; is >> x.dim >> x.F >> x.n[0] >> x.n[1] >> x.n[2];
			x.N = x.F * x.n[0] * x.n[1] * (x.dim == 3 ? x.n[2] : 1);
			lib = true;
			if (x.dim == 2) ell_init_2D(&x.m, x.F, x.n[0], x.n[1]);
			else ell_init_3D(&x.m, x.F, x.n[0], x.n[1], x.n[2]);
			lib = false;
			mats[h] = x;
			printf(",\"nrow\":%d,\"ncol\":%d", x.m.nrow, x.m.ncol);
		} else {
			Mat &x = mats[h];
			if (op == "ZERO") {
				lib = true; ell_set_zero_mat(&x.m); lib = false;
			} else if (op == "ADD") {
				int e[3]; is >> e[0] >> e[1] >> e[2];
				int k = (x.dim == 2 ? 4 : 8) * x.F;
				double *A = read(is, k * k);
				lib = true;
				if (x.dim == 2) ell_add_struct2D(&x.m, e[0], e[1], A, x.F, x.n[0], x.n[1]);
				else ell_add_struct3D(&x.m, e[0], e[1], e[2], A, x.F, x.n[0], x.n[1], x.n[2]);
				lib = false;
				delete[] A;
			} else if (op == "BC") {
				lib = true;
				if (x.dim == 2) ell_set_bc_2D(&x.m, x.F, x.n[0], x.n[1]);
				else ell_set_bc_3D(&x.m, x.F, x.n[0], x.n[1], x.n[2]);
				lib = false;
			} else if (op == "DENSE") {	/* the whole matrix, column by column */
				double *v = new double[x.N], *y = new double[x.N];
				printf(",\"cols\":[");
				for (int j = 0; j < x.N; ++j) {
					for (int i = 0; i < x.N; ++i) { v[i] = i == j; y[i] = NAN; }
					lib = true; ell_mvp_2D(&x.m, v, y); lib = false;
					printf("%s[", j ? "," : "");
					for (int i = 0; i < x.N; ++i) { if (i) printf(","); num(y[i]); }
					printf("]");
				}
				printf("]");
				delete[] v; delete[] y;
			} else if (op == "MVP") {
				double *v = read(is, x.N), *y = new double[x.N], *w = new double[x.N];
				memcpy(w, v, x.N * sizeof(double));
				for (int i = 0; i < x.N; ++i) y[i] = NAN;
				lib = true; ell_mvp_2D(&x.m, v, y); lib = false;
				vec("y", y, x.N);
				printf(",\"kept\":%s", memcmp(v, w, x.N * sizeof(double)) ? "false" : "true");
				delete[] v; delete[] y; delete[] w;
			} else if (op == "SOLVE") {
				std::string kind; ell_solver s; s.its = -5; s.err = -5.0;
				is >> kind >> s.min_tol >> s.max_its;
				double *b = read(is, x.N), *v = read(is, x.N), *b0 = new double[x.N];
				memcpy(b0, b, x.N * sizeof(double));
				long nv = (long) x.m.nrow * x.m.nnz;
				std::vector<double> vals(x.m.vals, x.m.vals + nv);
				std::vector<int> cols(x.m.cols, x.m.cols + nv);
				int rc, nn = x.N / x.F;
				double tol = s.min_tol; int mx = s.max_its;
				lib = true;
				if (kind == "cg2") rc = ell_solve_cgpd_2D(&s, &x.m, x.F, x.n[0], x.n[1], b, v);
				else if (kind == "cgs") rc = ell_solve_cgpd_struct(&s, &x.m, x.F, x.dim, nn, b, v);
				else rc = ell_solve_jacobi_2D(&s, &x.m, x.F, x.n[0], x.n[1], b, v);
				lib = false;
				bool kept = !memcmp(b, b0, x.N * sizeof(double)) && s.min_tol == tol && s.max_its == mx
					&& !memcmp(vals.data(), x.m.vals, nv * sizeof(double))
					&& !memcmp(cols.data(), x.m.cols, nv * sizeof(int));
				printf(",\"rc\":%d,\"its\":%d,\"kept\":%s,\"err\":", rc, s.its, kept ? "true" : "false");
				num(s.err);
				vec("x", v, x.N);
				delete[] b; delete[] v; delete[] b0;
			} else if (op == "FREE") {
				lib = true; ell_free(&x.m); lib = false;
				mats.erase(h);
			} else return 3;
		}
		printf(",\"bytes\":%ld", live_bytes - bbefore);
		printf(",\"alloc\":%ld}\n", live_blocks - before);
		fflush(stdout);
	}
	for (auto &p : mats) ell_free(&p.second.m);
	return 0;
}
