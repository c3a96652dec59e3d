From b3efa9454668a50483f6aec0293d870607e6adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 01/13] fix: honour the linearity threshold given to the
 constructor

inv_tol was initialised from the member array micro_params, which is not
filled yet at that point, instead of the constructor argument.
---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From 3df90ce52e61c830e3341264daf421a118477ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 02/13] fix: count Newton-Raphson iterations

*its++ advanced the pointer, not the counter: the iteration limit compared
memory behind the caller's variable and the reported count stayed 0.
---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From 9cacf8232d635a2ddcf9b356364a88c9ed0d5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 03/13] fix: average stress and strain over the volume in 3D

Both averages divided the volume integral by lx * ly only, which is wrong
for every 3D cell with lz != 1.
---
 src/assembly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..64f7d26 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -784,7 +784,7 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -840,7 +840,7 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 21d28224bc0569ea51d55052a463a089f142acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 04/13] fix: clear all boundary columns in ell_set_bc_2D

Along y = ly - hy only one of the three columns was cleared, and along
x = lx - hx (and its corner with y = ly - hy) rows of the boundary itself
were cleared instead of the rows of the internal nodes next to it.
---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..cd5c5ad 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -461,7 +461,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -482,7 +482,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -516,7 +516,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From ca5c67415805c979c647886c57f4908ffaccb775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 05/13] fix: column of the upper neighbour on the x = lx side
 in ell_init_2D

The slot of node i + nx pointed back to node i.
---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index cd5c5ad..e9f97f0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -837,7 +837,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From d7cb4ddb00a8519e5818414b8b2ae6802821d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 06/13] fix: release the work vectors of ell_solve_jacobi_2D

---
 src/ell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell.cpp b/src/ell.cpp
index e9f97f0..8d5047f 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0


From 9a025a05084b0fc4d98052754b1092a5cb3cbdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 07/13] fix: keep the pending internal variables of the latest
 homogenization

When a step was homogenized again with a strain that does not yield, the
pending variables of the abandoned trial stayed in place and update_vars
committed them.
---
 src/homogenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..04710af 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -177,9 +177,10 @@ void micropp_t::homogenize()
 					for (int i = 0; i < num_int_vars; ++i)
 						gp.int_vars_n[i] = 0.0;
 				}
+			}
+			if (gp.int_vars_k != NULL)
 				for (int i = 0; i < num_int_vars; ++i)
 					gp.int_vars_k[i] = vars_new[i];
-			}
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From 0616213fb1373be313096599c9ecce92ed5ddfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 08/13] fix: an element is non-linear when any of its Gauss
 points is

The flag was overwritten by each Gauss point, so only the last one counted
and plastic flow confined to the others was never stored.
---
 src/assembly.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 64f7d26..81db1c4 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -702,6 +702,7 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 {
 	double bmat[6][3 * 8], cxb[6][3 * 8], stress_gp[6];
 
+	*non_linear = false;
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
@@ -709,9 +710,12 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 
 		calc_bmat_3D(gp, bmat);
 
+		bool non_linear_gp;
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From 22bc6403d67f70896bf1b4f21fc1accb0068d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 09/13] fix: shear terms of the plastic strain in the trial
 stress

The plastic strain is stored with tensor shear components (it grows by
dl * normal) and the total strain with engineering ones, so the trial
stress has to subtract twice the stored value. Without it the state
committed after yielding in shear did not reproduce the stress of the step.
---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 81db1c4..c661048 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1026,7 +1026,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);	// eps is 2*e_ij, eps_p is e_ij
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From 659ca3195622f8df46951b7c156d0726780a0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 10/13] fix: do not compute or print with uninitialised memory

The first Newton-Raphson solves started from an uninitialised displacement
field and internal variables, and Gauss points not homogenized yet (or the
unused components in 2D) were printed with whatever was on the stack.
---
 src/homogenize.cpp | 2 +-
 src/micro.cpp      | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 04710af..6613889 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = {};
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..a4de5de 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -67,6 +67,13 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
 
+	for (int i = 0; i < nn * dim; i++)
+		u[i] = 0.0;
+	for (int i = 0; i < num_int_vars; i++) {
+		vars_old[i] = 0.0;
+		vars_new[i] = 0.0;
+	}
+
 	int nParams;
 	if (micro_type == 0) {
 		// mat 1 = matrix
-- 
2.43.0


From c6451cf47fae9d0911c1f6cc994f76d8161ab13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:23 +0000
Subject: [PATCH 11/13] fix: release the previous instance when the wrapper
 constructs again

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..35926d3 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,7 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0


From 2209b972795d836dc66aebf5190fa2372c861fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:28 +0000
Subject: [PATCH 12/13] fix: start the equilibrium iteration from the affine
 field

The interior displacement left by the previous solve (another Gauss point,
an abandoned strain, a snapshot) was the starting point of the next one, and
Newton could cycle from there and fail for states that are trivially elastic.
---
 src/assembly.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index c661048..fd6ccda 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -28,6 +28,25 @@ using namespace std;
 
 void micropp_t::set_displ(double *eps)
 {
+	// interior nodes start from the affine field, not from the previous solve
+	for (int k = (dim == 2) ? 0 : 1; k < ((dim == 2) ? 1 : nz - 1); k++) {
+		for (int j = 1; j < ny - 1; j++) {
+			for (int i = 1; i < nx - 1; i++) {
+				int n = nod_index(i, j, k);
+				double xcoor = i * dx;
+				double ycoor = j * dy;
+				if (dim == 2) {
+					u[n * dim] = eps[0] * xcoor + 0.5 * eps[2] * ycoor;
+					u[n * dim + 1] = 0.5 * eps[2] * xcoor + eps[1] * ycoor;
+				} else {
+					double zcoor = k * dz;
+					u[n * dim] = eps[0] * xcoor + 0.5 * eps[3] * ycoor + 0.5 * eps[4] * zcoor;
+					u[n * dim + 1] = 0.5 * eps[3] * xcoor + eps[1] * ycoor + 0.5 * eps[5] * zcoor;
+					u[n * dim + 2] = 0.5 * eps[4] * xcoor + 0.5 * eps[5] * ycoor + eps[2] * zcoor;
+				}
+			}
+		}
+	}
 
 	if (dim == 2) {
 		// y = 0
-- 
2.43.0


From b2af8c58fb52e33d3fd7e072867d5aebeb16897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 13/13] fix: linear solvers respect an iteration limit of 0

With max_its = 0 the conjugate-gradient solvers still made one iteration
and reported its = 1, and the Jacobi solver reported an uninitialised
error.
---
 src/ell.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index 8d5047f..453ab65 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -80,6 +80,13 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	double err;
 	double min_tol = solver->min_tol;
 
+	// residual of the start vector, reported if no iteration is allowed
+	err = 0;
+	ell_mvp_2D(m, x, e_i);
+	for (int i = 0; i < m->nrow; i++)
+		err += (e_i[i] - b[i]) * (e_i[i] - b[i]);
+	err = sqrt(err);
+
 	while (its < max_its) {
 		err = 0;
 		int i = 0;
@@ -161,7 +168,7 @@ int ell_solve_cgpd_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx, in
 			err += r[i] * r[i];
 		//    cout << "cg_err = " << err << endl;
 		err = sqrt(err);
-		if (err < solver->min_tol)
+		if (err < solver->min_tol || its >= solver->max_its)
 			break;
 
 		for (int i = 0; i < m->nrow; i++)
@@ -256,7 +263,7 @@ int ell_solve_cgpd_struct(ell_solver *solver, ell_matrix *m, int nFields, int di
 		for (int i = 0; i < m->nrow; i++)
 			err += r[i] * r[i];
 		err = sqrt(err);
-		if (err < solver->min_tol)
+		if (err < solver->min_tol || its >= solver->max_its)
 			break;
 
 		for (int i = 0; i < m->nrow; i++)
-- 
2.43.0

