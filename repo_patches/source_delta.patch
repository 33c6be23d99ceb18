From 3e99a69eb71cd3432a9fe75023b2593d173c3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 01/19] fix: keep the -I diagonal of the KKT matrix for an
 all-zero row of G

formkktmatrix_full/_U appended the diagonal entry from inside the loop over
the row's nonzeros, so a row of G without nonzeros lost its -1 (and
updatekktmatrix then overwrote an entry of the previous column).
---
 src/Auxilary.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..b90a016 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -41,13 +41,10 @@ void formkktmatrix_U(smat *P, smat *G, smat *Gt, smat *kkt)
 			kkt->ir[kkt_nnz] = Gt->ir[j];
 			kkt->pr[kkt_nnz] = Gt->pr[j];
 			kkt_nnz++;
-			if (j == Gt->jc[i + 1] - 1)
-			{
-				kkt->ir[kkt_nnz] = P->n + i;
-				kkt->pr[kkt_nnz] = -1.0;
-				kkt_nnz++;
-			}
 		}
+		kkt->ir[kkt_nnz] = P->n + i;
+		kkt->pr[kkt_nnz] = -1.0;
+		kkt_nnz++;
 		kkt->jc[i + 1 + P->n] = kkt_nnz;
 	}
 }
@@ -123,13 +120,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +162,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From 7921fdb023fe53dc9d2c8085647e3036ed4fc5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 02/19] fix: report QP_MAXIT from the iterations of the current
 solve

IterationCount accumulates over repeated QP_SOLVE calls, so comparing it
with maxit let a later solve that hit the limit return the stale
QP_OPTIMAL of an earlier one (or report QP_MAXIT for a converged one).
---
 src/qpSWIFT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..23d5434 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -601,7 +601,7 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From 7ce8a2699ba31bd8411660016c61cba7a59e2c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 03/19] fix: fval and residuals describe the returned iterate
 at QP_MAXIT

When the iteration limit ended the solve, fval and the residual norms still
belonged to the previous iterate (and were uninitialised for maxit = 0).
---
 src/qpSWIFT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 23d5434..c07de1a 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -604,6 +604,9 @@ qp_int QP_SOLVE(QP *myQP)
 		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
+			/* Report the residuals and the objective of the returned iterate */
+			computeresiduals(myQP);
+			myQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);
 		}
 	}
 
-- 
2.43.0


From 2cc5cf14ac40d218b054e07d1a7a2498e047b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 04/19] fix: initialise n_ry, which is printed even without
 equality constraints

---
 src/qpSWIFT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index c07de1a..679387b 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -81,6 +81,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_ry = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -282,6 +283,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_ry = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
-- 
2.43.0


From e8ce6a13720024c9375344ddcd887f91b7eb15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 05/19] fix: fallback ordering writes past the permutation when
 A or b is NULL

The identity ordering used after an AMD failure was sized with the p argument
although the vector is allocated for the effective number of equality
constraints, which is 0 when A or b is NULL.
---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 679387b..8d1b2ef 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -210,7 +210,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -433,7 +433,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From f3670d3891a4b06b42e8ab60158f40429391e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 06/19] fix: python: reject zero-dimensional c, h and b instead
 of crashing

The first dimension was read before the number of dimensions was checked,
which dereferences NULL for a 0-d array.
---
 python/pyqpSWIFT.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..18b7f09 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -84,20 +84,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         return NULL;
     }
 
-    qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
-    if (b && A)
-    {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
-    }
-    else
-    {
-        p = 0;
-    }
+    qp_int n, m, p = 0;
 
     /*Check Input Data here*/
     /*---- c vector ------*/
@@ -106,6 +93,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "c must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(c);
+    n = (qp_int)dims[0];
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -114,6 +103,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "h must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(h);
+    m = (qp_int)dims[0];
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
@@ -125,6 +116,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             PyErr_SetString(PyExc_TypeError, "b must be a floating array with one dimension");
             return NULL;
         }
+        dims = PyArray_DIMS(b);
+        p = (qp_int)dims[0];
         /*---- b vector ------*/
 
         /*---- A Matrix ------*/
-- 
2.43.0


From 4c67b4bd85280e1a76be725d475bbfec19d75687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 07/19] fix: python: do not leak a reference to a rejected
 option value

The values are borrowed from the opts dictionary; the extra reference taken
was not released on the error paths.
---
 python/pyqpSWIFT.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 18b7f09..e90f62f 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -180,7 +180,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
         if (opts_maxiter)
         {
-            Py_INCREF(opts_maxiter);
             if (qpLong_check(opts_maxiter) && qp_getlong(opts_maxiter) < 200 && qp_getlong(opts_maxiter) > 0)
             {
                 inopts.maxit = (qp_int)qp_getlong(opts_maxiter);
@@ -190,14 +189,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
                 return NULL;
             }
-            Py_DECREF(opts_maxiter);
         }
 
         opts_abstol = PyDict_GetItemString(opts, "ABSTOL");
 
         if (opts_abstol)
         {
-            Py_INCREF(opts_abstol);
             if (PyFloat_Check(opts_abstol) && PyFloat_AsDouble(opts_abstol) < 1.0 && PyFloat_AsDouble(opts_abstol) > 0.0)
             {
                 inopts.abstol = (qp_real)PyFloat_AsDouble(opts_abstol);
@@ -207,14 +204,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_abstol);
         }
 
         opts_reltol = PyDict_GetItemString(opts, "RELTOL");
 
         if (opts_reltol)
         {
-            Py_INCREF(opts_reltol);
             if (PyFloat_Check(opts_reltol) && PyFloat_AsDouble(opts_reltol) < 1.0 && PyFloat_AsDouble(opts_reltol) > 0.0)
             {
                 inopts.reltol = (qp_real)PyFloat_AsDouble(opts_reltol);
@@ -224,14 +219,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_reltol);
         }
 
         opts_sigma = PyDict_GetItemString(opts, "SIGMA");
 
         if (opts_sigma)
         {
-            Py_INCREF(opts_sigma);
             if (PyFloat_Check(opts_sigma) && PyFloat_AsDouble(opts_sigma) > 0.0)
             {
                 inopts.sigma = (qp_real)PyFloat_AsDouble(opts_sigma);
@@ -241,14 +234,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_sigma);
         }
 
         opts_verbose = PyDict_GetItemString(opts, "VERBOSE");
 
         if (opts_verbose)
         {
-            Py_INCREF(opts_verbose);
             if (qpLong_check(opts_verbose) && qp_getlong(opts_verbose) >= 0)
             {
                 inopts.verbose = (qp_int)qp_getlong(opts_verbose);
@@ -259,14 +250,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_verbose);
         }
 
         opts_output = PyDict_GetItemString(opts, "OUTPUT");
 
         if (opts_output)
         {
-            Py_INCREF(opts_output);
             if (qpLong_check(opts_output) && qp_getlong(opts_output) >= 0)
             {
                 opts_output_level = (qp_int)qp_getlong(opts_output);
@@ -277,7 +266,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-            Py_DECREF(opts_output);
         }
     }
 
-- 
2.43.0


From e21bd0049d968c2adc09a1b7efa66529e7980012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 08/19] fix: python: honour an exception raised by the OUTPUT
 warning

An OUTPUT value too large for a C long, or a warning filter that turns the
warning into an error, left an exception set while a result was returned
(SystemError).
---
 python/pyqpSWIFT.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index e90f62f..84e8d01 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -262,7 +262,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From 8b6ba0f57618170c79281f8667f31d74e9e5a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 09/19] fix: report the factorisation time of the current solve

ldl_numeric accumulated over repeated QP_SOLVE calls while the solve and KKT
times are those of the last call, so the part could exceed the whole.
---
 src/qpSWIFT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8d1b2ef..a4df2cd 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -482,6 +482,8 @@ qp_int QP_SOLVE(QP *myQP)
 
 	qp_int Flag_kkt;
 
+	myQP->stats->ldl_numeric = 0.0;
+
 #ifndef MATLAB_MEX_FILE
 	if (myQP->options->verbose > 0)
 	{
-- 
2.43.0


From a1a84c6a008be703b7cc3284abfe059811e7f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 10/19] fix: problems without inequality constraints

With m = 0 the starting point read one element past an empty vector and the
average complementarity was 0/0, so the solver never reported an optimum.
---
 src/Auxilary.c | 6 +++---
 src/qpSWIFT.c  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index b90a016..1e9625c 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -773,7 +773,7 @@ void computeresiduals(QP *myQP)
 
 	myQP->stats->n_rz = norm(myQP->rz, myQP->m);
 
-	myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m;
+	myQP->stats->n_mu = myQP->m ? innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m : 0;
 }
 
 /*!
@@ -953,8 +953,8 @@ void SparseMatrixTranspose(smat *A, smat *At)
 void findminmax(qp_real *z, long n, qp_real *min, qp_real *max)
 {
 
-	min[0] = z[0];
-	max[0] = z[0];
+	min[0] = n > 0 ? z[0] : 0;
+	max[0] = min[0];
 	qp_int i;
 	for (i = 1; i < n; i++)
 	{
diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index a4df2cd..9c544d4 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -539,7 +539,7 @@ qp_int QP_SOLVE(QP *myQP)
 
 			/* Updates lambda and mu */
 			formlambda(myQP->lambda, myQP->s, myQP->z, myQP->m);
-			myQP->mu = innerproduct(myQP->lambda, myQP->lambda, myQP->m) / myQP->m;
+			myQP->mu = myQP->m ? innerproduct(myQP->lambda, myQP->lambda, myQP->m) / myQP->m : 0;
 
 			if (myQP->options->sigma > myQP->sigma_d)
 			{
-- 
2.43.0


From 08d8f042bea9e8cc6d2864f59d09765557506bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 11/19] fix: count the factorisation of pure centering steps in
 the reported factorisation time

---
 src/Auxilary.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 1e9625c..3b1fc6e 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -520,7 +520,10 @@ void kktsolve_2(QP *myQP)
 
 	if(myQP->stats->resolve_kkt)
 	{
-		qp_int d = LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);
+		qp_timer t;
+		tic(&t);
+		LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);
+		myQP->stats->ldl_numeric += toc(&t);
 	}
     
 	LDL_perm(n, myQP->delta, myQP->kkt->b, myQP->kkt->P);
-- 
2.43.0


From a7d09ee362ce6cd9ce21dba20f4b1085002dd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 12/19] fix: reject option values of the MATLAB gateway that
 are not numbers within their range

---
 matlab/qpSWIFT_mex.c | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index eeebc68..4c8fbb2 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -99,6 +99,21 @@ char helpstr[] = {
 "      -> s          : Primal Slack Variables \n"
 };
 
+/* Returns the value of an option, which must be a real number within [lo, hi] */
+static double option_value(const mxArray *field, double lo, double hi, const char *msg)
+{
+    double value;
+
+    if (!(mxIsNumeric(field) || mxIsLogical(field)) || mxIsSparse(field) || mxIsEmpty(field))
+        mexErrMsgTxt(msg);
+
+    value = mxGetScalar(field);
+    if (!(value >= lo && value <= hi))
+        mexErrMsgTxt(msg);
+
+    return value;
+}
+
 void mexFunction(int nlhs, mxArray *plhs[],
                  int nrhs, const mxArray *prhs[])
 {
@@ -440,44 +455,26 @@ void mexFunction(int nlhs, mxArray *plhs[],
 
     if (sttgs_maxiter)
     {
-
-        if (*mxGetPr(sttgs_maxiter) < 0 || *mxGetPr(sttgs_maxiter) > 200)
-            mexErrMsgTxt("Iteration Number must be within 0 and 200");
-
-        myQP->options->maxit = (qp_int)(*mxGetPr(sttgs_maxiter));
+        myQP->options->maxit = (qp_int)option_value(sttgs_maxiter, 0, 200, "Iteration Number must be within 0 and 200");
     }
 
     if (sttgs_abstol)
     {
-
-        if (*mxGetPr(sttgs_abstol) < 0 || *mxGetPr(sttgs_abstol) > 1)
-            mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
-
-        myQP->options->abstol = (qp_real)(*mxGetPr(sttgs_abstol));
+        myQP->options->abstol = (qp_real)option_value(sttgs_abstol, 0, 1, "Absolute Tolerance must be within 0 and 1");
     }
     if (sttgs_reltol)
     {
-
-        if (*mxGetPr(sttgs_reltol) < 0 || *mxGetPr(sttgs_reltol) > 1)
-            mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
-
-        myQP->options->reltol = (qp_real)(*mxGetPr(sttgs_reltol));
+        myQP->options->reltol = (qp_real)option_value(sttgs_reltol, 0, 1, "Relative Tolerance must be within 0 and 1");
     }
 
     if (sttgs_sigma)
     {
-        myQP->options->sigma = (qp_real)(*mxGetPr(sttgs_sigma));
-        if (*mxGetPr(sttgs_sigma) < 0)
-            mexErrMsgTxt("Sigma must be positive");
+        myQP->options->sigma = (qp_real)option_value(sttgs_sigma, 0, mxGetInf(), "Sigma must be positive");
     }
 
     if (sttgs_verbose)
     {
-
-        if (*mxGetPr(sttgs_verbose) < 0)
-            mexErrMsgTxt("Verbose must be positive");
-
-        myQP->options->verbose = (qp_real)(*mxGetPr(sttgs_verbose));
+        myQP->options->verbose = (qp_real)option_value(sttgs_verbose, 0, mxGetInf(), "Verbose must be positive");
     }
 
     if (myQP->options->verbose > 0)
-- 
2.43.0


From 8fcfc6a6f1179a14c07e5844f5a787ec64a2cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 13/19] fix: reject fractional entries in the permutation of
 the MATLAB gateway

---
 matlab/qpSWIFT_mex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 4c8fbb2..bb6e51f 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -426,6 +426,9 @@ void mexFunction(int nlhs, mxArray *plhs[],
         // Change Matlab Indexing to C-based Indexing
         for (qp_int i = 0; i < n + m + p; i++)
         {
+            if (!(pr[i] >= 1 && pr[i] <= n + m + p) || pr[i] != (qp_int)pr[i])
+                mexErrMsgTxt("Not a Valid Permutation Vector");
+
             Permutpr[i] = pr[i] - 1;
         }
 
-- 
2.43.0


From 54fe856e967a0c5b6660cecea1ba6f03cf4e6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 14/19] fix: reject options of the MATLAB gateway that are not
 a structure

---
 matlab/qpSWIFT_mex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index bb6e51f..d15f05a 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -327,6 +327,9 @@ void mexFunction(int nlhs, mxArray *plhs[],
             mexErrMsgTxt("b should be a column vector");
     }
 
+    if (sttgs && !mxIsStruct(sttgs) && !mxIsEmpty(sttgs))
+        mexErrMsgTxt("opts should be a structure");
+
     sttgs_maxiter = sttgs ? mxGetField(sttgs, 0, "MAXITER") : 0;
     if (!sttgs_maxiter)
     {
-- 
2.43.0


From 9900fe9973ae18f6d1e1c7f4103d479ab234c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 15/19] fix: honour the documented spelling of the permutation
 option of the MATLAB gateway

---
 matlab/qpSWIFT_mex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index d15f05a..48b7ed2 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -365,6 +365,10 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
         sttgs_permut = sttgs ? mxGetField(sttgs, 0, "permut") : 0;
     }
+    if (!sttgs_permut)
+    {
+        sttgs_permut = sttgs ? mxGetField(sttgs, 0, "Permut") : 0;
+    }
 
     if (sttgs_permut)
     {
-- 
2.43.0


From fe4c3e793fcb4e37762ca07588fbe1f0143d1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 16/19] fix: reject N-dimensional arrays given as vectors to
 the MATLAB gateway

---
 matlab/qpSWIFT_mex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 48b7ed2..429f5a2 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -309,13 +309,13 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (!mxIsDouble(c) || mxIsSparse(c) || mxIsComplex(c))
         mexErrMsgTxt("c should be a real dense vector");
 
-    if (MIN(size_c[0], size_c[1]) != 1)
+    if (mxGetNumberOfDimensions(c) != 2 || MIN(size_c[0], size_c[1]) != 1)
         mexErrMsgTxt("c should be a column vector");
 
     if (!mxIsDouble(h) || mxIsSparse(h) || mxIsComplex(h))
         mexErrMsgTxt("h should be a real dense vector");
 
-    if (MIN(size_h[0], size_h[1]) != 1)
+    if (mxGetNumberOfDimensions(h) != 2 || MIN(size_h[0], size_h[1]) != 1)
         mexErrMsgTxt("h should be a column vector");
 
     if (A)
@@ -323,7 +323,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
         if (!mxIsDouble(b) || mxIsSparse(b) || mxIsComplex(b))
             mexErrMsgTxt("b should be a real dense vector");
 
-        if (MIN(size_b[1], size_b[0]) != 1)
+        if (mxGetNumberOfDimensions(b) != 2 || MIN(size_b[1], size_b[0]) != 1)
             mexErrMsgTxt("b should be a column vector");
     }
 
@@ -377,7 +377,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
         if (!mxIsDouble(sttgs_permut) || mxIsSparse(sttgs_permut) || mxIsComplex(sttgs_permut))
             mexErrMsgTxt("Permut should be a real dense vector");
 
-        if (MIN(size_Permut[1], size_Permut[0]) != 1)
+        if (mxGetNumberOfDimensions(sttgs_permut) != 2 || MIN(size_Permut[1], size_Permut[0]) != 1)
             mexErrMsgTxt("Permut should be a column vector");
 
         if (MAX(size_Permut[1], size_Permut[0]) != n + m + p)
-- 
2.43.0


From 8498b8c28b2678fee9457f168c0ed17ab96437d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 17/19] fix: require contiguous input signals in the Simulink
 blocks

---
 simulink/qpSWIFT_sfunc.c   | 19 +++++++++++++------
 simulink/qpSWIFT_sfunc_e.c | 25 +++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/simulink/qpSWIFT_sfunc.c b/simulink/qpSWIFT_sfunc.c
index 9fbb4a5..955eccb 100644
--- a/simulink/qpSWIFT_sfunc.c
+++ b/simulink/qpSWIFT_sfunc.c
@@ -61,6 +61,13 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 2, 1);
     ssSetInputPortDirectFeedThrough(S, 3, 1);
 
+    /* The signals are passed on as arrays, so they have to be contiguous */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -111,12 +118,12 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_G, in_h, in_sigma_d;
+    const real_T *in_P, *in_c, *in_G, *in_h, *in_sigma_d;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_G = ssGetInputPortRealSignalPtrs(S, 2);
-    in_h = ssGetInputPortRealSignalPtrs(S, 3);
+    in_P = ssGetInputPortRealSignal(S, 0);
+    in_c = ssGetInputPortRealSignal(S, 1);
+    in_G = ssGetInputPortRealSignal(S, 2);
+    in_h = ssGetInputPortRealSignal(S, 3);
 
  
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +144,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     
     
     
-    myQP = QP_SETUP_dense(n, m, 0, *in_P , NULL, *in_G, *in_c, *in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, 0, (qp_real *)in_P, NULL, (qp_real *)in_G, (qp_real *)in_c, (qp_real *)in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
       
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
diff --git a/simulink/qpSWIFT_sfunc_e.c b/simulink/qpSWIFT_sfunc_e.c
index 9b301c8..ad6ce25 100644
--- a/simulink/qpSWIFT_sfunc_e.c
+++ b/simulink/qpSWIFT_sfunc_e.c
@@ -64,6 +64,15 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 4, 1);
     ssSetInputPortDirectFeedThrough(S, 5, 1);
 
+    /* The signals are passed on as arrays, so they have to be contiguous */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+    ssSetInputPortRequiredContiguous(S, 4, 1);
+    ssSetInputPortRequiredContiguous(S, 5, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -115,14 +124,14 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_A, in_b, in_G, in_h;
+    const real_T *in_P, *in_c, *in_A, *in_b, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_A = ssGetInputPortRealSignalPtrs(S, 2);
-    in_b = ssGetInputPortRealSignalPtrs(S, 3);
-    in_G = ssGetInputPortRealSignalPtrs(S, 4);
-    in_h = ssGetInputPortRealSignalPtrs(S, 5);
+    in_P = ssGetInputPortRealSignal(S, 0);
+    in_c = ssGetInputPortRealSignal(S, 1);
+    in_A = ssGetInputPortRealSignal(S, 2);
+    in_b = ssGetInputPortRealSignal(S, 3);
+    in_G = ssGetInputPortRealSignal(S, 4);
+    in_h = ssGetInputPortRealSignal(S, 5);
 
    
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +146,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     m = (qp_int)size_h;
 
 
-    myQP = QP_SETUP_dense(n, m, p, *in_P , *in_A, *in_G, *in_c, *in_h, *in_b, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, p, (qp_real *)in_P, (qp_real *)in_A, (qp_real *)in_G, (qp_real *)in_c, (qp_real *)in_h, (qp_real *)in_b, NULL, COLUMN_MAJOR_ORDERING);
     
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
-- 
2.43.0


From 15a2b64b6addc3da99d067e9bbc2cdbdb9e49da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 18/19] fix: test the end of the column before its entries in
 LDL_cache_numeric

---
 src/ldl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldl.c b/src/ldl.c
index a32d714..beeb81e 100644
--- a/src/ldl.c
+++ b/src/ldl.c
@@ -406,7 +406,7 @@ qp_int UPattern[] /*Update Pattern of subsequent iterations*/
 		else{
 			/*for (jj = Ltp[k]; jj < Ltp[k + 1]; jj++)
 				++work[Lti[jj]];*/
-			for (jj = Lp[k]; UPattern[Li[jj]] != n && jj < Lp[k + 1]; jj++, work[k]++);
+			for (jj = Lp[k]; jj < Lp[k + 1] && UPattern[Li[jj]] != n; jj++, work[k]++);
 		}
 
 	}
-- 
2.43.0


From ee572466304960bfbe92c68168b75ebd75663d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 19/19] fix: stop at the root of the elimination tree before
 reading its mark in test_reach

---
 src/Auxilary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 3b1fc6e..c2a322e 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -1105,7 +1105,7 @@ void test_reach(qp_int *Parent, qp_int *Pinv, qp_int *UPattern, qp_int n, qp_int
 	{
 		i = Pinv[j];
 
-		for (; UPattern[i] != top && i != -1; i = Parent[i])
+		for (; i != -1 && UPattern[i] != top; i = Parent[i])
 		{
 			UPattern[i] = top;
 		}
-- 
2.43.0

