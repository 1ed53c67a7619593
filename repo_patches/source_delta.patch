From e7879ae043048d2949b7dac595d6cb16de1311f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 01/96] fix: tools.matvec.matvec ignored its arguments out,
 overwrite_out and a

---
 quspin/tools/matvec/matvec_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/matvec/matvec_core.py b/quspin/tools/matvec/matvec_core.py
index 66fd70f..dbd3314 100644
--- a/quspin/tools/matvec/matvec_core.py
+++ b/quspin/tools/matvec/matvec_core.py
@@ -98,7 +98,7 @@ def matvec(array,other,overwrite_out=False,out=None,a=1.0):
 	"""
 
 
-	return _matvec(array,other,overwrite_out=False,out=None,a=1.0)
+	return _matvec(array,other,overwrite_out=overwrite_out,out=out,a=a)
 
 
 
-- 
2.43.0


From 6bee0c15138dcd2fd861c07bada575c5bffc7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 02/96] fix: csr_matvecs ignored the column stride of a
 column-major output

---
 quspin/tools/matvec/_oputils/csr.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/matvec/_oputils/csr.h b/quspin/tools/matvec/_oputils/csr.h
index be291eb..fee24e5 100644
--- a/quspin/tools/matvec/_oputils/csr.h
+++ b/quspin/tools/matvec/_oputils/csr.h
@@ -122,14 +122,16 @@ void csr_matvecs_noomp_strided(const bool overwrite_y,
     }
     else{
         for(I m=0;m<n_vecs; m++){
+            T3 * y_row = y;
             for(I k = 0; k<n_row; k++){
                 for(I jj = Ap[k]; jj < Ap[k+1]; jj++){
                     const npy_intp ii = x_stride_row *  Aj[jj];
-                    (*y) += (a * Ax[jj]) * x[ii];
+                    (*y_row) += (a * Ax[jj]) * x[ii];
                 }
-                y += y_stride_row;
+                y_row += y_stride_row;
             }
             x += x_stride_col;
+            y += y_stride_col;
         }
     }
 }
-- 
2.43.0


From 25c88ff9eaa8b142f4de19a0934a846a8736f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/96] fix: sparse matvec wrote through an out array of the
 wrong dtype or shape and dropped the imaginary part of the scalar a

---
 quspin/tools/matvec/_oputils.pyx | 37 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/quspin/tools/matvec/_oputils.pyx b/quspin/tools/matvec/_oputils.pyx
index 43a976b..e887aff 100644
--- a/quspin/tools/matvec/_oputils.pyx
+++ b/quspin/tools/matvec/_oputils.pyx
@@ -505,14 +505,33 @@ def _dia_matvecs(bool overwrite_y, indtype[::1] offsets ,T1[:,::1] diags, T1 a,
 
 """
 
+def _prepare_args(mat_obj,other,overwrite_out,out,a):
+  if _np.iscomplexobj(a) and _np.iscomplexobj(other) and not _np.issubdtype(mat_obj.dtype,_np.complexfloating):
+    # the kernels take 'a' with the type of the matrix, which cannot hold it.
+    other = _np.multiply(a,other,dtype=other.dtype)
+    a = 1.0
 
-def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
+  a = _np.array(a,dtype=mat_obj.dtype)
+
+  shape = mat_obj.shape[:1]+other.shape[1:]
   if out is None:
     overwrite_out = True
     result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
-    out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
+    out = _np.zeros(shape,dtype=result_dtype,order="C")
+  elif out.dtype != other.dtype:
+    raise TypeError("'out' must have the same dtype as the input vector(s).")
+  elif out.shape != shape:
+    raise ValueError("'out' has the wrong shape for the result of the product.")
+
+  if other.shape[0] != mat_obj.shape[1]:
+    raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(mat_obj.shape,other.shape))
+
+  return other,overwrite_out,out,a
+
+
+def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
+  other,overwrite_out,out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
 
-  a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _csr_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
   else:
@@ -524,12 +543,8 @@ def _csr_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
 
 def _csc_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
-  if out is None:
-    overwrite_out = True
-    result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
-    out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
+  other,overwrite_out,out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
 
-  a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _csc_matvec(overwrite_out,mat_obj.indptr,mat_obj.indices,mat_obj.data,a,other,out)
   else:
@@ -539,12 +554,8 @@ def _csc_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
 
 
 def _dia_dot(mat_obj,other,overwrite_out=False,out=None,a=1.0):
-  if out is None:
-    overwrite_out = True
-    result_dtype = _np.result_type(mat_obj.dtype,other.dtype)
-    out = _np.zeros(mat_obj.shape[:1]+other.shape[1:],dtype=result_dtype,order="C")
+  other,overwrite_out,out,a = _prepare_args(mat_obj,other,overwrite_out,out,a)
 
-  a = _np.array(a,dtype=mat_obj.dtype)
   if other.ndim == 1:
     _dia_matvec(overwrite_out,mat_obj.offsets,mat_obj.data,a,other,out)
   else:
-- 
2.43.0


From 4cde6ddd4c385074a81b00e06ea839a18ebc755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 04/96] fix: expm_multiply_parallel.set_a failed whenever a
 dtype was given

---
 .../expm_multiply_parallel_core/expm_multiply_parallel_core.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
index 7914aa5..fccc4fe 100644
--- a/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
+++ b/quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py
@@ -129,7 +129,7 @@ class expm_multiply_parallel(object):
             if dtype is None:
                 self._dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float64)
             else:
-                min_dtype = _np.result_type(A.dtype,a_dtype_min,_np.float32)
+                min_dtype = _np.result_type(self._A.dtype,a_dtype_min,_np.float32)
                 if not _np.can_cast(min_dtype,dtype):
                     raise ValueError("dtype not sufficient to represent a*A to at least float32 precision.")
 
-- 
2.43.0


From 8c5e7ce965ab15685c982eb64e05c4c773203e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 05/96] fix: expm_multiply lost part of the vector when the
 OpenMP runtime granted fewer threads than omp_get_max_threads()

---
 .../source/expm_multiply_parallel.h              | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h b/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h
index f625fb3..0603b4a 100644
--- a/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h
+++ b/quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel.h
@@ -67,12 +67,12 @@ void expm_multiply(const I n,
 			)
 {
 
-	const int num_threads = omp_get_max_threads();
-	std::vector<I> rco_vec(num_threads,0);
-	std::vector<T3> vco_vec(num_threads,0);
-	std::vector<T2> c1_threads_vec(num_threads,0);
-	std::vector<T2> c2_threads_vec(num_threads,0);
-	std::vector<T2> c3_threads_vec(num_threads,0);
+	const int max_threads = omp_get_max_threads();
+	std::vector<I> rco_vec(max_threads,0);
+	std::vector<T3> vco_vec(max_threads,0);
+	std::vector<T2> c1_threads_vec(max_threads,0);
+	std::vector<T2> c2_threads_vec(max_threads,0);
+	std::vector<T2> c3_threads_vec(max_threads,0);
 
 	T3 * B1 = work;
 	T3 * B2 = work + n;
@@ -83,8 +83,10 @@ void expm_multiply(const I n,
 	T2 * c3_threads = &c3_threads_vec[0];
 	bool exit_loop=false;
 
-	#pragma omp parallel shared(exit_loop,c1_threads,c2_threads,c3_threads,F,B1,B2,rco,vco) firstprivate(num_threads)
+	#pragma omp parallel shared(exit_loop,c1_threads,c2_threads,c3_threads,F,B1,B2,rco,vco)
 	{
+		// the runtime may provide fewer threads than omp_get_max_threads().
+		const int num_threads = omp_get_num_threads();
 		const int tid = omp_get_thread_num();
 		const I items_per_thread = (n+num_threads-1)/num_threads;
 		const I begin = std::min(items_per_thread * tid, n);
-- 
2.43.0


From 2ba58fcd82c7a0ea2b1757c72cc2ec701f87f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 06/96] fix: spinless_fermion_basis_general with several
 particle numbers kept only the last one

---
 quspin/basis/basis_general/fermion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index b1379d2..412521d 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -127,11 +127,12 @@ class spinless_fermion_basis_general(basis_general):
 				Np_iter = iter(Nf)
 			except TypeError:
 				raise TypeError("Nf must be integer or iterable object.")
+			Nf = list(Np_iter)
 			self._Ns = 0
-			for Nf in Np_iter:
-				if Nf > N or Nf < 0:
+			for n in Nf:
+				if n > N or n < 0:
 					raise ValueError("particle number Nf must satisfy: 0 <= Nf <= N")
-				self._Ns += comb(N,Nf,exact=True)
+				self._Ns += comb(N,n,exact=True)
 
 		self._pcon_args = dict(N=N,Nf=Nf)
 
-- 
2.43.0


From 0c09ed481103133a745f2d652e08125eb6ad459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 07/96] fix: spin_basis_general with S>1/2 failed for several
 magnetisations

---
 quspin/basis/basis_general/base_higher_spin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/base_higher_spin.py b/quspin/basis/basis_general/base_higher_spin.py
index f2ae598..ac5956a 100644
--- a/quspin/basis/basis_general/base_higher_spin.py
+++ b/quspin/basis/basis_general/base_higher_spin.py
@@ -42,11 +42,12 @@ class higher_spin_basis_general(basis_general):
 				Np_iter = iter(Nup)
 			except TypeError:
 				raise TypeError("Nup must be integer or iteratable object.")
+			Nup = list(Np_iter)
 			self._Ns = 0
-			for Nup in Np_iter:
-				self._Ns += H_dim(Nup,N,sps-1)
+			for n in Nup:
+				self._Ns += H_dim(n,N,sps-1)
 
-			self._basis_dtype = get_basis_type(N,max(iter(Nup)),sps)
+			self._basis_dtype = get_basis_type(N,max(Nup),sps)
 
 		if len(self._pers)>0:
 			if Ns_block_est is None:
-- 
2.43.0


From 01c9ff8ef11f7a6efaed9d456413dbba060025b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 08/96] fix: general bases of several particle sectors were not
 sorted for more than 64 bits

---
 quspin/basis/basis_general/base_general.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index cc897d9..c939678 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -772,7 +772,11 @@ class basis_general(lattice_basis):
 			sort_basis = True
 
 		if sort_basis:
-			ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
+			if basis.dtype.kind == "V": # numpy compares the bytes of large integers, not their values.
+				keys = [basis_int_to_python_int(s) for s in basis[:Ns]]
+				ind = _np.array(sorted(range(Ns),key=keys.__getitem__,reverse=True),dtype=_np.intp)
+			else:
+				ind = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
 			self._basis = basis[ind].copy()
 			self._n = n[ind].copy()
 			if Np_list is not None: self._Np_list = Np_list[ind].copy()
-- 
2.43.0


From 2864bc2c0ae5c74aab4c1402e5b8c8ab8f04cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 09/96] fix: spinful_fermion_basis_general.Op_shift_sector did
 not pass its own basis on

---
 quspin/basis/basis_general/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 412521d..55bf6dc 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -644,7 +644,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		else:
 			new_op_list = op_list
 
-		return spinless_fermion_basis_general.Op_shift_sector(other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
+		return spinless_fermion_basis_general.Op_shift_sector(self,other_basis,new_op_list,v_in,v_out=v_out,dtype=dtype)	
 
 	Op_shift_sector.__doc__ = spinless_fermion_basis_general.Op_shift_sector.__doc__
 
-- 
2.43.0


From a196922380adb47ef2654e3fb0789ed94159fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 10/96] fix: an exact Ns_block_est was refused by the
 sequential basis construction

---
 .../source/make_general_basis.h                  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h b/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
index 04ce501..9c02251 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
@@ -79,14 +79,14 @@ npy_intp make_basis_sequential(general_basis_core<I,P> *B,npy_intp MAX,npy_intp
 	bool insuff_mem = false;
 
 	while(MAX != 0){
-		if(Ns>=mem_MAX){
-			insuff_mem = true;
-			break;
-		}
 		double norm = B->check_state(s);
 		npy_intp int_norm = norm;
 		
 		if(!check_nan(norm) && int_norm>0 ){
+			if(Ns>=mem_MAX){
+				insuff_mem = true;
+				break;
+			}
 			basis[Ns] = s;
 			n[Ns] = norm;
 			Ns++;
@@ -113,14 +113,14 @@ npy_intp make_basis_pcon_sequential(general_basis_core<I,P> *B,npy_intp MAX,npy_
 	bool insuff_mem = false;
 
 	while(MAX!=0){
-		if(Ns>=mem_MAX){
-			insuff_mem = true;
-			break;
-		}
 		double norm = B->check_state(s);
 		npy_intp int_norm = norm;
 
 		if(!check_nan(norm) && int_norm>0 ){
+			if(Ns>=mem_MAX){
+				insuff_mem = true;
+				break;
+			}
 			basis[Ns] = s;
 			n[Ns] = norm;
 			Ns++;
-- 
2.43.0


From c9b9f9c8d075d21991eab710af02cd002fc0958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 11/96] fix: boson_basis_general ignored block_order and
 Ns_block_est

---
 quspin/basis/basis_general/boson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index c9640bf..081d4e0 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -152,7 +152,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 								"\n\tn: number operator"+
 								"\n\tz: c-symm number operator")
 
-			hcb_basis_general.__init__(self,N,Nb=Nb,_Np=_Np,_make_basis=make_basis,block_order=block_order,**blocks)
+			hcb_basis_general.__init__(self,N,Nb=Nb,Ns_block_est=Ns_block_est,_Np=_Np,_make_basis=make_basis,block_order=block_order,**blocks)
 		
 		else:
 
@@ -164,7 +164,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 								"\n\tz: ph-symm number operator")
 
 
-			basis_general.__init__(self,N,**blocks)
+			basis_general.__init__(self,N,block_order=block_order,**blocks)
 			self._check_pcon = False
 			self._count_particles = False
 			if _Np is not None and Nb is None:
-- 
2.43.0


From ccf6366f996562e18b7f142986877046fd3eaa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 12/96] fix: make_basis_blocks read the first state of an empty
 basis

---
 .../_basis_general_core/source/make_general_basis.h           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h b/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
index 9c02251..83b8953 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/make_general_basis.h
@@ -38,6 +38,10 @@ int general_make_basis_blocks(general_basis_core<I,P> *B,const int N_p,const npy
 		return 0;
 	}
 
+	if(Ns==0){ // there is no first state to start from
+		return 0;
+	}
+
 
 	npy_intp begin = 0;
 	npy_intp end   = 0;
-- 
2.43.0


From fd03b33dd8fe2193f60c14e445bef54a367ad764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 13/96] fix: Op_bra_ket took phases from the group element left
 over from another state

---
 .../_basis_general_core/source/general_basis_core.h         | 1 +
 .../_basis_general_core/source/general_basis_op.h           | 6 ------
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
index 5226ead..e9ef0a3 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.h
@@ -150,6 +150,7 @@ I ref_state_core_unrolled(general_basis_core<I,P> *B, const I s,int g[],P &phase
 
 	for (int depth=0;depth<nt;depth++){
 		gg[depth] = 0;  // Initialize values
+		g[depth] = 0;   // the identity, in case s is its own representative
 		MAXVALSSUM += (B->pers[depth]-1);
 	}
 
diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 71a530e..f9da6a0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1378,12 +1378,6 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                     
                 }
                 else{ // diagonal matrix element
-
-                    for(int k=0;k<nt;k++){
-                        double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-                        m *= std::exp(std::complex<double>(0,-q));
-                    }
-
                     m *= sign;
 
                     local_err = check_imag(m,&M[i]); // assigns value to M[i]
-- 
2.43.0


From 08fd70475b0018f321d5a83856e1ccd9bb11a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 14/96] fix: spin_basis_general.Op_bra_ket ignored
 reduce_output for S>1/2

---
 quspin/basis/basis_general/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 0f57775..3802d2c 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -370,6 +370,6 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 				n = len(opstr.replace("I","").replace("+","").replace("-",""))
 				ME *= (1<<n)
 		else:
-			return higher_spin_basis_general.Op_bra_ket(self,opstr,indx,J,dtype,ket_states)
+			return higher_spin_basis_general.Op_bra_ket(self,opstr,indx,J,dtype,ket_states,reduce_output=reduce_output)
 
 		return ME,bra,ket
-- 
2.43.0


From 00e0653e89a506eecd81cfadcbbe8fe7dc53c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 15/96] fix: the boson operator 'z' of general bases fell
 through to 'n'

---
 .../basis_general/_basis_general_core/source/boson_basis_core.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
index af83059..e9de55f 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/boson_basis_core.h
@@ -137,6 +137,7 @@ class boson_basis_core : public general_basis_core<I,P>
 				switch(op){
 					case 'z':
 						me_diag *= (occ-S);
+						break;
 					case 'n':
 						me_diag *= occ;
 						break;
-- 
2.43.0


From 6a8821fafc8af7bec7412fde14dbdbe4a95d616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 16/96] fix: Op_shift_sector lost the phase when the operator
 led back to the same representative

---
 .../_basis_general_core/source/general_basis_op.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index f9da6a0..7f62ae5 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1169,8 +1169,9 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
             if(local_err == 0){
                 P sign = 1;
+                const bool not_diag = r != s; // ref_state may return s again
 
-                if(r != s){ // off-diagonal matrix element
+                if(not_diag){ // off-diagonal matrix element
                     for(int k=0;k<nt;k++){g[k]=0;}
                     r = B_out->ref_state(r,g,sign);
                 }
@@ -1179,7 +1180,7 @@ int general_op_shift_sectors(general_basis_core<I1,P> *B_out,
 
                 if(j>=0){ // ref_state is a representative
 
-                    if(r != s){
+                    if(not_diag){
                         double q = 0;
                         for(int k=0;k<nt;k++){
                             q += kk[k]*g[k];                              
-- 
2.43.0


From 03e1db8e462916281cc4c77c5059c466e0c073a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 17/96] fix: Op_bra_ket and get_amp took a rounding residue for
 the norm of a state outside the symmetry sector

---
 .../_basis_general_core/source/general_basis_get_amp.h        | 4 ++--
 .../_basis_general_core/source/general_basis_op.h             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
index 2fedc52..4bfaefa 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_amp.h
@@ -89,7 +89,7 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && (npy_intp)norm_r > 0){ // ref_state is a representative
 
 					phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = phase_factor/std::sqrt(norm_r * per_factor);
@@ -126,7 +126,7 @@ int get_amp_general(general_basis_core<I,P> *B,
 
 				s[i] = r; // update state with representative
 
-				if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+				if(!check_nan(norm_r) && (npy_intp)norm_r > 0){ // ref_state is a representative
 
 					//phase_factor = get_amp_rep(B,nt,r,ss);
 					out_tmp = std::sqrt(norm_r/per_factor);
diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
index 7f62ae5..99dd5c6 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_op.h
@@ -1351,7 +1351,7 @@ int general_op_bra_ket_pcon(general_basis_core<I,P> *B,
                         // use check_state to determine if state is a representative (same routine as in make-general_basis)
                         double norm_r = B->check_state(r);
 
-                        if(!check_nan(norm_r) && norm_r > 0){ // ref_state is a representative
+                        if(!check_nan(norm_r) && (npy_intp)norm_r > 0){ // ref_state is a representative
 
                             for(int k=0;k<nt;k++){
                                 double q = (2.0*M_PI*B->qs[k]*g[k])/B->pers[k];
-- 
2.43.0


From aeccc3f6951ec6df7117ac7bb38840fd7bd2baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 18/96] fix: bit_count of all bits of the integer type (32 or
 64 sites) returned zero

---
 .../basis_general/_basis_general_core/source/bits_info.h    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index 6c85af4..366525e 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -39,7 +39,7 @@ struct bit_info<uint16384_t>
 
 template<>
 struct bit_info<uint8192_t>
-{ enum {ld_bits=13,bits=4096,bytes=1024};
+{ enum {ld_bits=13,bits=8192,bytes=1024};
   typedef int bit_index_type;
 };
 
@@ -118,7 +118,9 @@ typename bit_info<T>::bit_index_type bit_pos(T x, typename bit_info<T>::bit_inde
 
 template<class T>
 int inline bit_count(T v,int l){
-  v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l));
+  if(l < (int)bit_info<T>::bits){
+    v = v & (((~(T)0) >> 1) >> (bit_info<T>::bits - 1 - l)); // the first l bits
+  }
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
-- 
2.43.0


From 9bdf9fc151abf46c44d7db5baa52190b226d17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 19/96] fix: bit_count of more than 255 bits overflowed

---
 .../basis_general/_basis_general_core/source/bits_info.h     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
index 366525e..cc807e4 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/bits_info.h
@@ -124,6 +124,11 @@ int inline bit_count(T v,int l){
   v = v - ((v >> 1) & (T)~(T)0/3);                           // temp
   v = (v & (T)~(T)0/15*3) + ((v >> 2) & (T)~(T)0/15*3);      // temp
   v = (v + (v >> 4)) & (T)~(T)0/255*15;                      // temp
+  if(bit_info<T>::bytes > 31){ // the count may not fit into one byte
+    int n = 0;
+    for(;v != 0;v >>= 8){n += (int)(v & (T)255);}
+    return n;
+  }
   T res = (T)(v * ((T)~(T)0/255)) >> ((bit_info<T>::bytes - 1) * 8); // count
   return (int)res;
 
-- 
2.43.0


From 87c27025d50c419c1a9be439ea092c5dee663d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 20/96] fix: with several identity maps the general bases
 dropped other symmetries

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index c939678..a5aa3af 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -143,7 +143,7 @@ class basis_general(lattice_basis):
 			blocks,items = zip(*sorted_items)
 			items = list(items)
 
-			for i in remove_index:
+			for i in reversed(remove_index):
 				items.pop(i)
 
 			n_maps = len(items)
-- 
2.43.0


From b7f12bd19bc8527ae34fcd515f980d6f05adb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 21/96] fix: integers of particle sectors were too small for
 the states operator strings pass through

---
 .../_basis_general_core/general_basis_utils.pyx  | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
index 08e465d..849855d 100644
--- a/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx
@@ -329,7 +329,8 @@ def basis_ones(shape,dtype=uint32):
 def get_basis_type(N, Np, sps):
     """ Returns minimum dtype to represent manybody state. 
 
-    Given the system size, number of particles and states per site this function calculates the minimum type required to represent those states.
+    Given the system size, number of particles and states per site this function calculates the minimum type required to represent those states,
+    and all states they are mapped to by operators which change the number of particles.
 
     Parameters
     -----------
@@ -364,16 +365,9 @@ def get_basis_type(N, Np, sps):
         raise ValueError("{} particle(s) will not fit into system size {} with sps={}".format(Np,N,sps))
 
     if sps>2:
-        # calculates the datatype which will fit the largest representative state in basis
-        if Np is None:
-            # if no particle conservation the largest representative is sps**N-1
-            s_max = sps**N-1
-        else:
-            # if particles are conservated the largest representative is placing all particles as far left
-            # as possible. 
-            l=Np//(sps-1)
-            s_max = sum((sps-1)*sps**(N-1-i)  for i in range(l))
-            s_max += (Np%(sps-1))*sps**(N-l-1)
+        # operator strings leave the particle sector before they return to it, so the datatype has to fit
+        # every state of the lattice, and not just the largest representative state in basis.
+        s_max = sps**N-1
 
         s_max = int(s_max)
 
-- 
2.43.0


From 3da877ededfef03a01ddd06da6c3df76bd71f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 22/96] fix: project_to of general bases conjugated the phases
 and recursed into project_from

---
 .../_basis_general_core/source/general_basis_get_vec.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
index beeb719..854ebd0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_get_vec.h
@@ -295,11 +295,11 @@ bool project_to_rep_basis(general_basis_core<I,P> *B,
 	}
 	int per = B->pers[depth];
 	double q = (2.0*M_PI*B->qs[depth])/per;
-	std::complex<double> cc = std::exp(std::complex<double>(0,-q));
+	std::complex<double> cc = std::exp(std::complex<double>(0,q));
 
 	if(depth < nt-1){
 		for(int j=0;j<per && err;j++){
-			err = project_from_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
+			err = project_to_rep_basis(B,s,phase,nt,n_vec,basis,Ns,in,c,out,depth+1);
 			c *= cc;
 			s = B->map_state(s,depth,phase);
 		}
-- 
2.43.0


From 19f594c093cf813f7ea0747ccc2977df28575cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 23/96] fix: get_proj(pcon=True) ignored pcon for bases with
 particle conservation only

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index a5aa3af..8ed6525 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -465,7 +465,7 @@ class basis_general(lattice_basis):
 
 			basis_pcon = self._basis_pcon._basis
 			Ns_full = basis_pcon.shape[0]
-		elif pcon and self._get_proj_pcon:
+		elif pcon:
 			raise TypeError("pcon=True only works for basis of a single particle number sector.")
 
 		sign = _np.ones_like(self._basis,dtype=_np.int8)
-- 
2.43.0


From 222a32d8882fb0b60f44c02dc7ef69e7859900d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 24/96] fix: project_to(sparse=True) transposed the projector
 without conjugating it

---
 quspin/basis/basis_general/base_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 8ed6525..0360cc9 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -562,7 +562,7 @@ class basis_general(lattice_basis):
 
 		if sparse:
 			# current work-around for sparse
-			return self.get_proj(v0.dtype,pcon=pcon).T.dot(_sp.csr_matrix(v0))
+			return self.get_proj(v0.dtype,pcon=pcon).T.conj().dot(_sp.csr_matrix(v0))
 		else:
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_to_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
-- 
2.43.0


From 9351f4e5fa52a417c8a62b2d4b31acfe6caf5881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 25/96] fix: project_to and project_from returned 0-d arrays
 for a basis of one state

---
 quspin/basis/basis_general/base_general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 0360cc9..82c3e62 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -567,7 +567,7 @@ class basis_general(lattice_basis):
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_to_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
 			if squeeze:
-				return  _np.squeeze(v_out)
+				return v_out.reshape(-1)
 			else:
 				return v_out	
 
@@ -668,7 +668,7 @@ class basis_general(lattice_basis):
 			v_out = _np.zeros(shape,dtype=v0.dtype,)
 			self._core.project_from_dense(self._basis,self._n,v0,v_out,basis_pcon=basis_pcon)
 			if squeeze:
-				return  _np.squeeze(v_out)
+				return v_out.reshape(-1)
 			else:
 				return v_out	
 
-- 
2.43.0


From 0c14b0302f5feb9d5945977150b9dd0771daf411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 26/96] fix: block_ops.evolve failed at a single time for
 several blocks

---
 quspin/tools/block_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index e2eca82..032a588 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -613,7 +613,7 @@ class block_ops(object):
 				return _block_evolve_iter(psi_blocks,H_list,P,t0,times,stack_state,imag_time,solver_name,solver_args,n_jobs)
 			else:
 				psi_t = _Parallel(n_jobs = n_jobs)(_delayed(_block_evolve_helper)(H,psi,t0,times,stack_state,imag_time,solver_name,solver_args) for psi,H in _izip(psi_blocks,H_list))
-				psi_t = _np.vstack(psi_t)
+				psi_t = _np.concatenate(psi_t,axis=0)
 				psi_t = P.dot(psi_t)
 				return psi_t
 		else:
-- 
2.43.0


From 5ba127f52fad53b034455e5c7d0768cfadecd0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 27/96] fix: failing worker processes of block_ops iterations
 hung the caller

---
 quspin/tools/block_tools.py | 90 +++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 24 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 032a588..a3fc6cf 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -13,6 +13,13 @@ from multiprocessing import Process as _Process
 from multiprocessing import Queue as _Queue
 from multiprocessing import Event as _Event
 
+try: # python 3
+	from queue import Empty as _Empty
+except ImportError: # python 2
+	from Queue import Empty as _Empty
+
+from traceback import format_exc as _format_exc
+
 from joblib import Parallel as _Parallel
 from joblib import delayed as _delayed
 # six for python 2.* and 3.* dictionary compatibility
@@ -146,18 +153,43 @@ def _worker(gen_func,args_list,q,e):
 
 	"""
 
-	gens = []
-	for arg in args_list:
-		gens.append(gen_func(*arg))
+	try:
+		gens = []
+		for arg in args_list:
+			gens.append(gen_func(*arg))
 
-	generator = _izip(*gens)
-	for s in generator:
-		e.clear()
-		q.put(s)
-		e.wait()
+		generator = _izip(*gens)
+		for s in generator:
+			e.clear()
+			q.put((s,None))
+			e.wait()
+	except Exception:
+		q.put((None,_format_exc()))
 
 	q.close()
- 
+
+
+def _get_result(q,p):
+	"""
+	Retrieve the next result of worker `p` from queue `q`, raises an error if the worker failed or has ended. 
+
+	"""
+	alive = True
+	while True:
+		try:
+			s,err = q.get(timeout=1.0)
+		except _Empty:
+			if not alive:
+				raise RuntimeError("worker process ended unexpectedly with exit code {}.".format(p.exitcode))
+			alive = p.is_alive() # results of a process which just ended might still be in the queue.
+			continue
+
+		if err is not None:
+			raise RuntimeError("worker process failed:\n{}".format(err))
+
+		return s
+
+
 def _generate_parallel(n_process,n_iter,gen_func,args_list):
 	"""
 	Generator which spawns processes to run generators, then uses a queue for each process to retrieve 
@@ -205,24 +237,34 @@ def _generate_parallel(n_process,n_iter,gen_func,args_list):
 		ps.append(p)
 
 
-	# start processes
-	for p in ps:
-		p.start()
+	started = []
+	try:
+		# start processes
+		for p in ps:
+			p.start()
+			started.append(p)
+
+		# for number of iterations
+		for i in range(n_iter):
+			s = []
+			# retrieve results for each sub-process and let the process know to continue calculation.
+			for q,e,p in _izip(qs,es,ps):
+				s.extend(_get_result(q,p))
+				e.set() # free process to do next calculation
+
+			# yield all results
+			yield tuple(s)
 
-	# for number of iterations
-	for i in range(n_iter):
-		s = []
-		# retrieve results for each sub-process and let the process know to continue calculation.
-		for q,e in _izip(qs,es):
-			s.extend(q.get())
-			e.set() # free process to do next calculation
+	except BaseException: # including generator being closed early.
+		for p in started:
+			p.terminate()
+		raise
 
-		# yield all results
-		yield tuple(s)
+	finally:
+		# end processes
+		for p in started:
+			p.join()
 
-	# end processes
-	for p in ps:
-		p.join()
 
 def _evolve_gen(psi,H,t0,times,stack_state,imag_time,solver_name,solver_args):
 	"""Generating function for evolution with `H.evolve`."""
-- 
2.43.0


From 3ac2fc49060a00e295e1724b3817a33aa540fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 28/96] fix: block_diag_hamiltonian mixed up drives and failed
 for blocks without them

---
 quspin/tools/block_tools.py | 50 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index a3fc6cf..3afeb2d 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -102,16 +102,13 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 	"""
 	from ..operators import hamiltonian
 
-	H_list = []
 	P_list = []
+	H_list = []
 
 	blocks = list(blocks)
 
 	if all([isinstance(block,dict) for block in blocks]):
 		[blocks[i].update(basis_kwargs) for i in range(len(blocks))]
-		dynamic_list = [(tup[-2],tuple(tup[-1])) for tup in dynamic]
-		dynamic_list = [([],f,f_args) for f,f_args in set(dynamic_list)]
-		static_mats = []
 		for block in blocks:
 			b = basis_con(*basis_args,**block)
 			if get_proj:
@@ -122,26 +119,42 @@ def block_diag_hamiltonian(blocks,static,dynamic,basis_con,basis_args,dtype,basi
 			check_symm = False
 			check_herm = False
 			check_pcon = False
-			static_mats.append(H.static.tocoo())
-			for i,Hd in enumerate(_itervalues(H.dynamic)):
-				dynamic_list[i][0].append(Hd.tocoo())
-
-		static = [_sp.block_diag(static_mats,format="csr")]
-		dynamic = []
-		for mats,f,f_args in dynamic_list:
-			mats = _sp.block_diag(mats,format="csr")
-			dynamic.append([mats,f,f_args])
+			H_list.append(H)
 
 	else:
 		raise ValueError("blocks must be list of dictionaries containing symmetry sectors.")
 
-
+	H = _join_hamiltonians(H_list)
 
 	if get_proj:
 		P = _sp.hstack(P_list,format="csr")
-		return P,hamiltonian(static,dynamic,copy=False)
+		return P,H
 	else:
-		return hamiltonian(static,dynamic,copy=False)
+		return H
+
+
+def _join_hamiltonians(H_list,**kwargs):
+	"""
+	Block diagonal hamiltonian which has the hamiltonians in `H_list` as its blocks. A block without a term
+	for one of the driving functions is zero for that function.
+
+	"""
+	from ..operators import hamiltonian
+
+	funcs = []
+	for H in H_list:
+		for func in H.dynamic:
+			if func not in funcs:
+				funcs.append(func)
+
+	static = [_sp.block_diag([H.static for H in H_list],format="csr")]
+
+	dynamic = []
+	for func in funcs:
+		mats = [H.dynamic.get(func,_sp.csr_matrix(H.static.shape,dtype=H.dtype)) for H in H_list]
+		dynamic.append([_sp.block_diag(mats,format="csr"),func])
+
+	return hamiltonian(static,dynamic,copy=False,**kwargs)
 
 
 def _worker(gen_func,args_list,q,e):
@@ -627,8 +640,9 @@ class block_ops(object):
 
 		if block_diag and H_list:
 			N_H = len(H_list)
-			n_pp = N_H//n_jobs
-			n_left = n_pp + N_H%n_jobs	
+			n_blocks = max(min(n_jobs,N_H),1)
+			n_pp = N_H//n_blocks
+			n_left = n_pp + N_H%n_blocks	
 
 			H_list_prime = []
 			psi_blocks_prime = []
-- 
2.43.0


From 1aac75dd0a029391c08445efdc89b16241525c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 29/96] fix: block_ops.evolve and expm with block_diag=True
 failed or lost blocks

---
 quspin/tools/block_tools.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/quspin/tools/block_tools.py b/quspin/tools/block_tools.py
index 3afeb2d..778e355 100644
--- a/quspin/tools/block_tools.py
+++ b/quspin/tools/block_tools.py
@@ -646,15 +646,15 @@ class block_ops(object):
 
 			H_list_prime = []
 			psi_blocks_prime = []
-			if n_left != 0:
-				H_list_prime.append(block_diag_hamiltonian(H_list[:n_left],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[:n_left]))
 
-			for i in range(n_jobs-1):
+			H_list_prime.append(_join_hamiltonians(H_list[:n_left],dtype=self._dtype))
+			psi_blocks_prime.append(_np.hstack(psi_blocks[:n_left]))
+
+			for i in range(n_blocks-1):
 				i1 = n_left + i*n_pp
 				i2 = n_left + (i+1)*n_pp
-				H_list_prime.append(block_diag_hamiltonian(H_list[i1:i2],None,None,None,None,self._dtype,get_proj=False,**self._no_checks))
-				psi_list_prime.append(_np.hstack(psi_blocks[i1:i2]))
+				H_list_prime.append(_join_hamiltonians(H_list[i1:i2],dtype=self._dtype))
+				psi_blocks_prime.append(_np.hstack(psi_blocks[i1:i2]))
 
 			H_list = H_list_prime
 			psi_blocks = psi_blocks_prime				
@@ -801,8 +801,9 @@ class block_ops(object):
 
 		if block_diag and H_list:
 			N_H = len(H_list)
-			n_pp = N_H//n_jobs
-			n_left = n_pp + N_H%n_jobs	
+			n_blocks = max(min(n_jobs,N_H),1)
+			n_pp = N_H//n_blocks
+			n_left = n_pp + N_H%n_blocks	
 
 			H_list_prime = []
 			psi_blocks_prime = []
@@ -814,7 +815,7 @@ class block_ops(object):
 			psi_blocks_prime.append(psi_block)
 
 
-			for i in range(n_jobs-1):
+			for i in range(n_blocks-1):
 				i1 = n_left + i*n_pp
 				i2 = n_left + (i+1)*n_pp
 				psi_block = _np.hstack(psi_blocks[i1:i2])
-- 
2.43.0


From d44da190df9e832a4ce24ac3b5168e9bdb8ec315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:51 +0000
Subject: [PATCH 30/96] fix: driving functions with equal hashes were taken for
 the same function

---
 quspin/operators/_functions.py | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/quspin/operators/_functions.py b/quspin/operators/_functions.py
index f3cb435..2da599a 100644
--- a/quspin/operators/_functions.py
+++ b/quspin/operators/_functions.py
@@ -8,7 +8,7 @@ class function(object):
 		self._args = args
 
 	def conjugate(self):
-		return conjugate_function(function(self._f,self._args))
+		return conjugate_function(self)
 
 	def __str__(self):
 		return self._f.__name__
@@ -21,7 +21,7 @@ class function(object):
 
 	def __eq__(self,other):
 		if isinstance(other,function):
-			return hash(self)==hash(other)
+			return self._factors()==other._factors()
 		else:
 			return False
 
@@ -31,12 +31,12 @@ class function(object):
 	def __contains__(self,other):
 		return self == other
 
-	def _hash_list(self):
-		return [hash((self._f,self._args))]
+	def _factors(self):
+		"""The elementary functions of the product this function stands for, with their powers."""
+		return {(self._f,self._args,False):1}
 
 	def __hash__(self):
-		hash_list = tuple(self._hash_list())
-		return hash(hash_list)
+		return hash(frozenset(self._factors().items()))
 
 	def __call__(self,*args):
 		return self._f(*(args+self._args))
@@ -63,11 +63,11 @@ class comm_binary_function(function):
 		self._function1 = function1
 		self._function2 = function2
 
-	def _hash_list(self):
-		hash_list = self._function1._hash_list()
-		hash_list.extend(self._function2._hash_list())
-		hash_list.sort()
-		return hash_list
+	def _factors(self):
+		factors = dict(self._function1._factors())
+		for factor,p in self._function2._factors().items():
+			factors[factor] = factors.get(factor,0) + p
+		return factors
 
 	def __contains__(self,other):
 		return (self._function1.__contains__(other)) or (self._function2.__contains__(other))
@@ -80,6 +80,9 @@ class mul_function(comm_binary_function):
 	def __call__(self,*args):
 		return self._function1(*args)*self._function2(*args)
 
+	def conjugate(self):
+		return mul_function(self._function1.conjugate(),self._function2.conjugate())
+
 	def __str__(self):
 		return "({0} * {1})".format(self._function1.__str__(),self._function2.__str__())
 
@@ -111,8 +114,8 @@ class conjugate_function(function):
 	def __str__(self):
 		return "conj({0})".format(self._function1.__str__())
 
-	def _hash_list(self):
-		return [hash((1j,self._function1._f,self._function1._args))]
+	def _factors(self):
+		return {(f,args,not conj):p for (f,args,conj),p in self._function1._factors().items()}
 
 	def __contains__(self,other):
 		return self._function1.__contains__(other)
@@ -132,8 +135,11 @@ class pow_function(function):
 	def __str__(self):
 		return "{0}^{1}".format(self._function1.__str__(),self._p)
 
-	def _hash_list(self):
-		return [hash((self._function1._f,self._function1._args,self._p))]
+	def conjugate(self):
+		return pow_function(self._function1.conjugate(),self._p)
+
+	def _factors(self):
+		return {factor:p*self._p for factor,p in self._function1._factors().items()}
 
 	def __mul__(self,other):
 		if self._function1 == other:
-- 
2.43.0


From 2fa5dbe8ebaab3db15db56399f4e43ad03b96f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 31/96] fix: hamiltonian.tocsr, tocsc and diagonal returned the
 memory of the static matrix

---
 quspin/operators/hamiltonian_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3658387..7348f16 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1541,7 +1541,7 @@ class hamiltonian(object):
 			raise TypeError('expecting scalar argument for time')
 
 
-		H = _sp.csr_matrix(self._static)
+		H = _sp.csr_matrix(self._static,copy=True)
 
 		for func,Hd in iteritems(self._dynamic):
 			Hd = _sp.csr_matrix(Hd)
@@ -1577,7 +1577,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		H = _sp.csc_matrix(self._static)
+		H = _sp.csc_matrix(self._static,copy=True)
 		for func,Hd in iteritems(self._dynamic):
 			Hd = _sp.csc_matrix(Hd)
 			try:
@@ -1926,7 +1926,7 @@ class hamiltonian(object):
 		if _np.array(time).ndim > 0:
 			raise TypeError('expecting scalar argument for time')
 
-		diagonal = self._static.diagonal()
+		diagonal = self._static.diagonal().copy()
 		for func,Hd in iteritems(self._dynamic):
 			diagonal += Hd.diagonal() * func(time)
 
-- 
2.43.0


From e3db4b842f28157b4d3a5eaa0ba68fa690b298b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 32/96] fix: hamiltonian.toarray and todense with sparse
 dynamic parts did not fill the array out

---
 quspin/operators/hamiltonian_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 7348f16..4d39389 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1639,7 +1639,8 @@ class hamiltonian(object):
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			Hd = Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd)
 		
 		return out
 
@@ -1685,7 +1686,8 @@ class hamiltonian(object):
 			out[:] = self._static[:]
 
 		for func,Hd in iteritems(self._dynamic):
-			out += Hd * func(time)
+			Hd = Hd * func(time)
+			out += (Hd.toarray() if _sp.issparse(Hd) else Hd)
 		
 		return out
 
-- 
2.43.0


From 88c19d4f1ddc7d38877887b8e44ba1fddb61cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 33/96] fix: hamiltonian.update_matrix_formats and
 as_dense_format failed for some formats

---
 quspin/operators/hamiltonian_core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 4d39389..3aee62c 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1737,9 +1737,10 @@ class hamiltonian(object):
 
 
 				if dynamic_fmt == "dense":
-					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
+					updates = {func:Hd.toarray() for func,Hd in iteritems(self._dynamic) if _sp.issparse(Hd)}
 					updates.update({func:_np.ascontiguousarray(Hd) for func,Hd in iteritems(self._dynamic) if not _sp.issparse(Hd)})
 				else:
+					sparse_constuctor = getattr(_sp,dynamic_fmt+"_matrix")
 					updates = {func:sparse_constuctor(Hd) for func,Hd in iteritems(self._dynamic)}
 
 				
@@ -1755,7 +1756,7 @@ class hamiltonian(object):
 
 					try:
 						if fmt == "dense":
-							if _sp.issparse(self._static):
+							if _sp.issparse(self._dynamic[func]):
 								self._dynamic[func] = self._dynamic[func].toarray()
 							else:
 								self._dynamic[func] = _np.ascontiguousarray(self._dynamic[func])
@@ -1767,6 +1768,7 @@ class hamiltonian(object):
 						raise ValueError("({},{}) is not found in dynamic list.".format(f,f_args))
 
 
+		self.check_is_dense()
 		self._get_matvecs()	
 
 	def as_dense_format(self,copy=False):
@@ -1793,7 +1795,7 @@ class hamiltonian(object):
 		if _sp.issparse(self._static):
 			new_static = self._static.toarray()
 		else:
-			new_static = _np.asarray(self._static,copy=copy)
+			new_static = _np.array(self._static,copy=copy)
 
 		dynamic = [([M.toarray(),func] if _sp.issparse(M) else [M,func])
 						for func,M in iteritems(self.dynamic)]
-- 
2.43.0


From 8a79c2bc15f0965df9999cdc9487fa170829a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 34/96] fix: hamiltonian.expt_value failed for sparse states
 and one-state spaces

---
 quspin/operators/hamiltonian_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 3aee62c..2969156 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -893,7 +893,7 @@ class hamiltonian(object):
 	def _expt_value_core(self,V_left,V_right,time=0,enforce_pure=False):
 		if _np.array(time).ndim > 0: # multiple time point expectation values
 			if _sp.issparse(V_right): # multiple pure states multiple time points
-				return (V_left.H.dot(V_right)).diagonal()
+				return (V_left.getH().dot(V_right)).diagonal()
 			else:
 				V_left = _np.asarray(V_left)
 				if V_left.ndim == 2: # multiple pure states multiple time points
@@ -905,12 +905,12 @@ class hamiltonian(object):
 
 			if _sp.issparse(V_right):
 				if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-					return _np.asscalar((V_left.H.dot(V_right)).toarray())
+					return (V_left.getH().dot(V_right)).toarray().item()
 				else: # density matrix
 					return V_right.diagonal().sum()
 			else:
-				V_right = _np.asarray(V_right).squeeze()
-				if V_right.ndim == 1: # pure state
+				V_right = _np.asarray(V_right)
+				if V_right.ndim == 1 or (V_right.shape[1] == 1 and (enforce_pure or V_right.shape[0] != 1)): # pure state
 					return _np.vdot(V_left,V_right)
 				elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 					return _np.einsum("ij,ij->j",V_left.conj(),V_right)
-- 
2.43.0


From 1cf172e21c67f07098c347d8e33b27f67aeb48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 35/96] fix: hamiltonian.rdot failed without an array out

---
 quspin/operators/hamiltonian_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 2969156..640f35a 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -767,15 +767,16 @@ class hamiltonian(object):
 			raise ValueError("expecting V.ndim < 4.")
 
 		if ndim == 1:
-			return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+			return self.transpose().dot(V,time=times,check=check,out=(None if out is None else out.T),overwrite_out=overwrite_out,a=a)
 		elif ndim == 2:
 			if _np.array(times).ndim>0:
-				return self.transpose().dot(V,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a)
+				return self.transpose().dot(V,time=times,check=check,out=(None if out is None else out.T),overwrite_out=overwrite_out,a=a)
 			else:
-				return self.transpose().dot(V.transpose(),time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+				return self.transpose().dot(V.transpose(),time=times,check=check,out=(None if out is None else out.T),overwrite_out=overwrite_out,a=a).transpose()
 		else:
 			V_transpose = V.transpose((1,0,2))
-			return self.transpose().dot(V_transpose,time=times,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
+			out = (None if out is None else out.transpose((1,0,2)))
+			return self.transpose().dot(V_transpose,time=times,check=check,out=out,overwrite_out=overwrite_out,a=a).transpose((1,0,2))
 
 	def quant_fluct(self,V,time=0,check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `hamiltonian` operator at time `time`, in state `V`.
-- 
2.43.0


From 8638fd2b734344c6b41e12003e7ba048bcd3cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 36/96] fix: hamiltonian.dot failed for sparse states at
 several times and dense parts

---
 quspin/operators/hamiltonian_core.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 640f35a..0b491f2 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -115,6 +115,25 @@ def anti_commutator(H1,H2):
 class HamiltonianEfficiencyWarning(Warning):
 	pass
 
+
+def _mat_mul(A,B):
+	"""Matrix product of two matrices, any of which can be sparse or dense."""
+	if _sp.issparse(A) and _sp.issparse(B):
+		return A.dot(B)
+	elif _sp.issparse(A):
+		return _np.asarray(A.dot(B))
+	elif _sp.issparse(B):
+		return _np.asarray(B.T.dot(A.T).T)
+	else:
+		return _np.asarray(_np.matmul(A,B))
+
+
+def _mat_add(A,B,sign=1):
+	"""New matrix A + sign*B, where any of the two matrices can be sparse or dense."""
+	C = (A + B if sign > 0 else A - B)
+	return C if _sp.issparse(C) else _np.asarray(C)
+
+
 #global names:
 supported_dtypes=tuple([_np.float32, _np.float64, _np.complex64, _np.complex128])
 
@@ -649,7 +668,7 @@ class hamiltonian(object):
 
 			if _sp.issparse(V):
 				V = V.tocsc()
-				return _sp.vstack([a*self.dot(V.get_col(i),time=t,check=check) for i,t in enumerate(time)])
+				return _sp.hstack([_sp.csc_matrix(a*self.dot(V.getcol(i),time=t,check=check)) for i,t in enumerate(time)])
 			else:
 				if V.ndim == 3 and V.shape[0] != V.shape[1]:
 					raise ValueError("Density matrices must be square!")
@@ -698,9 +717,9 @@ class hamiltonian(object):
 				if out is not None:
 					raise TypeError("'out' option does not apply for sparse inputs.")
 
-				out = self._static * V
+				out = _mat_mul(self._static,V)
 				for func,Hd in iteritems(self._dynamic):
-					out = out + func(time)*(Hd.dot(V))
+					out = _mat_add(out,_mat_mul(Hd,V)*func(time))
 
 				out = a*out
 			else:
-- 
2.43.0


From 17511190f4f6437a2c70effc597c0dd0524b7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 37/96] fix: numpy.add and numpy.subtract with a hamiltonian
 returned None

---
 quspin/operators/hamiltonian_core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 0b491f2..c2f0960 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -3021,6 +3021,15 @@ class hamiltonian(object):
 			elif ishamiltonian(inputs[1]):
 				return inputs[1].__rmul__(inputs[0])
 
+		elif func in (_np.add,_np.subtract) and method == "__call__":
+
+			if ishamiltonian(inputs[0]):
+				return inputs[0].__add__(inputs[1]) if func == _np.add else inputs[0].__sub__(inputs[1])
+			else:
+				return inputs[1].__radd__(inputs[0]) if func == _np.add else inputs[1].__rsub__(inputs[0])
+
+		return NotImplemented
+
 
 
 def ishamiltonian(obj):
-- 
2.43.0


From 321e32e933225a57981213a47cf4cafed2140fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 38/96] fix: hamiltonian changed the matrices of the user for
 repeated driving functions with copy=False

---
 quspin/operators/hamiltonian_core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index c2f0960..510a779 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -436,10 +436,7 @@ class hamiltonian(object):
 
 
 				if func in self._dynamic:
-					try:
-						self._dynamic[func] += O
-					except:
-						self._dynamic[func] = self._dynamic[func] + O
+					self._dynamic[func] = _mat_add(self._dynamic[func],O)
 				else:
 					self._dynamic[func] = O
 			
-- 
2.43.0


From 2c67f0edfb3f2edb31419a12fe23062a078a96e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 39/96] fix: hamiltonian.project_to kept the size of the
 original space

---
 quspin/operators/hamiltonian_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 510a779..391c97b 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1067,6 +1067,7 @@ class hamiltonian(object):
 					
 			new = self._rmul_sparse(proj.getH())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_sparse(proj)
 
 		elif _np.isscalar(proj):
@@ -1078,6 +1079,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1087,6 +1089,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.H)
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 
@@ -1097,6 +1100,7 @@ class hamiltonian(object):
 
 			new = self._rmul_dense(proj.T.conj())
 			new._shape = (proj.shape[1],proj.shape[1])
+			new._Ns = proj.shape[1]
 			return new._imul_dense(proj)
 
 	def rotate_by(self, other, generator=False,**exp_op_kwargs):
-- 
2.43.0


From 620f0fd3d13b3d50e57f633895cb2ea42ded604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 40/96] fix: arithmetic of hamiltonians lost terms and changed
 its operands

---
 quspin/operators/hamiltonian_core.py | 332 ++++++++-------------------
 1 file changed, 93 insertions(+), 239 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index 391c97b..b8de80d 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1055,8 +1055,7 @@ class hamiltonian(object):
 
 
 		if ishamiltonian(proj):
-			new = self._rmul_hamiltonian(proj.getH())
-			return new._imul_hamiltonian(proj)
+			return self._rmul_hamiltonian(proj.getH())._mul_hamiltonian(proj)
 
 		elif isexp_op(proj):
 			return proj.sandwich(self)
@@ -2340,7 +2339,7 @@ class hamiltonian(object):
 		else:
 			other = _np.asanyarray(other)
 			self._mat_checks(other)	
-			return self._sub_dense(other)
+			return self._isub_dense(other)
 
 	##########################################################################################	
 	##########################################################################################
@@ -2349,6 +2348,16 @@ class hamiltonian(object):
 	##########################################################################################
 
 	# checks
+	def _update_matrices(self):
+		"""Restores the data type and the matrix-vector products after the matrices were changed in place."""
+		self._static = self._static.astype(self._dtype,copy=False)
+		for func,Hd in list(iteritems(self._dynamic)):
+			self._dynamic[func] = Hd.astype(self._dtype,copy=False)
+
+		self.check_is_dense()
+		self._get_matvecs()
+
+
 	def _mat_checks(self,other,casting="same_kind"):
 		try:
 			if other.shape != self._shape: # only accepts square matricies 
@@ -2365,288 +2374,163 @@ class hamiltonian(object):
 	# hamiltonian operations #
 	##########################
 
+
 	def _add_hamiltonian(self,other): 
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		new._is_dense = new._is_dense or other._is_dense
-
-		try:
-			new._static += other._static 
-		except NotImplementedError:
-			new._static = new._static + other._static 
+		new._static = _mat_add(new._static,other._static)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 		for func,Hd in iteritems(other._dynamic):
 			if func in new._dynamic:
-				try:
-					new._dynamic[func] += Hd
-				except NotImplementedError:
-					new._dynamic[func] = new._dynamic[func] + Hd
+				new._dynamic[func] = _mat_add(new._dynamic[func],Hd)
 
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
 			else:
-				new._dynamic[func] = Hd
+				new._dynamic[func] = Hd.astype(result_dtype)
 
 		new.check_is_dense()
 		new._get_matvecs()
 		return new
 
-	def _iadd_hamiltonian(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 
-		try:
-			self._static += other._static 
-		except NotImplementedError:
-			self._static = self._static + other._static 
+	def _iadd_hamiltonian(self,other):
+		self._static = _mat_add(self._static,other._static)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)):
 			if func in self._dynamic:
-				try:
-					self._dynamic[func] += Hd
-				except NotImplementedError:
-					self._dynamic[func] = self._dynamic[func] + Hd
-
-				try:
-					self._dynamic[func].sum_duplicates()
-					self._dynamic[func].eliminate_zeros()
-				except: pass
+				self._dynamic[func] = _mat_add(self._dynamic[func],Hd)
 
 				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = Hd
-
-		self.check_is_dense()
-		self._get_matvecs()
+				self._dynamic[func] = Hd.astype(self._dtype)
 
+		self._update_matrices()
 		return self
 
-	def _sub_hamiltonian(self,other):
+	def _sub_hamiltonian(self,other): 
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		new._is_dense = new._is_dense or other._is_dense
-
-		try:
-			new._static -= other._static 
-		except NotImplementedError:
-			new._static = new._static - other._static 
+		new._static = _mat_add(new._static,other._static,-1)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
-
 		for func,Hd in iteritems(other._dynamic):
 			if func in new._dynamic:
-				try:
-					new._dynamic[func] -= Hd
-				except NotImplementedError:
-					new._dynamic[func] = new._dynamic[func] - Hd
+				new._dynamic[func] = _mat_add(new._dynamic[func],Hd,-1)
 
 				if _check_almost_zero(new._dynamic[func]):
 					new._dynamic.pop(func)
-
 			else:
-				new._dynamic[func] = -Hd		
+				new._dynamic[func] = -Hd.astype(result_dtype)
 
 		new.check_is_dense()
 		new._get_matvecs()
-
 		return new
 
-	def _isub_hamiltonian(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 
-		try:
-			self._static -= other._static 
-		except NotImplementedError:
-			self._static = self._static - other._static 
+	def _isub_hamiltonian(self,other):
+		self._static = _mat_add(self._static,other._static,-1)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		for func,Hd in iteritems(other._dynamic):
+		for func,Hd in list(iteritems(other._dynamic)):
 			if func in self._dynamic:
-				try:
-					self._dynamic[func] -= Hd
-				except NotImplementedError:
-					self._dynamic[func] = new._dynamic[func] - Hd
+				self._dynamic[func] = _mat_add(self._dynamic[func],Hd,-1)
 
-				if _check_almost_zero(new._dynamic[func]):
+				if _check_almost_zero(self._dynamic[func]):
 					self._dynamic.pop(func)
 
 			else:
-				self._dynamic[func] = -Hd
-
-	
-		self.check_is_dense()
-		self._get_matvecs()
+				self._dynamic[func] = -Hd.astype(self._dtype)
 
+		self._update_matrices()
 		return self
 
 	def _mul_hamiltonian(self,other):
-		if self.dynamic and other.dynamic:
-			new = self.astype(self._dtype)
-			return new._imul_hamiltonian(other)
-		elif self.dynamic:
-			return self._mul_sparse(other.static)
-		elif other.dynamic:
-			return other._rmul_sparse(self.static)
-		else:
-			return self._mul_sparse(other.static)
+		result_dtype = _np.result_type(self._dtype, other.dtype)
+		new=self.astype(result_dtype,copy=True)
+		return new._imul_hamiltonian(other)
 
 	def _rmul_hamiltonian(self,other):
-		if self.dynamic and other.dynamic:
-			new = other.astype(self._dtype)
-			return (new.T._imul_hamiltonian(self.T)).T #lazy implementation
-		elif self.dynamic:
-			return self._rmul_sparse(other.static)
-		elif other.dynamic:
-			return other._mul_sparse(self.static)
-		else:
-			return self._rmul_sparse(other.static)
+		return other._mul_hamiltonian(self)
 
 	def _imul_hamiltonian(self,other):
-		if self.dynamic and other.dynamic:
-			self._is_dense = self._is_dense or other._is_dense
-			new_dynamic_ops = {}
-			# create new dynamic operators coming from
-		
-			# self.static * other.static
-			if _sp.issparse(self.static):
-				new_static_op = self.static.dot(other._static)
-			elif _sp.issparse(other._static):
-				new_static_op = self.static * other._static
-			else:
-				new_static_op = _np.matmul(self.static,other._static)
-
-			# self.static * other.dynamic
-			for func,Hd in iteritems(other._dynamic):
-				if _sp.issparse(self.static):
-					Hmul = self.static.dot(Hd)
-				elif _sp.issparse(Hd):
-					Hmul = self.static * Hd
-				else:
-					Hmul = _np.matmul(self.static,Hd)
+		new_dynamic_ops = {}
+		# create new dynamic operators coming from
 
-				if not _check_almost_zero(Hmul):
-					new_dynamic_ops[func] = Hmul
+		# self.static * other.static
+		new_static_op = _mat_mul(self._static,other._static)
 
-			# self.dynamic * other.static
-			for func,Hd in iteritems(self._dynamic):
-				if _sp.issparse(Hd):
-					Hmul = Hd.dot(other._static)
-				elif _sp.issparse(other._static):
-					Hmul = Hd * other._static
-				else:
-					Hmul = _np.matmul(Hd,other._static)
+		if _check_almost_zero(new_static_op):
+			new_static_op = _sp.dia_matrix(new_static_op.shape,dtype=self._dtype)
 
+		# self.static * other.dynamic
+		products = [(func,_mat_mul(self._static,Hd)) for func,Hd in iteritems(other._dynamic)]
 
-				if func in new_dynamic_ops:
-					try:
-						new_dynamic_ops[func] += Hmul
-					except NotImplementedError:
-						new_dynamic_ops[func] = new_dynamic_ops[func] + Hmul
+		# self.dynamic * other.static
+		products.extend((func,_mat_mul(Hd,other._static)) for func,Hd in iteritems(self._dynamic))
 
-					if _check_almost_zero(new_dynamic_ops[func]):
-						new_dynamic_ops.pop(func)
-						
-				else:
-					if not _check_almost_zero(Hmul):
-						new_dynamic_ops[func] = Hmul
-
-
-			# self.dynamic * other.dynamic
-			for func1,H1 in iteritems(self._dynamic):
-				for func2,H2 in iteritems(other._dynamic):
-
-					if _sp.issparse(H1):
-						H12 = H1.dot(H2)
-					elif _sp.issparse(H2):
-						H12 = H1 * H2
-					else:
-						H12 = _np.matmul(H1,H2)
-
-					func12 = func1 * func2
-
-					if func12 in new_dynamic_ops:
-						try:
-							new_dynamic_ops[func12] += H12
-						except NotImplementedError:
-							new_dynamic_ops[func12] = new_dynamic_ops[func12] + H12
-
-						if _check_almost_zero(new_dynamic_ops[func12]):
-							new_dynamic_ops.pop(func12)
-					else:
-						if not _check_almost_zero(H12):
-							new_dynamic_ops[func12] = H12
-
-			self._static = new_static_op
-			self._dynamic = new_dynamic_ops
-			self._dtype = new_static_op.dtype
-			self._get_matvecs()
-			return self
-		elif self.dynamic:
-			return self._imul_sparse(other.static)
-		elif other.dynamic:
-			return (other.T._imul_sparse(self.static.T)).T
-		else:
-			return self._imul_sparse(other.static)
+		# self.dynamic * other.dynamic
+		products.extend((func1*func2,_mat_mul(H1,H2)) for func1,H1 in iteritems(self._dynamic)
+														for func2,H2 in iteritems(other._dynamic))
+
+		for func,Hmul in products:
+			if func in new_dynamic_ops:
+				new_dynamic_ops[func] = _mat_add(new_dynamic_ops[func],Hmul)
+			else:
+				new_dynamic_ops[func] = Hmul
+
+		self._static = new_static_op
+		self._dynamic = {func:Hd for func,Hd in iteritems(new_dynamic_ops) if not _check_almost_zero(Hd)}
+		self._update_matrices()
+		return self
 
 	#####################
 	# sparse operations #
 	#####################
 
-	def _add_sparse(self,other):
 
+	def _add_sparse(self,other):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		try:
-			new._static += other
-		except NotImplementedError:
-			new._static = new._static + other
+		new._static = _mat_add(new._static,other)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
 
 		new.check_is_dense()
 		new._get_matvecs()
-
 		return new	
 
-	def _iadd_sparse(self,other):
 
-		try:
-			self._static += other
-		except NotImplementedError:
-			self._static = self._static + other
+	def _iadd_sparse(self,other):
+		self._static = _mat_add(self._static,other)
 
 		if _check_almost_zero(self._static):
-			self._static = _sp.csr_matrix(self._shape,dtype=self._dtype)
-
-		self.check_is_dense()
-		self._get_matvecs()
+			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
+		self._update_matrices()
 		return self
 
 	def _sub_sparse(self,other):
-
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		try:
-			new._static -= other
-		except NotImplementedError:
-			new._static = new._static - other
+		new._static = _mat_add(new._static,other,-1)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
@@ -2655,19 +2539,14 @@ class hamiltonian(object):
 		new._get_matvecs()
 		return new	
 
-	def _isub_sparse(self,other):
 
-		try:
-			self._static -= other
-		except NotImplementedError:
-			self._static = self._static - other
+	def _isub_sparse(self,other):
+		self._static = _mat_add(self._static,other,-1)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		self.check_is_dense()
-		self._get_matvecs()
-
+		self._update_matrices()
 		return self
 
 	def _mul_sparse(self,other):
@@ -2675,14 +2554,14 @@ class hamiltonian(object):
 		result_dtype = _np.result_type(self._dtype, other.dtype)
 		new=self.astype(result_dtype,copy=True)
 
-		new._static = new._static * other
+		new._static = _mat_mul(new._static,other)
 
 		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+			new._static = _sp.dia_matrix(new._static.shape,dtype=new._dtype)
 
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = new._dynamic[func] * other
+			new._dynamic[func] = _mat_mul(new._dynamic[func],other)
 
 			if _check_almost_zero(new._dynamic[func]):
 				new._dynamic.pop(func)
@@ -2701,13 +2580,13 @@ class hamiltonian(object):
 
 		# proform multiplication on all matricies of the new hamiltonian object.
 
-		new._static = other * new._static
+		new._static = _mat_mul(other,new._static)
 
 		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+			new._static = _sp.dia_matrix(new._static.shape,dtype=new._dtype)
 
 		for func in list(new._dynamic):
-			new._dynamic[func] = other.dot(new._dynamic[func])
+			new._dynamic[func] = _mat_mul(other,new._dynamic[func])
 
 			try:
 				new._dynamic[func].sum_duplicates()
@@ -2725,13 +2604,13 @@ class hamiltonian(object):
 	def _imul_sparse(self,other):
 
 
-		self._static =self._static * other
+		self._static = _mat_mul(self._static,other)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
 		for func in list(self._dynamic):
-			self._dynamic[func] = other.dot(self._dynamic[func])
+			self._dynamic[func] = _mat_mul(self._dynamic[func],other)
 
 			try:
 				self._dynamic[func].sum_duplicates()
@@ -2741,8 +2620,7 @@ class hamiltonian(object):
 			if _check_almost_zero(self._dynamic[func]):
 				self._dynamic.pop(func)
 
-		self.check_is_dense()
-		self._get_matvecs()
+		self._update_matrices()
 
 		return self
 
@@ -2815,13 +2693,9 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
-		try:
-			new._static += other
-		except:
-			new._static = new._static + other
+		new._static = _mat_add(new._static,other)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
@@ -2830,24 +2704,18 @@ class hamiltonian(object):
 		new._get_matvecs()
 		return new
 
+
 	def _iadd_dense(self,other):
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
-
-		try: 
-			self._static += other
-		except:
-			self._static = new._static + other
+		self._static = _mat_add(self._static,other)
 
 		if _check_almost_zero(self._static):
 			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
-		self.check_is_dense()
-		self._get_matvecs()
-
+		self._update_matrices()
 		return self
 
 	def _sub_dense(self,other):
@@ -2861,13 +2729,9 @@ class hamiltonian(object):
 
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
-		try:
-			new._static -= other
-		except:
-			new._static = new._static - other
+		new._static = _mat_add(new._static,other,-1)
 
 		if _check_almost_zero(new._static):
 			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
@@ -2877,24 +2741,18 @@ class hamiltonian(object):
 
 		return new
 
+
 	def _isub_dense(self,other):
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
+		self._static = _mat_add(self._static,other,-1)
 
-		try:
-			self._static -= other
-		except:
-			self._static = self._static - other
-
-		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
-
-		self.check_is_dense()
-		self._get_matvecs()
+		if _check_almost_zero(self._static):
+			self._static = _sp.dia_matrix(self._shape,dtype=self._dtype)
 
+		self._update_matrices()
 		return self
 
 	def _mul_dense(self,other):
@@ -2907,13 +2765,12 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 		new._static = _np.asarray(new._static.dot(other))
 
 		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+			new._static = _sp.dia_matrix(new._static.shape,dtype=new._dtype)
 
 		for func in list(new._dynamic):
 			new._dynamic[func] = _np.asarray(new._dynamic[func].dot(other))
@@ -2936,7 +2793,6 @@ class hamiltonian(object):
 		new=self.astype(result_dtype,copy=True)
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
@@ -2946,7 +2802,7 @@ class hamiltonian(object):
 			new._static = _np.asarray(other.dot(new._static))
 
 		if _check_almost_zero(new._static):
-			new._static = _sp.dia_matrix(new._shape,dtype=new._dtype)
+			new._static = _sp.dia_matrix(new._static.shape,dtype=new._dtype)
 
 
 
@@ -2968,7 +2824,6 @@ class hamiltonian(object):
 	def _imul_dense(self,other):
 
 		if not self._is_dense:
-			self._is_dense = True
 			warnings.warn("Mixing dense objects will cast internal matrices to dense.",HamiltonianEfficiencyWarning,stacklevel=3)
 
 
@@ -2983,8 +2838,7 @@ class hamiltonian(object):
 			if _check_almost_zero(self._dynamic[func]):
 				self._dynamic.pop(func)
 
-		self.check_is_dense()
-		self._get_matvecs()
+		self._update_matrices()
 
 		return self
 
-- 
2.43.0


From 3ed909e29648cd608bd544ff3d9025d10697a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:25 +0000
Subject: [PATCH 41/96] fix: save_zip destroyed the old archive when it failed,
 load_zip lost keys, dtype and empty operators

---
 quspin/operators/quantum_operator_core.py | 99 ++++++++++++++---------
 1 file changed, 59 insertions(+), 40 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 959c06c..6815fda 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -23,8 +23,9 @@ import functools
 from six import iteritems,itervalues,viewkeys
 
 from zipfile import ZipFile
-from tempfile import TemporaryDirectory
-import os,pickle
+from uuid import uuid4
+from io import BytesIO
+import os,pickle,shutil
 
 
 __all__=["quantum_operator","isquantum_operator","save_zip","load_zip"]
@@ -1494,31 +1495,47 @@ def save_zip(archive,op,save_basis=True):
 	if not isquantum_operator(op):
 		raise ValueError("this function can only save quantum_operator objects")
 
-	with TemporaryDirectory() as tmpdirname:
-		with ZipFile(archive, "w") as arch:
+	if hasattr(archive,"write"):
+		_write_zip(archive,op,save_basis)
+		return
 
-			if save_basis and op._basis is not None:
-				file = os.path.join(tmpdirname,"basis.pickle")
-				with open(file,"wb") as IO:
-					pickle.dump(op._basis,IO)
+	# the archive is written next to its final place and then moved there, an existing archive is never left damaged.
+	archive = os.path.realpath(archive)
+	tmpname = "{}.{}.tmp".format(archive,uuid4().hex)
 
-				arch.write(file,"basis.pickle")
+	try:
+		with open(tmpname,"xb") as IO:
+			_write_zip(IO,op,save_basis)
+			IO.flush()
+			os.fsync(IO.fileno())
+
+		if os.path.exists(archive):
+			shutil.copymode(archive,tmpname)
+
+		os.replace(tmpname,archive)
+	except BaseException:
+		if os.path.exists(tmpname):
+			os.remove(tmpname)
+		raise
 
-			for key,matrix in iteritems(op._quantum_operator):
-				if _sp.isspmatrix(matrix):
-					filename = "sparse_"+key+".npz"
-					file = os.path.join(tmpdirname,filename)
-					_sp.save_npz(file,matrix)
-				else:
-					filename = "dense_"+key+".npz"
-					file = os.path.join(tmpdirname,filename)
-					_np.savez_compressed(file,matrix=matrix)
 
-				if filename in arch.namelist():
-					raise ValueError("duplicate operator key '{}'' entry in archive.".format(key))
-				arch.write(file,arcname=filename)
+def _write_zip(file,op,save_basis):
+	with ZipFile(file, "w") as arch:
+		arch.writestr("attributes.pickle",pickle.dumps(dict(shape=tuple(op.shape),dtype=op.dtype)))
 
+		if save_basis and op._basis is not None:
+			arch.writestr("basis.pickle",pickle.dumps(op._basis))
 
+		for key,matrix in iteritems(op._quantum_operator):
+			IO = BytesIO()
+			if _sp.isspmatrix(matrix):
+				filename = "sparse_"+key+".npz"
+				_sp.save_npz(IO,matrix)
+			else:
+				filename = "dense_"+key+".npz"
+				_np.savez_compressed(IO,matrix=matrix)
+
+			arch.writestr(filename,IO.getvalue())
 
 
 def load_zip(archive):
@@ -1537,31 +1554,33 @@ def load_zip(archive):
 	"""
 	ops_dict = {}
 	dtype = None
+	shape = None
 	basis = None
 	with ZipFile(archive, 'r') as arch:
-		for file in arch.namelist():
-			if file == "basis.pickle":
-				with arch.open(file) as basisfile:
-					basis = pickle.load(basisfile)
-				
-				continue
+		names = arch.namelist()
 
-			elif "sparse" in file:
-				key = file.replace("sparse_","").replace(".npz","")
-				with arch.open(file) as matfile:
-					matrix = _sp.load_npz(matfile)
-			else:
-				key = file.replace("dense_","").replace(".npz","")
-				with arch.open(file) as matfile:
-					f = _np.load(matfile)
-					matrix = f["matrix"]
+		if "attributes.pickle" in names:
+			attributes = pickle.loads(arch.read("attributes.pickle"))
+			shape = attributes["shape"]
+			dtype = attributes["dtype"]
 
-			if dtype is None:
-				dtype = matrix.dtype
+		for file in names:
+			if file == "attributes.pickle":
+				continue
+			elif file == "basis.pickle":
+				basis = pickle.loads(arch.read(file))
+				continue
+			elif file.startswith("sparse_"):
+				key = file[len("sparse_"):-len(".npz")]
+				matrix = _sp.load_npz(BytesIO(arch.read(file)))
 			else:
-				dtype = _np.result_type(dtype,matrix.dtype)
+				key = file[len("dense_"):-len(".npz")]
+				with _np.load(BytesIO(arch.read(file))) as f:
+					matrix = f["matrix"]
 
 			ops_dict[key] = [matrix]
 
-	return quantum_operator(ops_dict,dtype=dtype,copy=False,basis=basis)
+	if dtype is None:
+		dtype = _np.result_type(*[matrix.dtype for matrix, in ops_dict.values()])
 
+	return quantum_operator(ops_dict,dtype=_np.dtype(dtype).type,shape=shape,copy=False,basis=basis)
-- 
2.43.0


From 1353eb06b7a74d0724086ea2c75c0d4bcc21838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 42/96] fix: quantum_operator added the missing couplings to
 the dictionary of the caller

---
 quspin/operators/quantum_operator_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 6815fda..dc59759 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1398,6 +1398,7 @@ class quantum_operator(object):
 			raise ValueError("unexpected couplings: {}".format(extra))
 
 		missing = set(self._quantum_operator.keys()) - set(pars.keys())
+		pars = dict(pars)
 		for key in missing:
 			pars[key] = _np.array(1,dtype=_np.int32)
 
@@ -1423,6 +1424,7 @@ class quantum_operator(object):
 			raise ValueError("unexpected couplings: {}".format(extra))
 
 		missing =  set(self._quantum_operator.keys()) - set(pars.keys())
+		pars = dict(pars)
 		for key in missing:
 			pars[key] = 1.0
 
-- 
2.43.0


From 7351aa32f2a0b664d367bf467192104e70902507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 43/96] fix: arithmetic of quantum_operators changed its
 operands and failed for python scalars

---
 quspin/operators/quantum_operator_core.py | 84 +++++++++++++++++------
 1 file changed, 62 insertions(+), 22 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index dc59759..2df768b 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -1298,54 +1298,77 @@ class quantum_operator(object):
 			return self.tocsr(pars)
 
 	def __neg__(self):
-		return self.__imul__(-1)
+		return self.__mul__(-1)
+
+	def _check_cast(self,other):
+		if not _np.can_cast(_np.result_type(other),self._dtype,casting="same_kind"):
+			raise TypeError("cannot cast types")
 
 	def __iadd__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			self._mat_checks(other)
+
+			for key,value in list(iteritems(other._quantum_operator)):
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] + value
-				else:
-					self._quantum_operator[key] = value
+					value = hamiltonian_core._mat_add(self._quantum_operator[key],value)
+
+				self._quantum_operator[key] = value.astype(self._dtype,copy=True)
 
 				if _check_almost_zero(self._quantum_operator[key]):
 					self._quantum_operator.pop(key)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
 	def __add__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if isinstance(other,quantum_operator):
+			result_dtype = _np.result_type(self._dtype, other.dtype)
+		elif _np.isscalar(other) and other == 0:
+			result_dtype = self._dtype
+		else:
+			return NotImplemented
+
 		new = self.astype(result_dtype,copy=True)
 		new += other
 		return new
 
+	def __radd__(self,other):
+		return self.__add__(other)
+
 	def __isub__(self,other):
-		self._is_dense = self._is_dense or other._is_dense
 		if isinstance(other,quantum_operator):
-			for key,value in iteritems(other._quantum_operator):
+			self._mat_checks(other)
+
+			for key,value in list(iteritems(other._quantum_operator)):
 				if key in self._quantum_operator:
-					self._quantum_operator[key] = self._quantum_operator[key] - value
+					value = hamiltonian_core._mat_add(self._quantum_operator[key],value,-1)
 				else:
-					self._quantum_operator[key] = -value
+					value = -value
+
+				self._quantum_operator[key] = value.astype(self._dtype,copy=True)
 
 				if _check_almost_zero(self._quantum_operator[key]):
 					self._quantum_operator.pop(key)
 
 			self._update_matvecs()
 			return self
-		elif other == 0:
+		elif _np.isscalar(other) and other == 0:
 			return self
 		else:
 			return NotImplemented
 
 	def __sub__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if isinstance(other,quantum_operator):
+			result_dtype = _np.result_type(self._dtype, other.dtype)
+		elif _np.isscalar(other) and other == 0:
+			result_dtype = self._dtype
+		else:
+			return NotImplemented
+
 		new = self.astype(result_dtype,copy=True)
 		new -= other
 		return new		
@@ -1356,35 +1379,51 @@ class quantum_operator(object):
 		elif not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op *= other
+			self._check_cast(other)
+			for key,op in list(iteritems(self._quantum_operator)):
+				self._quantum_operator[key] = (op*other).astype(self._dtype)
 
 			self._update_matvecs()
 			return self
 
 	def __mul__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+		if not _np.isscalar(other):
+			return NotImplemented
+
+		result_dtype = _np.result_type(self._dtype, getattr(other,"dtype",other))
 		new = self.astype(result_dtype,copy=True)
 		new *= other
 		return new
 
-	def __idiv__(self,other):
+	def __rmul__(self,other):
+		return self.__mul__(other)
+
+	def __itruediv__(self,other):
 		if isinstance(other,quantum_operator):
 			return NotImplemented
 		elif not _np.isscalar(other):
 			return NotImplemented
 		else:
-			for op in itervalues(self._quantum_operator):
-				op /= other
+			self._check_cast(other)
+			for key,op in list(iteritems(self._quantum_operator)):
+				self._quantum_operator[key] = (op/other).astype(self._dtype)
+
 			self._update_matvecs()
 			return self
 
-	def __div__(self,other):
-		result_dtype = _np.result_type(self._dtype, other.dtype)
+	def __truediv__(self,other):
+		if not _np.isscalar(other):
+			return NotImplemented
+
+		result_dtype = _np.result_type(self._dtype, getattr(other,"dtype",other))
 		new = self.astype(result_dtype,copy=True)
 		new /= other
 		return new
 
+	__idiv__ = __itruediv__
+	__div__ = __truediv__
+
+
 
 
 
@@ -1444,6 +1483,7 @@ class quantum_operator(object):
 				raise ValueError('cannot cast types')	
 
 	def _update_matvecs(self):
+		self._is_dense = any(not _sp.issparse(op) for op in itervalues(self._quantum_operator))
 		self._matvec_functions = {}
 
 		for key in self._quantum_operator.keys():
-- 
2.43.0


From 648bc402f8a6a094907feca880427450ca9bbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 44/96] fix: quantum_operator changed or lost the matrices
 given for one key

---
 quspin/operators/quantum_operator_core.py | 63 ++++-------------------
 1 file changed, 10 insertions(+), 53 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 2df768b..6fa003c 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -199,59 +199,22 @@ class quantum_operator(object):
 
 
 			for key,O_list in iteritems(other_dict):
-				for i,O in enumerate(O_list):
-					if _sp.issparse(O):
-						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.ndarray:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
-
-					elif O.__class__ is _np.matrix:
-						self._mat_checks(O)
-						self._is_dense=True
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+				for O in O_list:
+					if not _sp.issparse(O):
+						O = _np.asarray(O)
 
-					else:
-						O = _np.asanyarray(O)
-						self._mat_checks(O)
-						if i == 0:
-							self._quantum_operator[key] = O
-						else:
-							try:
-								self._quantum_operator[key] += O
-							except NotImplementedError:
-								self._quantum_operator[key] = self._quantum_operator[key] + O
+					self._mat_checks(O)
+					O = O.astype(self._dtype,copy=copy)
 
-					
+					if key in self._quantum_operator:
+						self._quantum_operator[key] = hamiltonian_core._mat_add(self._quantum_operator[key],O)
+					else:
+						self._quantum_operator[key] = O
 
 		else:
 			if not hasattr(self,"_shape"):
 				if shape is None:
 					# check if user input basis
-					basis=basis_args.get('basis')	
-
-					# if not
 					if basis is None: 
 						if N is None: # if N is missing 
 							raise Exception("argument N or shape needed to create empty quantum_operator")
@@ -266,11 +229,6 @@ class quantum_operator(object):
 
 					shape = (basis.Ns,basis.Ns)
 
-				else:
-					basis=basis_args.get('basis')	
-					if not basis is None: 
-						raise ValueError("empty hamiltonian only accepts basis or shape, not both")
-
 				if len(shape) != 2:
 					raise ValueError('expecting ndim = 2')
 				if shape[0] != shape[1]:
@@ -1102,8 +1060,7 @@ class quantum_operator(object):
 				else:
 					sparse_constuctor = getattr(_sp,fmt+"_matrix")
 					O = self._quantum_operator[key]
-					if _sp.issparse(O):
-						self._quantum_operator[key] = sparse_constuctor(O)	
+					self._quantum_operator[key] = sparse_constuctor(O)
 
 		self._update_matvecs()	
 
-- 
2.43.0


From 2dcbdb1693c6f49b929842c2a2fcc0bc52af7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 45/96] fix: evaluations of quantum_operators failed for sparse
 states, density matrices and given output arrays

---
 quspin/operators/quantum_operator_core.py | 43 ++++++++++++++---------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index 6fa003c..fecd634 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -436,7 +436,7 @@ class quantum_operator(object):
 		result_dtype = _np.result_type(V.dtype,self._dtype)
 
 		if not (result_dtype in hamiltonian_core.supported_dtypes):
-			raise TypeError('hamiltonian does not support type: '+str(dtype))
+			raise TypeError('hamiltonian does not support type: '+str(result_dtype))
 
 		if self.Ns <= 0:
 			return _np.asarray([],dtype=result_dtype)
@@ -445,10 +445,10 @@ class quantum_operator(object):
 			if out is not None:
 				raise TypeError("'out' option does not apply for sparse inputs.")
 
-			sparse_constuctor = getattr(_sp,V.get_format()+"_matrix")
+			sparse_constuctor = getattr(_sp,V.format+"_matrix")
 			out = sparse_constuctor(V.shape,dtype=result_dtype)
 			for key,J in pars.items():
-				out = out + J*self._quantum_operator[key].dot(V)
+				out = out + J*sparse_constuctor(hamiltonian_core._mat_mul(self._quantum_operator[key],V))
 			out = a*out
 
 		else:
@@ -512,7 +512,7 @@ class quantum_operator(object):
 		corresponds to :math:`B = AH`. 
 	
 		"""
-		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=out.T,overwrite_out=overwrite_out,a=a).transpose()
+		return self.transpose().dot(V.transpose(),pars=pars,check=check,out=(None if out is None else out.T),overwrite_out=overwrite_out,a=a).transpose()
 
 	def quant_fluct(self,V,pars={},check=True,enforce_pure=False):
 		"""Calculates the quantum fluctuations (variance) of `quantum_operator` object for parameters `pars`, in state `V`.
@@ -563,10 +563,10 @@ class quantum_operator(object):
 		V_dot = self.dot(V,pars=pars,check=check)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if V_dot.ndim == 1 or V_dot.shape[0] != V_dot.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot,pars=pars,check=check)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
@@ -620,12 +620,13 @@ class quantum_operator(object):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.getH().dot(V_right)).toarray().item()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-			V_right = _np.asarray(V_right).squeeze()
-			if V_right.ndim == 1: # pure state
+			V_left = _np.asarray(V_left)
+			V_right = _np.asarray(V_right)
+			if V_right.ndim == 1 or (V_right.shape[1] == 1 and (enforce_pure or V_right.shape[0] != 1)): # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 				return _np.einsum("ij,ij->j",V_left.conj(),V_right)
@@ -677,7 +678,7 @@ class quantum_operator(object):
 				shape = Vl.shape
 
 			if shape[0] != self._shape[1]:
-				raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(V.shape,self._shape))
+				raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(Vl.shape,self._shape))
 
 			if Vl.ndim > 2:
 				raise ValueError("Expecting  0< V.ndim < 3.")
@@ -916,11 +917,13 @@ class quantum_operator(object):
 		pars = self._check_scalar_pars(pars)
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
-			out = _np.asmatrix(out)
+			out = _np.asmatrix(self._zeros(pars))
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			op = self._quantum_operator[key]
+			out += J * (op.toarray() if _sp.issparse(op) else op)
 		
 		return out
 
@@ -952,10 +955,13 @@ class quantum_operator(object):
 		pars = self._check_scalar_pars(pars)
 
 		if out is None:
-			out = _np.zeros(self._shape,dtype=self.dtype)
+			out = self._zeros(pars)
+		else:
+			out[...] = 0
 
 		for key,J in pars.items():
-			out += J * self._quantum_operator[key]
+			op = self._quantum_operator[key]
+			out += J * (op.toarray() if _sp.issparse(op) else op)
 		
 		return out
 
@@ -983,7 +989,7 @@ class quantum_operator(object):
 		"""
 		pars = self._check_scalar_pars(pars)
 		matvec = functools.partial(_quantum_operator_dot,self,pars)
-		rmatvec = functools.partial(_quantum_operator_dot,self.H,pars)
+		rmatvec = functools.partial(_quantum_operator_dot,self.H,{key:_np.conj(J) for key,J in iteritems(pars)})
 		return _sla.LinearOperator(self.get_shape,matvec,rmatvec=rmatvec,matmat=matvec,dtype=self._dtype)		
 
 	def tohamiltonian(self,pars={}):
@@ -1018,7 +1024,7 @@ class quantum_operator(object):
 				else:
 					static.append(J*self._quantum_operator[key])
 
-		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype)
+		return hamiltonian_core.hamiltonian(static,dynamic,dtype=self._dtype,shape=self._shape)
 
 	def update_matrix_formats(self,matrix_formats):
 		"""Change the internal structure of the matrices in-place.
@@ -1383,6 +1389,9 @@ class quantum_operator(object):
 
 
 
+	def _zeros(self,pars):
+		# the couplings can be complex while the operators are real.
+		return _np.zeros(self._shape,dtype=_np.result_type(self._dtype,*pars.values()))
 
 	def _check_hamiltonian_pars(self,pars):
 
-- 
2.43.0


From eeff0b5fd3cfbd50f2db8cceeaa46bcb080da79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 46/96] fix: interrupts and memory errors were swallowed by
 bare excepts

---
 quspin/operators/hamiltonian_core.py      | 10 +++++-----
 quspin/operators/quantum_operator_core.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index b8de80d..ca76a1d 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -413,7 +413,7 @@ class hamiltonian(object):
 			try:
 				self._static.sum_duplicates()
 				self._static.eliminate_zeros()
-			except: pass
+			except AttributeError: pass
 
 
 
@@ -1567,7 +1567,7 @@ class hamiltonian(object):
 			Hd = _sp.csr_matrix(Hd)
 			try:
 				H += Hd * func(time)
-			except:
+			except (TypeError,NotImplementedError):
 				H = H + Hd * func(time)
 
 
@@ -1602,7 +1602,7 @@ class hamiltonian(object):
 			Hd = _sp.csc_matrix(Hd)
 			try:
 				H += Hd * func(time)
-			except:
+			except (TypeError,NotImplementedError):
 				H = H + Hd * func(time)
 
 
@@ -2591,7 +2591,7 @@ class hamiltonian(object):
 			try:
 				new._dynamic[func].sum_duplicates()
 				new._dynamic[func].eliminate_zeros()
-			except: pass
+			except AttributeError: pass
 
 			if _check_almost_zero(new._dynamic[func]):
 				new._dynamic.pop(func)
@@ -2615,7 +2615,7 @@ class hamiltonian(object):
 			try:
 				self._dynamic[func].sum_duplicates()
 				self._dynamic[func].eliminate_zeros()
-			except: pass
+			except AttributeError: pass
 
 			if _check_almost_zero(self._dynamic[func]):
 				self._dynamic.pop(func)
diff --git a/quspin/operators/quantum_operator_core.py b/quspin/operators/quantum_operator_core.py
index fecd634..d1764da 100644
--- a/quspin/operators/quantum_operator_core.py
+++ b/quspin/operators/quantum_operator_core.py
@@ -843,7 +843,7 @@ class quantum_operator(object):
 		for key,J in pars.items():
 			try:
 				H += J*_sp.csr_matrix(self._quantum_operator[key])
-			except:
+			except (TypeError,NotImplementedError):
 				H = H + J*_sp.csr_matrix(self._quantum_operator[key])
 
 		return H
@@ -877,7 +877,7 @@ class quantum_operator(object):
 		for key,J in pars.items():
 			try:
 				H += J*_sp.csc_matrix(self._quantum_operator[key])
-			except:
+			except (TypeError,NotImplementedError):
 				H = H + J*_sp.csc_matrix(self._quantum_operator[key])
 
 		return H
-- 
2.43.0


From 473f80a6bb408e2f78ec2bc599f700074339e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 47/96] fix: Liouville-von Neumann evolution used the wrong
 matrix for transposed sparse formats

---
 quspin/operators/hamiltonian_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/hamiltonian_core.py b/quspin/operators/hamiltonian_core.py
index ca76a1d..88a6afd 100644
--- a/quspin/operators/hamiltonian_core.py
+++ b/quspin/operators/hamiltonian_core.py
@@ -1298,11 +1298,11 @@ class hamiltonian(object):
 		"""
 		rho = rho.reshape((self.Ns,self.Ns))
 		self._static_matvec(self._static  ,rho  ,out=rho_out  ,a=+1.0,overwrite_out=True) # rho_out = self._static.dot(rho)
-		self._static_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
+		_matvec(self._static.T,rho.T,out=rho_out.T,a=-1.0,overwrite_out=False) # rho_out -= (self._static.T.dot(rho.T)).T
 		for func,Hd in iteritems(self._dynamic):
 			ft = func(time)
 			self._dynamic_matvec[func](Hd  ,rho  ,out=rho_out  ,a=+ft,overwrite_out=False) # rho_out += ft*Hd.dot(rho)
-			self._dynamic_matvec[func](Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
+			_matvec(Hd.T,rho.T,out=rho_out.T,a=-ft,overwrite_out=False) # rho_out -= ft*(Hd.T.dot(rho.T)).T
 
 		rho_out *= -1j
 		return rho_out.ravel()
@@ -1349,7 +1349,7 @@ class hamiltonian(object):
 			self._dynamic_matvec[func](Hd,V[self._Ns:],out=V_out[:self._Ns],a=+ft,overwrite_out=False) # V_dot[:self._Ns] += func(time)*Hd.dot(V[self._Ns:])
 			self._dynamic_matvec[func](Hd,V[:self._Ns],out=V_out[self._Ns:],a=-ft,overwrite_out=False) # V_dot[self._Ns:] += -func(time)*Hd.dot(V[:self._Ns])
 
-		return V_out
+		return V_out.ravel()
 
 	def __SO(self,time,V,V_out):
 		"""
-- 
2.43.0


From cebeda7f8de287d7417ce39104219852f5be02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 48/96] fix: coordinates in Floquet_t_vec were found by
 comparing rounded times

---
 quspin/tools/Floquet.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index adb17dd..a95e1ef 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -671,12 +671,8 @@ class Floquet_t_vec(object):
 
 		"""	
 
-		t=self._vals[index]
-		eps=1E-15
-
-		i=_np.searchsorted(self.strobo._vals,t+eps)-1
-
-		j=_np.where( _np.abs(t-i*self._T - self._vals[:self.strobo.inds[1]])<eps )[0][0]
+		# the time vector is equidistant and starts at a stroboscopic time
+		i,j=divmod(range(self.len)[index],self.len_T)
 
 		return (i,j)
 
-- 
2.43.0


From 1184bbce6ecf9776f704c8e7fba03aa161b38ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 49/96] fix: Floquet eigenstates with nearly degenerate phases
 were not orthonormal

---
 quspin/tools/Floquet.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index a95e1ef..34322d0 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -325,11 +325,16 @@ class Floquet(object):
 
 		# find Floquet states and phases
 		if "VF" in variables:
-			thetaF, VF = _la.eig(UF,overwrite_a=True)
+			thetaF, VF = _la.eig(UF)
 			# check and orthogonalise VF in degenerate subspaces
-			if _np.any( _np.diff(_np.sort(thetaF)) < 1E3*_np.finfo(thetaF.dtype).eps):
-				VF,_ = _la.qr(VF, overwrite_a=True) 
-			
+			if _np.abs(VF.conj().T.dot(VF)-_np.eye(VF.shape[0])).max() > 1E5*_np.finfo(VF.dtype).eps:
+				# (nearly) degenerate phases: the Schur vectors of a normal matrix are orthonormal eigenvectors
+				R, Z = _la.schur(UF,output='complex')
+				if _np.abs(_np.triu(R,1)).max() < 1E-6:
+					thetaF, VF = R.diagonal().copy(), Z
+				elif _np.any( _np.diff(_np.sort(thetaF)) < 1E3*_np.finfo(thetaF.dtype).eps):
+					VF,_ = _la.qr(VF, overwrite_a=True)
+
 			# https://math.stackexchange.com/questions/269164/diagonalizable-unitarily-schur-factorization
 			# thetaF, VF = _la.schur(UF,overwrite_a=True,output='real')
 			# thetaF=thetaF.diagonal()
-- 
2.43.0


From 90721cd96e880051c0a8cb1ba6b4141b381aed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 50/96] fix: step lists of different length were accepted by
 Floquet

---
 quspin/tools/Floquet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index 34322d0..531804e 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -281,6 +281,9 @@ class Floquet(object):
 				else:
 					self._T = dt_list.sum()
 
+				if t_list.size != dt_list.size:
+					raise ValueError("Expecting arguments 't_list' and 'dt_list' to have the same length!")
+
 				if not ishamiltonian(H):
 					raise ValueError("expecting hamiltonian object for 'H'.")
 
-- 
2.43.0


From 41ee10a172fad49b642d00eb20bd4f0647815b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 51/96] fix: Floquet unitary was transposed

---
 quspin/tools/Floquet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index 531804e..65a9749 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -115,19 +115,19 @@ def _get_U_cont(H,T,n_jobs,atol=1E-9,rtol=1E-9):
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_cont)(i,H,T,atol,rtol) for i in _range_iter(0,H.Ns,1))
 
-	return vstack(sols)
+	return vstack(sols).T # sols[i] is the i-th column of U
 
 def _get_U_step_3(H_list,dt_list,n_jobs): 
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_step_3)(i,H_list,dt_list) for i in _range_iter(0,H_list[0].Ns,1))
 
-	return vstack(sols)
+	return vstack(sols).T # sols[i] is the i-th column of U
 
 def _get_U_step_2(H,t_list,dt_list,n_jobs): 
 	
 	sols=Parallel(n_jobs=n_jobs)(delayed(_evolve_step_2)(i,H,t_list,dt_list) for i in _range_iter(0,H.Ns,1))
 
-	return vstack(sols)
+	return vstack(sols).T # sols[i] is the i-th column of U
 
 
 
-- 
2.43.0


From b9c1df72893f52fdd2287be99dfc64cecd1d229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:43 +0000
Subject: [PATCH 52/96] fix: failures of driving functions were swallowed by
 Floquet

---
 quspin/tools/Floquet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/Floquet.py b/quspin/tools/Floquet.py
index 65a9749..c8690a8 100644
--- a/quspin/tools/Floquet.py
+++ b/quspin/tools/Floquet.py
@@ -51,8 +51,8 @@ def _evolve_cont(i,H,T,atol=1E-9,rtol=1E-9):
 		try:
 			psi_t=H.evolve(psi0,0,t_list,eom="SE",iterate=False,atol=atol,rtol=rtol)
 			return psi_t[:,-1]
-		except:
-			RuntimeError
+		except RuntimeError:
+			pass # solver did not converge, retry with intermediate times
 		nsteps *= 10
 		t_list = _np.linspace(0,T,num=nsteps+1,endpoint=True)
 	
-- 
2.43.0


From d0f692bfe1ea446ed732cdfd0d8b59106d3cfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 53/96] fix: evolve normalised by the wrong norm and failed for
 several states in imaginary time

---
 quspin/tools/evolution.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 2de0ef1..f372b80 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -271,6 +271,7 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 		raise ValueError("state mush have ndim < 3.")
 
 	shape0 = v0.shape
+	n = _np.linalg.norm(v0,axis=0) # needed for imaginary time to preserve the proper norm of the state(s). 
 
 	if ndim == 2:
 		v0 = v0.ravel()
@@ -280,8 +281,6 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 	if _np.iscomplexobj(times):
 		raise ValueError("times must be real number(s).")
 
-	n = _np.linalg.norm(v0) # needed for imaginary time to preserve the proper norm of the state. 
-
 	if stack_state:
 		if imag_time:
 			raise ValueError("imag_time is not compatible with stack_state.")
@@ -343,10 +342,11 @@ def _cmplx_f(t,y,f,f_params):
 
 
 def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
-	Ns = shape0[0]
+	# the result is a copy, the caller can change it while the solver continues from 'y'.
 	if stack_state:
-		yout = y[:Ns].astype(_np.complex128).reshape(shape0)
-		yout[...] += 1j*y[Ns:].reshape(shape0)
+		m = y.size//2
+		yout = y[:m].astype(_np.complex128).reshape(shape0)
+		yout[...] += 1j*y[m:].reshape(shape0)
 	elif complex_valued:
 		yout = y.view(_np.complex128).reshape(shape0)
 	else:
-- 
2.43.0


From 9493b97f78fe338224ce6ced3caa080b801d5371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 54/96] fix: evolve returned views of its own memory and
 changed the state of the caller

---
 quspin/tools/evolution.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index f372b80..3999701 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -300,16 +300,12 @@ def evolve(v0,t0,times,f,solver_name="dop853",real=False,stack_state=False,verbo
 		solver.set_f_params(*f_params)
 	elif real:
 		complex_valued = False
+		v0 = _np.array(v0,dtype=_np.float64)
 		solver = ode(f) # y_f = f(t,y,*args)
 		solver.set_f_params(*f_params)
 	else:
 		complex_valued = True
-		# check if array is contiguous (required by memory view)
-		try:
-			v0 = v0.astype(_np.complex128,copy=False).view(_np.float64)
-		except ValueError:
-			# copy initial state v0 to make it contiguous
-			v0 = v0.astype(_np.complex128,copy=True).view(_np.float64)
+		v0 = _np.array(v0,dtype=_np.complex128,order="C").view(_np.float64)
 		solver = ode(_cmplx_f) # y_f = f(t,y,*args)
 		solver.set_f_params(f,f_params)
 
@@ -342,7 +338,7 @@ def _cmplx_f(t,y,f,f_params):
 
 
 def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
-	# the result is a copy, the caller can change it while the solver continues from 'y'.
+	# returns a copy, the caller can change it while the solver continues from 'y'.
 	if stack_state:
 		m = y.size//2
 		yout = y[:m].astype(_np.complex128).reshape(shape0)
@@ -352,10 +348,10 @@ def _format_output(y,complex_valued,stack_state,imag_time,n,shape0):
 	else:
 		yout = y.reshape(shape0)
 
-	if imag_time:
+	if imag_time: # the solver continues from the normalised state(s)
 		yout /= (norm(yout,axis=0)/n)
 
-	return yout
+	return yout if stack_state else yout.copy()
 
 
 
-- 
2.43.0


From bd11834631063c370ff0b38703c4d92d1056abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 55/96] fix: dot(out=), quant_fluct and expt_value of
 quantum_LinearOperator failed

---
 quspin/basis/base.py                          | 17 ++++++++--
 .../operators/quantum_LinearOperator_core.py  | 32 +++++++++----------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 42daeae..4a05bd8 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -115,7 +115,16 @@ class basis(object):
 			raise ValueError("dimension mismatch")
 
 		if v_out is None:
-			v_out = _np.zeros_like(v_in,dtype=result_dtype)
+			v_out = _np.zeros_like(v_in,dtype=result_dtype,order="C")
+		else:
+			if v_out.dtype != result_dtype:
+				raise TypeError("v_out does not have the correct data type.")
+
+			if not v_out.flags["CARRAY"]:
+				raise ValueError("v_out is not a writable C-contiguous array")
+
+			if v_out.shape != v_in.shape:
+				raise ValueError("invalid shape for v_out and v_in: v_in.shape != v_out.shape")
 
 		v_out = v_out.reshape((self.Ns,-1))
 		v_in = v_in.reshape((self.Ns,-1))
@@ -135,7 +144,7 @@ class basis(object):
 
 		return v_out.squeeze()		
 
-	def inplace_Op(self,v_in,op_list,dtype,transposed=False,conjugated=False,v_out=None):
+	def inplace_Op(self,v_in,op_list,dtype,transposed=False,conjugated=False,v_out=None,a=1.0):
 		"""Calculates the action of an operator on a state.
 
 		Notes
@@ -156,6 +165,8 @@ class basis(object):
 			if `True` this function will act with the conjugated operator.
 		v_out : array_like
 			output array, must be the same shape as `v_in` and must match the type of the output.
+		a : scalar, optional
+			scalar to multiply the operator with.
 
 		Returns
 		--------
@@ -175,7 +186,7 @@ class basis(object):
 
 		"""
 
-		return self._inplace_Op(v_in,op_list,dtype,transposed=transposed,conjugated=conjugated,v_out=v_out)
+		return self._inplace_Op(v_in,op_list,dtype,transposed=transposed,conjugated=conjugated,v_out=v_out,a=a)
 
 	def Op(self,opstr,indx,J,dtype):
 		"""Constructs operator from a site-coupling list and an operator string in a lattice basis.
diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index 22a0ab6..b1afa21 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -299,20 +299,19 @@ class quantum_LinearOperator(LinearOperator):
 	
 		"""
 		if out is not None:
-			out = _np.asanyarray(out)
-			result_dtype = _np.result_type(self._dtype,other.dtype)
+			other = _np.asanyarray(other)
+			result_dtype = _np.result_type(self._dtype,other.dtype,a)
 
-			if (not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,shape)):
-				raise ValueError("out must be C-congituous writable array \
-					with dtype {} and shape {}.".format(result_dtype,self._shape))
+			if other.ndim not in [1,2] or other.shape[0] != self._shape[1]:
+				raise ValueError("dimension mismatch with shapes {} and {}".format(self._shape,other.shape))
 
-			if self.diagonal is not None:
-				_np.multiply(other.T,self.diagonal,out=out.T)
+			if type(out) is not _np.ndarray or not out.flags["CARRAY"] or (out.dtype,out.shape) != (result_dtype,other.shape):
+				raise ValueError("out must be C-congituous writable array with dtype {} and shape {}.".format(result_dtype,other.shape))
 
-			self.basis.inplace_Op(other, self._static_list, self._dtype,
-				self._conjugated,self._transposed,v_out=out,a=a)
+			out[...] = a * self._matvec(other)
 
 			return out
+
 		else:
 			return a * (self * other)
 
@@ -357,13 +356,13 @@ class quantum_LinearOperator(LinearOperator):
 
 		# fluctuations =  expctH2 - expctH^2
 		kwargs = dict(enforce_pure=enforce_pure)
-		V_dot = self.dot(V,check=check)
+		V_dot = self.dot(V)
 		expt_value_sq = self._expt_value_core(V,V_dot,**kwargs)**2
 
-		if V.shape[0] != V.shape[1] or enforce_pure:
+		if V_dot.ndim == 1 or V_dot.shape[0] != V_dot.shape[1] or enforce_pure:
 			sq_expt_value = self._expt_value_core(V_dot,V_dot,**kwargs)
 		else:
-			V_dot = self.dot(V_dot,time=time,check=check)
+			V_dot = self.dot(V_dot)
 			sq_expt_value = self._expt_value_core(V,V_dot,**kwargs)
 
 		return sq_expt_value - expt_value_sq
@@ -414,12 +413,13 @@ class quantum_LinearOperator(LinearOperator):
 	def _expt_value_core(self,V_left,V_right,enforce_pure=False):
 		if _sp.issparse(V_right):
 			if V_left.shape[0] != V_left.shape[1] or enforce_pure: # pure states
-				return _np.asscalar((V_left.H.dot(V_right)).toarray())
+				return (V_left.getH().dot(V_right)).toarray().item()
 			else: # density matrix
 				return V_right.diagonal().sum()
 		else:
-			V_right = _np.asarray(V_right).squeeze()
-			if V_right.ndim == 1: # pure state
+			V_left = _np.asarray(V_left)
+			V_right = _np.asarray(V_right)
+			if V_right.ndim == 1 or (V_right.shape[1] == 1 and (enforce_pure or V_right.shape[0] != 1)): # pure state
 				return _np.vdot(V_left,V_right)
 			elif V_left.shape[0] != V_left.shape[1] or enforce_pure: # multiple pure states
 				return _np.einsum("ij,ij->j",V_left.conj(),V_right)
@@ -466,7 +466,7 @@ class quantum_LinearOperator(LinearOperator):
 			shape = Vl.shape
 
 		if shape[0] != self._shape[1]:
-			raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(V.shape,self._shape))
+			raise ValueError("matrix dimension mismatch with shapes: {0} and {1}.".format(Vl.shape,self._shape))
 
 		if Vl.ndim > 2:
 			raise ValueError("Expecting  0< V.ndim < 3.")
-- 
2.43.0


From 50fd0e7b70b92ce2765ecf5af474ae5b8224a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:52 +0000
Subject: [PATCH 56/96] fix: products of quantum_LinearOperator with sparse
 matrices and hamiltonians failed

---
 quspin/operators/quantum_LinearOperator_core.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index b1afa21..ccdc18a 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -766,10 +766,11 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__mul__(other._static_list)
-		dynamic = [[self.__mul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
+		static = self.__mul__(other.static)
+		dynamic = [[self.__mul__(Hd),func,()] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
-							basis=self._basis,dtype=result_dtype,copy=False)
+							basis=self._basis,dtype=result_dtype,copy=False,
+							check_symm=False,check_herm=False,check_pcon=False)
 
 	def _mul_sparse(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
@@ -780,8 +781,7 @@ class quantum_LinearOperator(LinearOperator):
 		else:
 			new_other = _sp.csr_matrix(other.shape,dtype=result_dtype)
 
-
-		for opstr,indx,J in self.static_list:
+		for opstr,indx,J in self._static_list:
 			if not self._transposed:
 				ME, row, col = self.basis.Op(opstr, indx, J, self._dtype)
 			else:
@@ -796,10 +796,11 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _rmul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		static = self.__rmul__(other._static_list)
-		dynamic = [[self.__rmul__(Hd),func] for func,Hd in iteritems(other.dynamic)]
+		static = self.__rmul__(other.static)
+		dynamic = [[self.__rmul__(Hd),func,()] for func,Hd in iteritems(other.dynamic)]
 		return hamiltonian([static],dynamic,
-							basis=self._basis,dtype=result_dtype,copy=False)
+							basis=self._basis,dtype=result_dtype,copy=False,
+							check_symm=False,check_herm=False,check_pcon=False)
 
 	def _add_hamiltonian(self,other):
 		return NotImplemented
-- 
2.43.0


From d7e5e8069f32a03fb6be7bc994ac32cff5b78f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 57/96] fix: quantum_LinearOperator changed the diagonal of the
 caller and dropped imaginary parts

---
 quspin/operators/quantum_LinearOperator_core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index ccdc18a..cbcf9b0 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -129,11 +129,15 @@ class quantum_LinearOperator(LinearOperator):
 		static_list = _consolidate_static(static_list)
 
 		self._static_list = []
+		own_diagonal = False
 		for opstr,indx,J in static_list:
 			ME,row,col = self.basis.Op(opstr,indx,J,self._dtype)
 			if _is_diagonal(row,col):
 				if self._diagonal is None:
 					self._diagonal = _np.zeros((self.Ns,),dtype=ME.dtype)
+				elif not own_diagonal: # do not write to the array of the caller
+					self._diagonal = self._diagonal.astype(_np.result_type(self._diagonal.dtype,ME.dtype))
+				own_diagonal = True
 
 				_update_diag(self._diagonal,row,ME)
 
@@ -213,6 +217,8 @@ class quantum_LinearOperator(LinearOperator):
 			raise ValueError("diagonal must be 1-d array.")
 		if diagonal.shape[0] != self.Ns:
 			raise ValueError("length of diagonal must be equal to dimension of matrix")
+		if not _np.can_cast(diagonal.dtype,self._dtype,casting="same_kind"):
+			raise TypeError("cannot cast diagonal of type {} to type {}.".format(diagonal.dtype,_np.dtype(self._dtype)))
 
 		if copy:
 			self._diagonal = diagonal.copy()
-- 
2.43.0


From f234e22f3a30203e5a5321780fba7de8c125c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 58/96] fix: views and multiples of a quantum_LinearOperator
 changed the operator itself, conjugated ones acted wrongly

---
 .../operators/quantum_LinearOperator_core.py  | 56 ++++++++++++-------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/quspin/operators/quantum_LinearOperator_core.py b/quspin/operators/quantum_LinearOperator_core.py
index cbcf9b0..1ed35a1 100644
--- a/quspin/operators/quantum_LinearOperator_core.py
+++ b/quspin/operators/quantum_LinearOperator_core.py
@@ -17,6 +17,8 @@ import scipy.sparse.linalg as _sla
 import scipy.sparse as _sp
 import numpy as _np
 
+from copy import copy as _shallowcopy,deepcopy as _deepcopy
+
 from scipy.sparse.linalg import LinearOperator
 
 from six import iteritems
@@ -104,7 +106,6 @@ class quantum_LinearOperator(LinearOperator):
 		self._unique_me = self.basis._unique_me
 		self._transposed = False
 		self._conjugated = False
-		self._scale = _np.array(1.0,dtype=dtype)
 		self._dtype = dtype
 		self._ndim = 2
 		self._shape = (self._basis.Ns,self._basis.Ns)
@@ -196,8 +197,8 @@ class quantum_LinearOperator(LinearOperator):
 	def diagonal(self):
 		"""numpy.ndarray: static diagonal part of the linear operator. """
 		if self._diagonal is not None:
-			diagonal_view=self._diagonal[:]
-			diagonal_view.setflags(write=0,uic=0)
+			diagonal_view = self._diagonal.conj()[:] if self._conjugated else self._diagonal[:]
+			diagonal_view.setflags(write=False)
 			return diagonal_view
 		else:
 			return None
@@ -220,6 +221,9 @@ class quantum_LinearOperator(LinearOperator):
 		if not _np.can_cast(diagonal.dtype,self._dtype,casting="same_kind"):
 			raise TypeError("cannot cast diagonal of type {} to type {}.".format(diagonal.dtype,_np.dtype(self._dtype)))
 
+		# stored without the conjugation that is applied when acting on a state
+		if self._conjugated:
+			diagonal = diagonal.conj()
 		if copy:
 			self._diagonal = diagonal.copy()
 		else:
@@ -495,12 +499,11 @@ class quantum_LinearOperator(LinearOperator):
 
 		other = other.astype(result_dtype,copy=False,order="C")
 		new_other = _np.zeros_like(other)
-		
 		if self._diagonal is not None:
-			_np.multiply(other.T,self._diagonal,out=new_other.T)
+			_np.multiply(other.T,self.diagonal,out=new_other.T)
 
 		self.basis.inplace_Op(other,self._static_list, self._dtype,
-							self._conjugated,self._transposed,v_out=new_other)
+							self._transposed,self._conjugated,v_out=new_other)
 
 		return new_other
 
@@ -563,8 +566,9 @@ class quantum_LinearOperator(LinearOperator):
 		if copy:
 			return self.copy().transpose()
 		else:
-			self._transposed = not self._transposed
-			return self
+			new = _shallowcopy(self)
+			new._transposed = not self._transposed
+			return new
 
 	def conjugate(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -584,8 +588,9 @@ class quantum_LinearOperator(LinearOperator):
 		>>> H_conj = H.conj()
 
 		"""
-		self._conjugated = not self._conjugated
-		return self
+		new = _shallowcopy(self)
+		new._conjugated = not self._conjugated
+		return new
 
 	def conj(self):
 		"""Conjugates `quantum_LinearOperator` operator.
@@ -627,7 +632,7 @@ class quantum_LinearOperator(LinearOperator):
 
 		"""
 		if copy:
-			return self.copy().get_H()
+			return self.copy().getH()
 		else:
 			return self.conj().transpose()
 
@@ -635,9 +640,12 @@ class quantum_LinearOperator(LinearOperator):
 
 	def copy(self):
 		"""Returns a deep copy of `quantum_LinearOperator` object."""
-		return quantum_LinearOperator(list(self._static_list),basis=self._basis,
-							diagonal=self._diagonal,dtype=self._dtype,
-							check_symm=False,check_herm=False,check_pcon=False,copy=True)
+		new = _shallowcopy(self)
+		new._static_list = list(self._static_list)
+		new._public_static_list = _deepcopy(self._public_static_list)
+		if self._diagonal is not None:
+			new._diagonal = self._diagonal.copy()
+		return new
 
 	def __repr__(self):
 		return "<{0}x{1} quspin quantum_LinearOperator of type '{2}'>".format(*(self._shape[0],self._shape[1],self._dtype))
@@ -705,7 +713,7 @@ class quantum_LinearOperator(LinearOperator):
 
 	def __imul__(self,other):
 		if _np.isscalar(other):
-			return self._mul_scalar(other)
+			return self._scaled_by(other)
 		else:
 			return NotImplemented
 
@@ -766,9 +774,19 @@ class quantum_LinearOperator(LinearOperator):
 				raise ValueError("dimension mismatch with shapes {0} and {1}".format(self._shape,other.shape))
 			return (self.T._mul_sparse(other.T)).T
 
-	def _mul_scalar(self,other):
+	def _scaled_by(self,other):
+		# scalar acts on the matrix after conjugation
+		if self._conjugated:
+			other = _np.conj(other)
 		self._dtype = _np.result_type(self._dtype,other)
-		self._scale *= other
+		self._static_list = [(opstr,indx,J*other) for opstr,indx,J in self._static_list]
+		self._public_static_list = [[opstr,[[bond[0]*other]+list(bond[1:]) for bond in bonds]] for opstr,bonds in self._public_static_list]
+		if self._diagonal is not None:
+			self._diagonal = self._diagonal * other
+		return self
+
+	def _mul_scalar(self,other):
+		return _shallowcopy(self)._scaled_by(other)
 
 	def _mul_hamiltonian(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
@@ -780,8 +798,8 @@ class quantum_LinearOperator(LinearOperator):
 
 	def _mul_sparse(self,other):
 		result_dtype = _np.result_type(self._dtype,other.dtype)
-		if self.diagonal is not None:
-			new_other = _sp.dia_matrix((_np.asarray([self._diagonal]),_np.array([0])),shape=self._shape).dot(other)
+		if self._diagonal is not None:
+			new_other = _sp.dia_matrix((_np.asarray([self.diagonal]),_np.array([0])),shape=self._shape).dot(other)
 			if new_other.dtype != result_dtype:
 				new_other = new_other.astype(result_dtype)
 		else:
-- 
2.43.0


From 7f05e30bb221bd2b5b629b5a2dbc980a973d9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 59/96] fix: exp_op on grids failed for hamiltonians and sparse
 matrices, iterators shared memory with the caller

---
 quspin/operators/exp_op_core.py | 48 ++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index ab93dbc..0ed716d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -486,9 +486,9 @@ class exp_op(object):
 
 		if self._iterate:
 			if is_ham:
-				return _hamiltonian_iter_dot(M, other, self._step, self._grid)
+				return _hamiltonian_iter_dot(M, other.copy(), self._step, self._grid)
 			else:
-				return _iter_dot(M, other, self._step, self._grid)
+				return _iter_dot(M, other.copy(), self._step, self._grid)
 
 		else:
 			if self._grid is None and self._step is None:
@@ -498,11 +498,9 @@ class exp_op(object):
 					return _expm_multiply(M, other)
 			else:
 				if is_sp:
-					mats = _iter_dot(M, other, self._step, self._grid)
-					return _np.array([mat for mat in mats])
+					return _object_array(_iter_dot(M, other, self._step, self._grid))
 				elif is_ham:
-					mats = _hamiltonian_iter_dot(M, other, self._step, self._grid)
-					return _np.array([mat for mat in mats])
+					return _object_array(_hamiltonian_iter_dot(M, other, self._step, self._grid))
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
 
@@ -581,9 +579,9 @@ class exp_op(object):
 
 		if self._iterate:
 			if is_ham:
-				return _hamiltonian_iter_rdot(M, other.T, self._step, self._grid)
+				return _hamiltonian_iter_rdot(M, other.copy().T, self._step, self._grid)
 			else:
-				return _iter_rdot(M, other.T, self._step, self._grid)
+				return _iter_rdot(M, other.copy().T, self._step, self._grid)
 		else:
 			if self._grid is None and self._step is None:
 
@@ -593,11 +591,9 @@ class exp_op(object):
 					return _expm_multiply(M, other.T).T
 			else:
 				if is_sp:
-					mats = _iter_rdot(M, other.T, self._step, self._grid)
-					return _np.array([mat for mat in mats])
+					return _object_array(_iter_rdot(M, other.T, self._step, self._grid))
 				elif is_ham:
-					mats = _hamiltonian_iter_rdot(M, other.T, self._step, self._grid)
-					return _np.array([mat for mat in mats])
+					return _object_array(_hamiltonian_iter_rdot(M, other.T, self._step, self._grid))
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
 					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
@@ -675,9 +671,9 @@ class exp_op(object):
 		if self._iterate:
 
 			if is_ham:
-				mat_iter = _hamiltonian_iter_sandwich(M, other, self._step, self._grid)
+				mat_iter = _hamiltonian_iter_sandwich(M, other.copy(), self._step, self._grid)
 			else:
-				mat_iter = _iter_sandwich(M, other, self._step, self._grid)
+				mat_iter = _iter_sandwich(M, other.copy(), self._step, self._grid)
 
 			return mat_iter
 		else:
@@ -690,13 +686,23 @@ class exp_op(object):
 			else:
 				if is_ham:
 					mat_iter = _hamiltonian_iter_sandwich(M, other, self._step, self._grid)
-					return _np.asarray([mat for mat in mat_iter])
+					return _object_array(mat_iter)
 				else:
 					mat_iter = _iter_sandwich(M, other, self._step, self._grid)
+					if _sp.issparse(other):
+						return _object_array(mat_iter)
 					return _np.asarray([mat for mat in mat_iter]).transpose((1,2,0))
 
 
 ### helper functions
+def _object_array(mats):
+	# array of matrices or `hamiltonian` objects, one for each grid point
+	mats = list(mats)
+	out = _np.empty(len(mats),dtype=object)
+	for i,mat in enumerate(mats):
+		out[i] = mat
+	return out
+
 def _iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
@@ -744,31 +750,35 @@ def _hamiltonian_dot(M, other):
 	new._dtype = _np.result_type(M.dtype,new._dtype)
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
+	new.check_is_dense()
+	new._get_matvecs()
 
 	return new
 
-def _hamiltonian_iter_dot(M, other, grid, step):
+def _hamiltonian_iter_dot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_dot(M, other)
 		M /= grid[0]
 
-	yield other
+	yield other.copy()
 
 	M *= step
 	for t in grid[1:]:
 		other = _hamiltonian_dot(M, other)
-		yield other
+		yield other.copy()
 
 def _hamiltonian_rdot(M, other):
 	new = other.copy() #deep=False: not implememnted in hamiltonian_core.copy()
 	new._dtype = _np.result_type(M.dtype,new._dtype)
 	new._static = _expm_multiply(M, other.static)
 	new._dynamic = {func:_expm_multiply(M, Hd) for func,Hd in iteritems(other._dynamic)}
+	new.check_is_dense()
+	new._get_matvecs()
 
 	return new
 
-def _hamiltonian_iter_rdot(M, other, grid, step):
+def _hamiltonian_iter_rdot(M, other, step, grid):
 	if grid[0] != 0:
 		M *= grid[0]
 		other = _hamiltonian_rdot(M, other)
-- 
2.43.0


From 916885d513df33dbb995b4b53937d79726c63a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 60/96] fix: exp_op returned wrong results on decreasing grids
 and failed for a single point

---
 quspin/operators/exp_op_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 0ed716d..b71db38 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -504,7 +504,7 @@ class exp_op(object):
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
 
-					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
+					if (_np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19) or not (self._num > 1 and self._step > 0):
 						mats = _iter_dot(M, other, self._step, self._grid)
 						return _np.array([mat for mat in mats]).T
 					else:
@@ -596,7 +596,7 @@ class exp_op(object):
 					return _object_array(_hamiltonian_iter_rdot(M, other.T, self._step, self._grid))
 				else:
 					ver = [int(v) for v in scipy.__version__.split(".")]
-					if _np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19:
+					if (_np.iscomplexobj(_np.float32(1.0).astype(M.dtype)) and ver[1] < 19) or not (self._num > 1 and self._step > 0):
 						mats = _iter_rdot(M, other.T, self._step, self._grid)
 						return _np.array([mat for mat in mats])
 					else:
-- 
2.43.0


From 54501734fc9e224b3b7e491b1be3ca0609325a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 61/96] fix: set_grid of exp_op ignored its defaults,
 set_iterate accepted a missing grid

---
 quspin/operators/exp_op_core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index b71db38..a322a8d 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -334,13 +334,17 @@ class exp_op(object):
 		if not (_np.isreal(start) and _np.isreal(stop)):
 			raise ValueError("expecting real values for 'start' and 'stop'")
 
-		if type(num) is not None:
+		if num is not None:
 			if type(num) is not int:
 				raise ValueError("expecting integer for 'num'.")
+		else:
+			num = 50
 
-		if type(endpoint) is not None:
+		if endpoint is not None:
 			if type(endpoint) is not bool:
 				raise ValueError("expecting bool for 'endpoint'.")
+		else:
+			endpoint = True
 
 		self._start=start
 		self._stop=stop
@@ -387,7 +391,7 @@ class exp_op(object):
 			raise ValueError("iterate option must be true or false.")
 
 		if Value:
-			if (self._grid, self._step) is (None, None):
+			if self._grid is None:
 				raise ValueError("grid must be set in order to set iterate to be True.")
 
 		self._iterate = Value
-- 
2.43.0


From d003bcb10d25b3caf4a80131a2d1b13b216fb69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 62/96] fix: T, conj and H of exp_op changed the object itself

---
 quspin/operators/exp_op_core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index a322a8d..75994a1 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -227,8 +227,9 @@ class exp_op(object):
 		if copy:
 			return self.copy().transpose(copy = False)
 		else:
-			self._O=self._O.transpose()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.transpose()
+			return new
 
 	def conj(self):
 		"""Conjugates `exp_op` operator.
@@ -248,9 +249,10 @@ class exp_op(object):
 		>>> expO_conj = expO.conj()
 
 		"""
-		self._O=self._O.conj()
-		self._a = self._a.conjugate()
-		return self
+		new = _shallowcopy(self)
+		new._O = self._O.conj()
+		new._a = self._a.conjugate()
+		return new
 
 	def getH(self,copy = False):
 		"""Calculates hermitian conjugate of `exp_op` operator.
@@ -274,9 +276,10 @@ class exp_op(object):
 		if copy:
 			return self.copy().getH(copy = False)
 		else:
-			self._O = self._O.getH(copy = False)
-			self._a = self._a.conjugate()
-			return self
+			new = _shallowcopy(self)
+			new._O = self._O.getH(copy = False)
+			new._a = self._a.conjugate()
+			return new
 
 
 	def copy(self):
-- 
2.43.0


From 9b2c69b370de88d53ea95f255392bde6edf64881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:22 +0000
Subject: [PATCH 63/96] fix: exp_op.sandwich used the inverse order and ignored
 shift, exponents of dense and quantum_operator type failed

---
 quspin/operators/exp_op_core.py | 55 +++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/quspin/operators/exp_op_core.py b/quspin/operators/exp_op_core.py
index 75994a1..fd72bdc 100644
--- a/quspin/operators/exp_op_core.py
+++ b/quspin/operators/exp_op_core.py
@@ -9,6 +9,7 @@ import scipy.sparse as _sp
 import numpy as _np
 
 from scipy.sparse.linalg import expm_multiply as _expm_multiply
+from scipy.sparse.linalg import expm as _sparse_expm
 
 from copy import deepcopy as _deepcopy # recursively copies all data into new object
 from copy import copy as _shallowcopy
@@ -427,10 +428,28 @@ class exp_op(object):
 		>>> print(expO.get_mat(time=0.0,dense=True))
 
 		"""
-		if self.O.is_dense or dense:
-			return _la.expm(self._a * self.O.toarray(**call_kwargs))
+		M = self._exponent(None,call_kwargs)
+
+		if dense or not _sp.issparse(M):
+			return _la.expm(M.toarray() if _sp.issparse(M) else _np.asarray(M))
 		else:
-			return _la.expm(self._a * self.O.tocsc(**call_kwargs))
+			return _sparse_expm(M.tocsc())
+
+	def _exponent(self,shift,call_kwargs,sparse=False):
+		# matrix `a*(O+shift*Id)`, couplings of a `quantum_operator` can be given as dictionary `pars` or as keywords.
+		# `sparse`: sparse matrix also for dense operators, dense matrices can't be multiplied with sparse ones.
+		if quantum_operator_core.isquantum_operator(self.O) and isinstance(call_kwargs.get("pars"),dict):
+			call_kwargs = call_kwargs["pars"]
+
+		M = self.O(**call_kwargs)
+
+		if shift is not None:
+			M = M + shift*_sp.identity(self.Ns,dtype=self.O.dtype)
+
+		if not _sp.issparse(M):
+			M = _sp.csr_matrix(M) if sparse else _np.asarray(M)
+
+		return self._a * M
 
 	def dot(self, other,shift=None,**call_kwargs):
 		"""Left-multiply operator by matrix exponential.
@@ -446,7 +465,7 @@ class exp_op(object):
 		other : obj
 			The operator :math:`A` which multiplies from the right the matrix exponential :math:`\\exp(\\mathcal{O})`.
 		shift : scalar
-			Shifts operator to be exponentiated by a constant `shift` times te identity matrix: :math:`\\exp(\\mathcal{O} - \\mathrm{shift}\\times\\mathrm{Id})`.
+			Shifts operator to be exponentiated by a constant `shift` times the identity matrix: :math:`\\exp(a(\\mathcal{O} + \\mathrm{shift}\\times\\mathrm{Id}))`.
 		call_kwargs : obj, optional
 			extra keyword arguments which include:
 				**time** (*scalar*) - if the operator `O` to be exponentiated is a `hamiltonian` object.
@@ -486,10 +505,7 @@ class exp_op(object):
 		if shape[0] != self.get_shape[1]:
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
-		if shift is not None:
-			M = self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
-		else:
-			M = self._a * self.O(**call_kwargs)
+		M = self._exponent(shift,call_kwargs,sparse=is_ham or _sp.issparse(other))
 
 		if self._iterate:
 			if is_ham:
@@ -535,7 +551,7 @@ class exp_op(object):
 		other : obj
 			The operator :math:`A` which multiplies from the left the matrix exponential :math:`\\exp(\\mathcal{O})`.
 		shift : scalar
-			Shifts operator to be exponentiated by a constant `shift` times the identity matrix: :math:`\\exp(\\mathcal{O} - \\mathrm{shift}\\times\\mathrm{Id})`.
+			Shifts operator to be exponentiated by a constant `shift` times the identity matrix: :math:`\\exp(a(\\mathcal{O} + \\mathrm{shift}\\times\\mathrm{Id}))`.
 		call_kwargs : obj, optional
 			extra keyword arguments which include:
 				**time** (*scalar*) - if the operator `O` to be exponentiated is a `hamiltonian` object.
@@ -579,10 +595,7 @@ class exp_op(object):
 		elif shape[0] != self.get_shape[0]:
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self._O.get_shape, other.shape))
 
-		if shift is not None:
-			M = (self._a * (self.O(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))).T
-		else:
-			M = (self._a * self.O(**call_kwargs)).T
+		M = self._exponent(shift,call_kwargs,sparse=is_ham or _sp.issparse(other)).T
 
 		if self._iterate:
 			if is_ham:
@@ -631,7 +644,7 @@ class exp_op(object):
 			The operator :math:`C` to be sandwiched by the matrix exponentials :math:`\\exp(\\mathcal{O})^\\dagger`
 			and :math:`\\exp(\\mathcal{O})`.
 		shift : scalar
-			Shifts operator to be exponentiated by a constant `shift` times the identity matrix: :math:`\\exp(\\mathcal{O} - \\mathrm{shift}\\times\\mathrm{Id})`.
+			Shifts operator to be exponentiated by a constant `shift` times the identity matrix: :math:`\\exp(a(\\mathcal{O} + \\mathrm{shift}\\times\\mathrm{Id}))`.
 		call_kwargs : obj, optional
 			extra keyword arguments which include:
 				**time** (*scalar*) - if the operator `O` to be exponentiated is a `hamiltonian` object.
@@ -670,11 +683,8 @@ class exp_op(object):
 		if shape[0] != self.get_shape[0]:
 			raise ValueError("Dimension mismatch between expO: {0} and other: {1}".format(self.get_shape, other.shape))
 
-		if shift is not None:
-			M = self._a.conjugate() * (self.O.H(**call_kwargs) + shift*_sp.identity(self.Ns,dtype=self.O.dtype))
-		else:
-			M = self._a.conjugate() * self.O.H(**call_kwargs)
-			
+		M = self._exponent(shift,call_kwargs,sparse=is_ham or _sp.issparse(other)).conj().T
+
 		if self._iterate:
 
 			if is_ham:
@@ -685,10 +695,9 @@ class exp_op(object):
 			return mat_iter
 		else:
 			if self._grid is None and self._step is None:
-
-				other = self.dot(other,**call_kwargs)
-				other = self.H.rdot(other,**call_kwargs)
-				return other
+				dot = _hamiltonian_dot if is_ham else _expm_multiply
+				other = dot(M, other)
+				return dot(M, other.T.conj()).T.conj()
 
 			else:
 				if is_ham:
-- 
2.43.0


From cf70403f811dbd01dcb1ef06e73af2e0a6a53634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:23 +0000
Subject: [PATCH 64/96] fix: LTLM_static_iteration cut off Lanczos vectors at
 low temperatures and returned nothing for shifted spectra

---
 quspin/tools/lanczos/_LTLM.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/quspin/tools/lanczos/_LTLM.py b/quspin/tools/lanczos/_LTLM.py
index e3dded2..ceb6e14 100644
--- a/quspin/tools/lanczos/_LTLM.py
+++ b/quspin/tools/lanczos/_LTLM.py
@@ -92,26 +92,14 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	"""
 	nv = E.size
 
-	beta = _np.atleast_1d(beta)
-	p = _np.exp(-E*beta.min())*_np.abs(V[0,:]).max()
-	mask = p<_np.finfo(p.dtype).eps
-
-	if _np.any(mask):
-		nv = _np.argmax(mask)
-
 	Ome_dict = {}
 
 	lv_row = iter(Q_T)
 	for i,lv_r in enumerate(lv_row):
-		if i >= nv:
-			break
-
 		lv_col = iter(Q_T)
 		Ar_dict = {key:A.dot(lv_r) for key,A in iteritems(O_dict)}
 		
 		for j,lv_c in enumerate(lv_col):
-			if j >= nv:
-				break
 			for key,A in iteritems(O_dict):
 				if key not in Ome_dict:
 					dtype = _np.result_type(lv_r.dtype,A.dtype)
@@ -124,8 +112,7 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 	del lv_row
 
 
-	p = _np.exp(-_np.outer(E[:nv],_np.atleast_1d(beta)/2.0))
-	V = V[:nv,:nv].copy()
+	p = _np.exp(-_np.outer(E,_np.atleast_1d(beta)/2.0))
 
 	c = _np.einsum("j,j...->j...",V[0,:],p)
 
@@ -134,7 +121,7 @@ def LTLM_static_iteration(O_dict,E,V,Q_T,beta=0):
 		A_diag = V.T.dot(Ame.dot(V))
 		results_dict[key] = _np.squeeze(_np.einsum("j...,l...,jl->...",c,c,A_diag))
 
-	p = _np.exp(-_np.outer(E[:nv],_np.atleast_1d(beta)))
+	p = _np.exp(-_np.outer(E,_np.atleast_1d(beta)))
 	Id = _np.einsum("j,j...->...",V[0,:]**2,p)
 
 	return results_dict,_np.squeeze(Id)
-- 
2.43.0


From ea0982b1011af1f23dd11396eae771d000c773cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 65/96] fix: vectors of lanczos_iter were overwritten by the
 following ones

---
 quspin/tools/lanczos/_lanczos_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index 7bb742d..361330d 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -7,6 +7,12 @@ from copy import deepcopy
 __all__ = ["lanczos_full","lanczos_iter","lin_comb_Q_T"]
 
 
+def _read_only_copy(q):
+	q = q.copy()
+	q.setflags(write=False)
+	return q
+
+
 def _lanczos_vec_iter_core(A,v0,a,b):
 	dtype = _np.result_type(A.dtype,v0.dtype)
 
@@ -16,10 +22,7 @@ def _lanczos_vec_iter_core(A,v0,a,b):
 	if _np.abs(q_norm-1.0) > _np.finfo(dtype).eps:
 			_np.divide(q,q_norm,out=q)
 
-	q_view = q[:]
-	q_view.setflags(write=0,uic=0)
-
-	yield q_view # return non-writable array
+	yield _read_only_copy(q)
 
 	m = a.size
 	n = q.size
@@ -42,7 +45,7 @@ def _lanczos_vec_iter_core(A,v0,a,b):
 
 		_np.divide(r,b[i-1],out=q)
 
-		yield q_view # return non-writable array
+		yield _read_only_copy(q)
 
 		if use_out:
 			A.dot(q,out=r)
-- 
2.43.0


From 36a336e3e33da93e2e966a6b4886511ff6cd28d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 66/96] fix: lanczos_full(full_ortho=True) changed the signs of
 the vectors

---
 quspin/tools/lanczos/_lanczos_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index 361330d..b3e47aa 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -195,9 +195,13 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 
 
 	if full_ortho:
-		q,_ = _np.linalg.qr(Q[:m+1].T)
+		q,R = _np.linalg.qr(Q[:m].T)
 
-		Q[:m+1,:] = q.T[...]
+		# keep the phases of the Lanczos vectors
+		phases = _np.ones(m,dtype=dtype)
+		d = R.diagonal()
+		_np.divide(d,_np.abs(d),out=phases,where=_np.abs(d)>0)
+		Q[:m,:] = (q*phases).T
 
 		h = _np.zeros((m,m),dtype=a.dtype)
 
-- 
2.43.0


From 55593b9d7f2f22c444af29e28bcb037e4e6163f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:05 +0000
Subject: [PATCH 67/96] fix: lanczos_full and lanczos_iter divided by zero or
 lost a vector when the Krylov space is exhausted

---
 quspin/tools/lanczos/_lanczos_utils.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quspin/tools/lanczos/_lanczos_utils.py b/quspin/tools/lanczos/_lanczos_utils.py
index b3e47aa..4158015 100644
--- a/quspin/tools/lanczos/_lanczos_utils.py
+++ b/quspin/tools/lanczos/_lanczos_utils.py
@@ -172,8 +172,11 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 	axpy(Q[0,:],r,n,-a[0])
 	b[0] = _np.linalg.norm(r)
 
-	i = 0
 	for i in range(1,m,1):
+		if b[i-1] < eps: # Krylov subspace is exhausted
+			m = i
+			break
+
 		v[:] = Q[i-1,:]
 
 		_np.divide(r,b[i-1],out=Q[i,:])
@@ -189,9 +192,6 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 		axpy(Q[i,:],r,n,-a[i])
 
 		b[i] = _np.linalg.norm(r)
-		if b[i] < eps:
-			m = i
-			break
 
 
 	if full_ortho:
@@ -212,7 +212,7 @@ def lanczos_full(A,v0,m,full_ortho=False,out=None,eps=None):
 				r[:] = A.dot(Q[i,:])
 
 			_np.conj(r,out=r)
-			h[i,i:] = _np.dot(Q[i:,:],r).real
+			h[i,i:] = _np.dot(Q[i:m,:],r).real
 
 		E,V = _np.linalg.eigh(h,UPLO="U")
 
@@ -319,8 +319,11 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 	axpy(q,r,n,-a[0])
 	b[0] = _np.linalg.norm(r)
 
-	i = 0
 	for i in range(1,m,1):
+		if b[i-1] < eps: # Krylov subspace is exhausted
+			m = i
+			break
+
 		v[:] = q[:]
 
 		_np.divide(r,b[i-1],out=q)
@@ -335,11 +338,9 @@ def lanczos_iter(A,v0,m,return_vec_iter=True,copy_v0=True,copy_A=False,eps=None)
 		axpy(q,r,n,-a[i])
 
 		b[i] = _np.linalg.norm(r)
-		if b[i] < eps:
-			break
 
-	a = a[:i+1].copy()
-	b = b[:i].copy()
+	a = a[:m].copy()
+	b = b[:m-1].copy()
 	del q,r,v
 
 	E,V = eigh_tridiagonal(a,b)
-- 
2.43.0


From dcca0216b070b525d851a5ac3a3feafed74b1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 68/96] fix: states of 1d parity sectors with a unit cell of
 several sites were not normalised

---
 quspin/basis/basis_1d/base_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index a1b101a..cfc9f8c 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -872,7 +872,7 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
-			if 2*kblock == self._L or kblock == 0:
+			if (2*kblock*a) % self._L == 0:
 				norm = _np.full(self._basis.shape,2*(self._L/a)**2,dtype=dtype)
 			else:
 				norm = _np.full(self._basis.shape,(self._L/a)**2,dtype=dtype)
-- 
2.43.0


From 7a8eea78e7c8c7d7e9d5ad53c4bb33a558edfc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 69/96] fix: sectors of both sublattice inversions and momentum
 lost states which are invariant under both

---
 .../basis_1d/_basis_1d_core/sources/basis_templates.pyx    | 7 +++++++
 .../basis/basis_1d/_basis_1d_core/sources/op_templates.pyx | 4 ++++
 quspin/basis/basis_1d/base_1d.py                           | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
index a637204..b10e204 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/basis_templates.pyx
@@ -457,6 +457,13 @@ cdef npy_intp make_t_zA_zB_basis_template(ns_type next_state, basis_type[:] ns_p
                     N[Ns] = r            
                     basis[Ns] = s
                     Ns += 1
+
+            if mzA != -1 and mzB != -1: # both inversions are translations of the state, so is their product
+                if 1 + zAblock*cos(k*mzA) > 0.5 and 1 + zBblock*cos(k*mzB) > 0.5:
+                    m[Ns] = 5*(L+1)
+                    N[Ns] = r            
+                    basis[Ns] = s
+                    Ns += 1
         
         s = next_state(s,ns_pars)
         MAX -= 1
diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
index 492f77e..f7cbefc 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/op_templates.pyx
@@ -953,6 +953,8 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
         nr = (1.0 + zBblock*cos(k*mmr) )/Nr
     elif cr == 4:
         nr = (1.0 + zAblock*zBblock*cos(k*mmr) )/Nr    
+    elif cr == 5:
+        nr = 4.0/Nr
     
 
     if cc == 1:
@@ -963,6 +965,8 @@ cdef double complex MatrixElement_T_ZA_ZB(int L,int zAblock,int zBblock, int kbl
         nc = (1.0 + zBblock*cos(k*mmc) )/Nc
     elif cc == 4:
         nc = (1.0 + zAblock*zBblock*cos(k*mmc) )/Nc    
+    elif cc == 5:
+        nc = 4.0/Nc
     
 
     ME=sqrt(nc/nr)*(zAblock**gA)*(zBblock**gB)
diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index cfc9f8c..d4ba62b 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -870,6 +870,8 @@ class basis_1d(lattice_basis):
 			norm[mask] *= (1.0 + zBblock*_np.cos(self._k*mm[mask]))	
 			_np.equal(c,4,out=mask)
 			norm[mask] *= (1.0 + zblock*_np.cos(self._k*mm[mask]))	
+			_np.equal(c,5,out=mask)
+			norm[mask] *= 4.0
 			del mask
 		elif (type(kblock) is int) and (type(pblock) is int):
 			if (2*kblock*a) % self._L == 0:
-- 
2.43.0


From 788803328c05fb75544bb52f3143a19a7c95ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 70/96] fix: sublattice inversions of chains of even length
 acted on the other sublattice

---
 quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx | 4 ++--
 quspin/basis/basis_1d/boson.py                                | 4 ++--
 quspin/basis/basis_1d/spin.py                                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
index e3b377a..244b97c 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_bitops.pyx
@@ -137,7 +137,7 @@ cdef basis_type flip_sublat_A(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
 
-        if i%2==0: # flip site occupation
+        if (length-1-i)%2==0: # digit i belongs to site length-1-i; flip site occupation
             v += ( sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
@@ -179,7 +179,7 @@ cdef basis_type flip_sublat_B(basis_type s, int length,NP_INT8_t * sign,basis_ty
 
     for i in range(length):
         
-        if i%2==1: # flip site occupation
+        if (length-1-i)%2==1: # digit i belongs to site length-1-i; flip site occupation
             v += (sps - s%sps -1 ) * M[i]
         else: # shift state by 0 sites
             v += ( s%sps ) * M[i]
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index cd7ba90..0a82873 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -203,8 +203,8 @@ class boson_basis_1d(basis_1d):
 
 		if self._sps <= 2:
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-1-i) for i in range(0,L,2)) # site i is bit L-1-i
+			stag_B = sum(1<<(L-1-i) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B] # set sign to not be calculated
 			self._operators = ("availible operators for boson_basis_1d:"+
 								"\n\tI: identity "+
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index f51d36d..2d501b6 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -208,8 +208,8 @@ class spin_basis_1d(basis_1d):
 				raise ValueError("Invalid value for optional argument pauli. Allowed values are the integers [-1,0,1].")
 
 			Imax = (1<<L)-1
-			stag_A = sum(1<<i for i in range(0,L,2))
-			stag_B = sum(1<<i for i in range(1,L,2))
+			stag_A = sum(1<<(L-1-i) for i in range(0,L,2)) # site i is bit L-1-i
+			stag_B = sum(1<<(L-1-i) for i in range(1,L,2))
 			pars = [0,L,Imax,stag_A,stag_B]
 			self._operators = ("availible operators for spin_basis_1d:"+
 								"\n\tI: identity "+
-- 
2.43.0


From f2f100f16906c2db3977a6135ca597c5ee05ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 71/96] fix: particle-hole blocks of boson_basis_1d raised with
 Nb and ignored pcblock

---
 quspin/basis/basis_1d/boson.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 0a82873..8d8ce0f 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -154,7 +154,7 @@ class boson_basis_1d(basis_1d):
 		pzblock = blocks.get("pcblock")
 		a = blocks.get("a")
 
-		if self._sps > 2 and any(type(block) is int for block in [zblock,zAblock,zBblock]):
+		if self._sps > 2 and any(type(block) is int for block in [zblock,zAblock,zBblock,pzblock]):
 			raise ValueError("particle hole symmetry doesn't exist with sps > 2.")
 
 		if type(zblock) is int:
@@ -169,6 +169,10 @@ class boson_basis_1d(basis_1d):
 			del blocks["cBblock"]
 			blocks["zBblock"] = zBblock
 
+		if type(pzblock) is int:
+			del blocks["pcblock"]
+			blocks["pzblock"] = pzblock
+
 		if (type(pblock) is int) and (type(zblock) is int):
 			blocks["pzblock"] = pblock*zblock
 			self._blocks["pcblock"] = pblock*zblock
@@ -188,7 +192,7 @@ class boson_basis_1d(basis_1d):
 
 				if (L*(self.sps-1) % 2) != 0:
 					raise ValueError("spin inversion/particle-hole symmetry with particle/magnetization conservation must be used with chains with 0 magnetization sector or at half filling")
-				if Np != L*(self.sps-1)//2:
+				if Nb != L*(self.sps-1)//2:
 					raise ValueError("spin inversion/particle-hole symmetry only reduces the 0 magnetization or half filled particle sector")
 
 			if (Nb_list is not None) and ((type(zAblock) is int) or (type(zBblock) is int)):
-- 
2.43.0


From 5af61b5d9afdfd1c2a4c168570da3a9fe451170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 72/96] fix: ranges of particle numbers of 1d bases for photon
 bases were cut off

---
 quspin/basis/basis_1d/boson.py   |  2 +-
 quspin/basis/basis_1d/fermion.py | 14 ++++----------
 quspin/basis/basis_1d/spin.py    |  2 +-
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 8d8ce0f..02939db 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -134,7 +134,7 @@ class boson_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min((self._sps-1)*L,_Np)
-				Nb_list = list(range(_Np))
+				Nb_list = list(range(_Np+1))
 
 		if Nb_list is None:
 			self._Np = None			
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 4f997e7..261d08f 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -104,7 +104,7 @@ class spinless_fermion_basis_1d(basis_1d):
 			else:
 				count_particles = True
 				_Np = min(L,_Np)
-				Nf_list = list(range(_Np))
+				Nf_list = list(range(_Np+1))
 
 		if Nf_list is None:
 			self._Np = None			
@@ -251,18 +251,12 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 			if type(_Np) is not int:
 				raise ValueError("_Np must be integer")
 			if _Np >= -1:
-				if _Np+1 > L: 
-					Nf =  []
-					for n in range(L+1):
-						Nf.extend((n-i,i)for i in range(n+1))
-
-					Nf = tuple(Nf)
-				elif _Np==-1:
+				if _Np==-1:
 					Nf = None
 				else:
 					Nf=[]
-					for n in range(_Np+1):
-						Nf.extend((n-i,i)for i in range(n+1))
+					for n in range(min(_Np,2*L)+1):
+						Nf.extend((n-i,i) for i in range(n+1) if i <= L and n-i <= L)
 
 					Nf = tuple(Nf)
 			else:
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 2d501b6..01dfcd6 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -141,7 +141,7 @@ class spin_basis_1d(basis_1d):
 				Nup_list = None
 			else:
 				count_particles = True
-				if _Np+1 > L: _Np = L
+				_Np = min(_Np,(self._sps-1)*L)
 				Nup_list = list(range(_Np+1))
 			
 			
-- 
2.43.0


From 23e542dc389170297d752d651c38ccddc545f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 73/96] fix: projections of 1d bases transformed the states of
 the basis in place and failed for dtype instances

---
 quspin/basis/basis_1d/base_1d.py | 6 +++++-
 quspin/basis/tensor.py           | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index d4ba62b..d0c6929 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -743,6 +743,7 @@ class basis_1d(lattice_basis):
 
 		"""
 
+		dtype = _np.dtype(dtype).type # accept instances of numpy.dtype
 		norms = self._get_norms(dtype)
 
 		a = self._blocks_1d.get("a")
@@ -766,7 +767,7 @@ class basis_1d(lattice_basis):
 			basis_pcon = None
 
 		if self._Ns <= 0:
-			return _sp.csc_matrix(([],([],[])),shape=shape)
+			return _sp.csc_matrix(shape,dtype=dtype)
 
 
 		if (type(kblock) is int) and ((type(pblock) is int) or (type(pzblock) is int)):
@@ -1057,6 +1058,7 @@ def _get_vec_dense(ops,pars,v0,basis_in,norms,ind_neg,ind_pos,shape,C,L,**blocks
 	pzblock = blocks.get("pzblock")
 
 
+	basis_in = basis_in.copy() # transformed in place below
 	c = _np.zeros(basis_in.shape,dtype=v0.dtype)
 	sign = _np.ones(basis_in.shape[0],dtype=_np.int8)	
 	v = _np.zeros(shape,dtype=v0.dtype)
@@ -1167,6 +1169,7 @@ def _get_vec_sparse(ops,pars,v0,basis_in,norms,ind_neg,ind_pos,shape,C,L,**block
 		col_pos = _np.kron(_np.ones_like(ind_pos),col_pos)
 
 
+	basis_in = basis_in.copy() # transformed in place below
 	c = _np.zeros(basis_in.shape,dtype=v0.dtype)	
 	sign = _np.ones(basis_in.shape,dtype=_np.int8)
 	v = _sp.csc_matrix(shape,dtype=v0.dtype)
@@ -1307,6 +1310,7 @@ def _get_proj_sparse(ops,pars,basis_in,basis_pcon,norms,ind_neg,ind_pos,dtype,sh
 		k = 0.0
 		a = L
 
+	basis_in = basis_in.copy() # transformed in place below
 	c = _np.zeros(basis_in.shape,dtype=dtype)
 	sign = _np.ones(basis_in.shape,dtype=_np.int8)
 	v = _sp.csc_matrix(shape,dtype=dtype)
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index af582a6..8e3b447 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -303,7 +303,7 @@ class tensor_basis(basis):
 		elif v0.ndim == 2:
 
 			if _sp.issparse(v0):
-				return self.get_proj(v0.dtype,full_left=full_left,full_right=full_right).dot(v0)
+				return tensor_basis.get_proj(self,v0.dtype,full_left=full_left,full_right=full_right).dot(v0)
 
 			return _combine_project_froms(self,v0,sparse,full_left,full_right)
 		else:
-- 
2.43.0


From 0454abba2fa7b5f293db863a04f35144aa5ba095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 74/96] fix: photon bases with a conserved total number failed
 for bosons and spins S>1/2 and for empty sectors, and changed the basis and
 the indices passed

---
 .../_basis_1d_core/sources/boson_basis.pyx    | 32 ++++++-------
 quspin/basis/basis_1d/base_1d.py              |  4 +-
 quspin/basis/photon.py                        | 46 +++++--------------
 3 files changed, 30 insertions(+), 52 deletions(-)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx
index 2600c67..c739373 100644
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/boson_basis.pyx
@@ -24,7 +24,7 @@ def basis(int L,basis_type[:] pars, basis_type[:] basis):
     return make_basis_template[basis_type](next_state_inc_1,pars,MAX,s,basis)
 
 # magnetization 
-def n_basis(int L, object Nb_list, basis_type[:] pars, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_basis(int L, object Nb_list, basis_type[:] pars, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX,Ns
     cdef npy_intp Ns_tot = 0
@@ -40,7 +40,7 @@ def n_basis(int L, object Nb_list, basis_type[:] pars, basis_type[:] basis,NP_UI
     return Ns_tot
 
 # parity 
-def n_p_basis(int L, object Nb_list, int pblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_p_basis(int L, object Nb_list, int pblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -64,7 +64,7 @@ def p_basis(int L, int pblock, basis_type[:] pars,N_type[:] N, basis_type[:] bas
 
 
 # parity-spin inversion
-def n_p_z_basis(int L, object Nb_list, int pblock, int zblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_p_z_basis(int L, object Nb_list, int pblock, int zblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -88,7 +88,7 @@ def p_z_basis(int L,  int pblock, int zblock, basis_type[:] pars, N_type[:] N, b
 
 
 # (parity)*(spin inversion)
-def n_pz_basis(int L, object Nb_list, int pzblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_pz_basis(int L, object Nb_list, int pzblock, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -112,7 +112,7 @@ def pz_basis(int L,  int pzblock, basis_type[:] pars, N_type[:] N, basis_type[:]
 
 
 # translation
-def n_t_basis(int L, object Nb_list, int kblock,int a, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_basis(int L, object Nb_list, int kblock,int a, basis_type[:] pars, N_type[:] N, basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -136,7 +136,7 @@ def t_basis(int L,  int kblock,int a, basis_type[:] pars, N_type[:] N, basis_typ
 
 
 # translation-parity
-def n_t_p_basis(int L, object Nb_list,int pblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_p_basis(int L, object Nb_list,int pblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -162,7 +162,7 @@ def t_p_basis(int L, int pblock,int kblock,int a, basis_type[:] pars,N_type[:] N
 
 
 # translation-parity-spin inversion
-def n_t_p_z_basis(int L, object Nb_list,int pblock,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_p_z_basis(int L, object Nb_list,int pblock,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -188,7 +188,7 @@ def t_p_z_basis(int L, int pblock,int zblock,int kblock,int a, basis_type[:] par
 
 
 # translation-(parity)*(spin inversion)
-def n_t_pz_basis(int L, object Nb_list,int pzblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_pz_basis(int L, object Nb_list,int pzblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -212,7 +212,7 @@ def t_pz_basis(int L, int pzblock,int kblock,int a, basis_type[:] pars,N_type[:]
 
 
 # translation-spin inversion
-def n_t_z_basis(int L, object Nb_list,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_z_basis(int L, object Nb_list,int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -236,7 +236,7 @@ def t_z_basis(int L, int zblock,int kblock,int a, basis_type[:] pars,N_type[:] N
 
 
 # spin inversion
-def n_z_basis(int L,object Nb_list, int zblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_z_basis(int L,object Nb_list, int zblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     cdef basis_type s   
     cdef npy_intp MAX
     cdef npy_intp Ns = 0
@@ -262,7 +262,7 @@ def z_basis(int L, int zblock, basis_type[:] pars,N_type[:] N,basis_type[:] basi
 
 
 # translation-spin inversion A
-def n_t_zA_basis(int L, object Nb_list,int zAblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_zA_basis(int L, object Nb_list,int zAblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
  
 
@@ -275,7 +275,7 @@ def t_zA_basis(int L, int zAblock,int kblock,int a, basis_type[:] pars,N_type[:]
 
 
 # translation-spin inversion B
-def n_t_zB_basis(int L, object Nb_list,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_zB_basis(int L, object Nb_list,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M1_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
     
 
@@ -289,7 +289,7 @@ def t_zB_basis(int L, int zBblock,int kblock,int a, basis_type[:] pars,N_type[:]
 
 
 # translation-spin inversion A-spin inversion B
-def n_t_zA_zB_basis(int L, object Nb_list,int zAblock,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_t_zA_zB_basis(int L, object Nb_list,int zAblock,int zBblock,int kblock,int a, basis_type[:] pars,N_type[:] N,M2_type[:] M,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
 
 
@@ -301,7 +301,7 @@ def t_zA_zB_basis(int L, int zAblock,int zBblock,int kblock,int a, basis_type[:]
 
 
 # spin inversion A
-def n_zA_basis(int L, object Nb_list, int zAblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_zA_basis(int L, object Nb_list, int zAblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
 
 
@@ -315,7 +315,7 @@ def zA_basis(int L, int zAblock, basis_type[:] pars,N_type[:] N,basis_type[:] ba
 
 
 # spin inversion B
-def n_zB_basis(int L, object Nb_list, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_zB_basis(int L, object Nb_list, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
  
     
@@ -329,7 +329,7 @@ def zB_basis(int L, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] ba
 
 
 # spin inversion A-spin inversion B
-def n_zA_zB_basis(int L, object Nb_list, int zAblock, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_UINT8_t[:] Np_list=None):
+def n_zA_zB_basis(int L, object Nb_list, int zAblock, int zBblock, basis_type[:] pars,N_type[:] N,basis_type[:] basis,NP_INT8_t[:] Np_list=None):
     raise ValueError("Nb can't be conserved for sublattice inversion symmetries.")
     
 
diff --git a/quspin/basis/basis_1d/base_1d.py b/quspin/basis/basis_1d/base_1d.py
index d0c6929..f29e68d 100644
--- a/quspin/basis/basis_1d/base_1d.py
+++ b/quspin/basis/basis_1d/base_1d.py
@@ -435,7 +435,7 @@ class basis_1d(lattice_basis):
 					self._N = _np.array([],dtype=N.dtype)
 					self._M = _np.array([],dtype=M.dtype)
 					self._basis = _np.array([],dtype=basis.dtype)
-					if Np_list is not None: self._Np_list = _np.array([],dtype=Np.dtype)
+					if Np_list is not None: self._Np_list = _np.array([],dtype=Np_list.dtype)
 			else:
 				if self._unique_me:
 					arg = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
@@ -458,7 +458,7 @@ class basis_1d(lattice_basis):
 				else:
 					self._N = _np.array([],dtype=N.dtype)
 					self._basis = _np.array([],dtype=basis.dtype)
-					if Np_list is not None: self._Np_list = _np.array([],dtype=Np.dtype)
+					if Np_list is not None: self._Np_list = _np.array([],dtype=Np_list.dtype)
 			else:
 				arg = _np.argsort(basis[:Ns],kind="heapsort")[::-1]
 
diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index a668815..76c7f85 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -165,9 +165,7 @@ class photon_basis(tensor_basis):
 			if isinstance(self._basis_left,tensor_basis): raise TypeError("Can only create photon basis with non-tensor type basis")
 			if not isinstance(self._basis_left,basis): raise TypeError("Can only create photon basis with basis type")
 			self._basis_right = ho_basis(Ntot)
-			self._n = self._basis_left._Np_list
-			self._n -= Ntot 
-			self._n *= -1
+			self._n = Ntot - self._basis_left._Np_list.astype(_np.intp)
 			self._blocks = self._basis_left._blocks
 			self._Ns = self._basis_left._Ns
 			self._unique_me = self._basis_left._unique_me
@@ -277,6 +275,7 @@ class photon_basis(tensor_basis):
 		else:
 			# read off spin and photon operators
 			n = len(opstr.replace("|","")) - len(indx)
+			indx = list(indx)
 			indx.extend([0 for i in range(n)])
 
 			if opstr.count("|") > 1: 
@@ -791,6 +790,10 @@ class photon_basis(tensor_basis):
 
 
 def _conserved_project_from(p_basis,v0,sparse,Nph,full_part):
+	if p_basis._Ns <= 0: # empty sector: nothing to project
+		shape = (_conserved_get_proj(p_basis,v0.dtype,Nph,full_part).shape[0],v0.shape[1])
+		return _sp.csr_matrix(shape,dtype=v0.dtype) if sparse else _np.zeros(shape,dtype=v0.dtype)
+
 	v0_mask = _np.zeros_like(v0)
 	np_min = p_basis._n.min()
 	np_max = p_basis._n.max()
@@ -838,42 +841,17 @@ def _conserved_project_from(p_basis,v0,sparse,Nph,full_part):
 	return v0_full
 
 def _conserved_get_proj(p_basis,dtype,Nph,full_part):
-	np_min = p_basis._n.min()
-	np_max = p_basis._n.max()
-	v_ph = _np.zeros((Nph+1,1),dtype=_np.int8)
-
 	if full_part:
 		proj_1 = p_basis._basis_left.get_proj(dtype)
 	else:
-		proj_1 = _sp.identity(p_basis.Ns,dtype=dtype,format="csr")
-
-	proj_1_mask = _sp.lil_matrix(proj_1.shape,dtype=dtype)
-
-
-	v_ph[np_min] = 1
-	mask = p_basis._n == np_min
-	proj_1_mask[:,mask] = proj_1[:,mask]
-
-	proj_1_full = _sp.kron(proj_1_mask,v_ph,format="csr")
-
-	proj_1_mask[:,:]=0.0
-	v_ph[np_min] = 0
-
-
-	for np in range(np_min+1,np_max+1,1):
-		v_ph[np] = 1
-		mask = p_basis._n == np
-		proj_1_mask[:,mask] = proj_1[:,mask]
-
-		proj_1_full = proj_1_full + _sp.kron(proj_1_mask,v_ph,format="csr")
-
-		proj_1_mask[:,:]=0.0
-		v_ph[np] = 0		
-
-
+		proj_1 = _sp.identity(p_basis.Ns,dtype=dtype)
 
+	# the column of every state goes to the rows with the number of photons of that state.
+	proj_1 = _sp.coo_matrix(proj_1)
+	row = proj_1.row.astype(_np.int64)*(Nph+1) + p_basis._n[proj_1.col]
+	shape = (proj_1.shape[0]*(Nph+1),p_basis.Ns)
 
-	return proj_1_full
+	return _sp.csr_matrix((proj_1.data,(row,proj_1.col)),shape=shape)
 
 
 # helper class which calcualates ho matrix elements
-- 
2.43.0


From 519923a45efa15cfa273d4d7a4404dc7c86be41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 75/96] fix: fermionic sign of the reference states of parity
 times inversion sectors was lost

---
 quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
index f3bf8cd..af336a4 100755
--- a/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
+++ b/quspin/basis/basis_1d/_basis_1d_core/sources/refstate.pyx
@@ -54,6 +54,7 @@ cdef basis_type RefState_PZ_template(basis_type s,int L, NP_INT8_t * sign, int *
     t = flip_all(t,L,&current_sign,bitop_pars)
     if t > s:
         R[0] = 1
+        sign[0] = current_sign
         return t
 
     return s
-- 
2.43.0


From 4dc72416778e6d6be817e1585361cdceab6da229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 76/96] fix: indices outside of the chain were accepted by
 spinful_fermion_basis_1d

---
 quspin/basis/basis_1d/fermion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 261d08f..15006a8 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -371,6 +371,8 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 		
 		i = opstr.index("|")
 		indx = _np.array(indx,dtype=_np.int32)
+		if _np.any(indx >= self.L) or _np.any(indx < 0):
+			raise ValueError('values in indx falls outside of system')
 		indx[i:] += self.L
 		opstr=opstr.replace("|","")
 
-- 
2.43.0


From deaf6dd47d5d274d93829faac10c78fee6b488e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 77/96] fix: symmetry checks compared operators without their
 signs and moved operators without their indices

---
 quspin/basis/basis_1d/_check_1d_symm.py     | 30 +++++++++++----------
 quspin/basis/basis_1d/_check_1d_symm_spf.py | 26 +++++++++++-------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/quspin/basis/basis_1d/_check_1d_symm.py b/quspin/basis/basis_1d/_check_1d_symm.py
index ec025ea..deb03f0 100644
--- a/quspin/basis/basis_1d/_check_1d_symm.py
+++ b/quspin/basis/basis_1d/_check_1d_symm.py
@@ -60,14 +60,17 @@ def check_Z(sort_opstr,operator_list):
 
 		z_count = opstr[:i].count("z")
 		y_count = opstr[:i].count("y")
-		if ((y_count + z_count) % 2) != 0:
-			odd_ops.append(op)
+		sign = (-1)**(y_count + z_count)
 
 		new_op = list(op)
 		new_op[0] = new_op[0][:i].replace("+","#").replace("-","+").replace("#","-") + op[0][i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
 		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
@@ -138,16 +141,15 @@ def check_ZA(sort_opstr,operator_list):
 
 		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=0)
 
-		if sign == -1:
-			odd_ops.append(op)
-
 		new_op = list(op)
 		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
-		
-
 		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
@@ -169,15 +171,15 @@ def check_ZB(sort_opstr,operator_list):
 
 		sign,new_opstr = flip_sublat(opstr[:i],indx[:i],lat=1)
 
-		if sign == -1:
-			odd_ops.append(op)
-
 		new_op = list(op)
 		new_op[0] = new_opstr + opstr[i:]
+		new_op[2] *= sign
 		new_op = sort_opstr(new_op)
-
 		if not (new_op in operator_list):
-			missing_ops.append(new_op)
+			if sign == -1:
+				odd_ops.append(op)
+			else:
+				missing_ops.append(new_op)
 
 	return odd_ops,missing_ops
 
diff --git a/quspin/basis/basis_1d/_check_1d_symm_spf.py b/quspin/basis/basis_1d/_check_1d_symm_spf.py
index 3e3a63e..3b5b843 100644
--- a/quspin/basis/basis_1d/_check_1d_symm_spf.py
+++ b/quspin/basis/basis_1d/_check_1d_symm_spf.py
@@ -41,18 +41,22 @@ def check_Z(sort_opstr,operator_list,photon):
 
 		if photon:
 			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = opstr_left.count("+") + opstr_left.count("-")
+			N_right = opstr_right.count("+") + opstr_right.count("-")
 			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
 		else:
 			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = opstr_left.count("+") + opstr_left.count("-")
+			N_right = opstr_right.count("+") + opstr_right.count("-")
 			new_opstr = "|".join((opstr_right,opstr_left))
 
+		# the indices have to follow their operators.
+		n_left,n_right = len(opstr_left),len(opstr_right)
+		indx = indx[n_left:n_left+n_right] + indx[:n_left] + indx[n_left+n_right:]
 
 		new_op = list(op)
 		new_op[0] = new_opstr
+		new_op[1] = indx
 		new_op[2] *= (-1)**(N_right*N_left)
 		new_op = sort_opstr(new_op)
 		if not (new_op in operator_list):
@@ -84,18 +88,22 @@ def check_PZ(sort_opstr,operator_list,L,photon):
 	missing_ops = []
 	for op in operator_list:
 		opstr = str(op[0])
-		indx = list(op[1])
+		n_lat = len(op[1]) - len(opstr.split("|")[2]) if photon else len(op[1]) # the photon indices stay
+		indx = [(L-1-ind) % L for ind in op[1][:n_lat]] + list(op[1][n_lat:])
 
 		if photon:
 			opstr_left,opstr_right,opstr_phtn = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = opstr_left.count("+") + opstr_left.count("-")
+			N_right = opstr_right.count("+") + opstr_right.count("-")
 			new_opstr = "|".join((opstr_right,opstr_left,opstr_phtn))
 		else:
 			opstr_left,opstr_right = opstr.split("|")
-			N_left = len(opstr_left.replace("n","").replace("z",""))
-			N_right = len(opstr_right.replace("n","").replace("z",""))
+			N_left = opstr_left.count("+") + opstr_left.count("-")
+			N_right = opstr_right.count("+") + opstr_right.count("-")
 			new_opstr = "|".join((opstr_right,opstr_left))
+		# the indices have to follow their operators.
+		n_left,n_right = len(opstr_left),len(opstr_right)
+		indx = indx[n_left:n_left+n_right] + indx[:n_left] + indx[n_left+n_right:]
 
 		new_op = list(op)
 		new_op[0] = new_opstr
-- 
2.43.0


From e9d5bc62a166fb2cb5ebdfa3d5636ab1fbb7608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 78/96] fix: particle conservation check of spinful fermions
 mixed up the species

---
 quspin/basis/base.py                  | 12 +++++-------
 quspin/basis/basis_1d/fermion.py      |  4 ++++
 quspin/basis/basis_general/fermion.py |  8 ++++++++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 4a05bd8..1ebc7a9 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -671,10 +671,7 @@ class basis(object):
 
 			odd_ops = []
 			for opstr,indx,J,ii in static_list_exp:	
-				p = opstr.count("+")
-				m = opstr.count("-")
-
-				if (p-m) != 0:
+				if not self._conserves_particles(opstr,indx):
 					for i in ii:
 						if static_list[i] not in odd_ops:
 							odd_ops.append(static_list[i])
@@ -701,9 +698,7 @@ class basis(object):
 
 			odd_ops = []
 			for opstr,indx,J,f,f_args,ii in dynamic_list_exp:	
-				p = opstr.count("+")
-				m = opstr.count("-")
-				if (p-m) != 0:
+				if not self._conserves_particles(opstr,indx):
 					for i in ii:
 						if dynamic_list[i] not in odd_ops:
 							odd_ops.append(dynamic_list[i])
@@ -727,6 +722,9 @@ class basis(object):
 
 			print("Particle conservation check passed!")
 
+	def _conserves_particles(self,opstr,indx):
+		return opstr.count("+") == opstr.count("-")
+
 	def _get__str__(self):
 		raise NotImplementedError("basis class: {0} missing implementation of '_get__str__' required to print out the basis!".format(self.__class__))
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 15006a8..270e6c7 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -616,6 +616,10 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 	def _sort_opstr(self,op):
 		return _sort_opstr_spinful(op)
 
+	def _conserves_particles(self,opstr,indx):
+		# both species are conserved separately
+		return all(s.count("+") == s.count("-") for s in opstr.split("|"))
+
 	def _hc_opstr(self,op):
 		return _hc_opstr_spinful(op)
 	
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 55bf6dc..f647fbb 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -764,6 +764,14 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 
 		return tuple(str_list)
 
+	def _conserves_particles(self,opstr,indx):
+		# both species are conserved separately
+		if self._simple_symm:
+			species = opstr.split("|")
+		else:
+			species = [[o for o,i in zip(opstr,indx) if (i < self._N//2) == up] for up in (True,False)]
+		return all(s.count("+") == s.count("-") for s in species)
+
 	def _sort_opstr(self,op):
 
 		if self._simple_symm:
-- 
2.43.0


From ef35ecac5eeb753274a878c0af25433b35dca5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 79/96] fix: sign of sorted fermionic operators was dropped by
 tensor and photon bases

---
 quspin/basis/photon.py | 3 +++
 quspin/basis/tensor.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 76c7f85..92194b2 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -725,6 +725,7 @@ class photon_basis(tensor_basis):
 
 		op2 = list(op)
 		op2[0] = opstr2
+		op2[2] = 1
 		op2[1] = tuple([ind_min for i in opstr2])
 		
 		op1 = self._basis_left._sort_opstr(op1)
@@ -732,6 +733,8 @@ class photon_basis(tensor_basis):
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
+		# sorting fermionic operators can change the sign of the coupling
+		op[2] = op1[2]*op2[2]
 		
 		return tuple(op)
 
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 8e3b447..a7a09d7 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -834,6 +834,7 @@ class tensor_basis(basis):
 
 		op2 = list(op)
 		op2[0] = opstr_right
+		op2[2] = 1
 		op2[1] = tuple(indx_right)
 		
 		op1 = self._basis_left._sort_opstr(op1)
@@ -841,6 +842,8 @@ class tensor_basis(basis):
 
 		op[0] = "|".join((op1[0],op2[0]))
 		op[1] = op1[1] + op2[1]
+		# sorting fermionic operators can change the sign of the coupling
+		op[2] = op1[2]*op2[2]
 		
 		return tuple(op)
 
-- 
2.43.0


From ea3c6dea0e444dd2bc44c1e4b1e790ce4bb4e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:55 +0000
Subject: [PATCH 80/96] fix: expanded operator lists lost, doubled or merged
 operators

---
 quspin/basis/base.py                  | 82 ++++++++++++++++++++++-----
 quspin/basis/basis_1d/boson.py        | 12 +---
 quspin/basis/basis_1d/fermion.py      | 12 +---
 quspin/basis/basis_1d/spin.py         | 12 +---
 quspin/basis/basis_general/boson.py   | 12 +---
 quspin/basis/basis_general/fermion.py | 12 +---
 quspin/basis/basis_general/spin.py    | 12 +---
 quspin/basis/photon.py                | 16 ++++--
 8 files changed, 91 insertions(+), 79 deletions(-)

diff --git a/quspin/basis/base.py b/quspin/basis/base.py
index 1ebc7a9..0635623 100755
--- a/quspin/basis/base.py
+++ b/quspin/basis/base.py
@@ -1,6 +1,7 @@
 from __future__ import print_function
 import numpy as _np
 import scipy.sparse as _sp
+from math import fsum as _fsum
 import warnings,numba
 
 @numba.njit
@@ -448,12 +449,14 @@ class basis(object):
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
 			indx = list(indx)
 			indx.insert(0,J)
-			if (opstr,f,f_args) in dynamic_dict:
-				dynamic_dict[(opstr,f,f_args)].append(indx)
+			for term in dynamic_dict.setdefault(opstr,[]):
+				if _same_drive((f,f_args),term[2:]):
+					term[1].append(indx)
+					break
 			else:
-				dynamic_dict[(opstr,f,f_args)] = [indx]
+				dynamic_dict[opstr].append([opstr,[indx],f,f_args])
 
-		dynamic = [[opstr,indx,f,f_args] for (opstr,f,f_args),indx in dynamic_dict.items()]
+		dynamic = [term for terms in dynamic_dict.values() for term in terms]
 
 		return static,dynamic
 
@@ -774,7 +777,7 @@ class basis(object):
 				J = complex(bond[0])
 				dynamic_list.append((opstr,indx,J,f,f_args))
 
-		return self._sort_local_list(static_list),self._sort_local_list(dynamic_list)
+		return _merge_local_list(self._sort_local_list(static_list)),_merge_local_list(self._sort_local_list(dynamic_list))
 
 	# takes the list from the format given by _get_local_lists and takes the hermitian conjugate of operators.
 	def _get_hc_local_lists(self,static_list,dynamic_list):
@@ -833,21 +836,21 @@ class basis(object):
 					static_list.append((opstr,indx,J,ii))
 
 
+		# operators which are driven differently must be kept apart.
 		dynamic_dict={}
 		for opstr,indx,J,f,f_args,ii in dynamic_list:
-			if opstr in dynamic_dict:
-				if indx in dynamic_dict[opstr]:
-					dynamic_dict[opstr][indx][0] += J
-					dynamic_dict[opstr][indx][3].extend(ii)
-				else:
-					dynamic_dict[opstr][indx] = [J,f,f_args,ii]
+			for term in dynamic_dict.setdefault((opstr,indx),[]):
+				if _same_drive((f,f_args),term[1:3]):
+					term[0] += J
+					term[3].extend(ii)
+					break
 			else:
-				dynamic_dict[opstr] = {indx:[J,f,f_args,ii]}
+				dynamic_dict[(opstr,indx)].append([J,f,f_args,ii])
 
 
 		dynamic_list = []
-		for opstr,opstr_dict in dynamic_dict.items():
-			for indx,(J,f,f_args,ii) in opstr_dict.items():
+		for (opstr,indx),terms in dynamic_dict.items():
+			for J,f,f_args,ii in terms:
 				if _np.abs(J) > eps:
 					dynamic_list.append((opstr,indx,J,f,f_args,ii))
 
@@ -855,6 +858,57 @@ class basis(object):
 		return static_list,dynamic_list
 
 
+def _ladder_non_zero(opstr,indx,n_max,cutoff=True):
+	# whether the product of raising and lowering operators on sites with at most n_max particles can be different from zero.
+	# cutoff=False: only the final state must not have more than n_max particles.
+	limits = {}
+	for o,i in zip(opstr[::-1],list(indx)[::-1]):
+		if o in ["+","-"]:
+			d = (1 if o == "+" else -1)
+			n_low,n_high = limits.get(i,(0,n_max))
+			n_low,n_high = max(n_low+d,0),n_high+d
+			if cutoff:
+				n_high = min(n_high,n_max)
+			if n_low > n_high:
+				return False
+			limits[i] = (n_low,n_high)
+
+	return all(n_low <= n_max for n_low,n_high in limits.values())
+
+
+def _same_drive(drive1,drive2):
+	# compares (f,f_args) of two dynamic operators. The arguments need not be hashable.
+	if len(drive1) == 0:
+		return True
+
+	(f1,args1),(f2,args2) = drive1,drive2
+	if f1 is not f2:
+		return False
+
+	return args1 is args2 or (len(args1)==len(args2) and all(_np.array_equal(a1,a2) for a1,a2 in zip(args1,args2)))
+
+
+def _merge_local_list(op_list):
+	# adds up the couplings of operator strings which appear more than once (with the same drive).
+	merged,where = [],{}
+	for op in op_list:
+		same = where.setdefault((op[0],tuple(op[1])),[])
+		for term in same:
+			if _same_drive(op[3:],term[3:]):
+				term[2].append(op[2])
+				break
+		else:
+			term = list(op)
+			term[2] = [op[2]]
+			same.append(term)
+			merged.append(term)
+
+	for term in merged: # the sum must not depend on the order of the list.
+		term[2] = complex(_fsum(J.real for J in term[2]),_fsum(J.imag for J in term[2]))
+
+	return tuple(tuple(op) for op in merged if op[2] != 0)
+
+
 def isbasis(obj):
 	"""Checks if instance is object of `basis` class.
 
diff --git a/quspin/basis/basis_1d/boson.py b/quspin/basis/basis_1d/boson.py
index 02939db..0a35d74 100644
--- a/quspin/basis/basis_1d/boson.py
+++ b/quspin/basis/basis_1d/boson.py
@@ -1,6 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
+from ..base import _ladder_non_zero
 import numpy as _np
 
 
@@ -261,16 +262,7 @@ class boson_basis_1d(basis_1d):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _ladder_non_zero(op[0],op[1],self.sps-1)
 		
 
 
diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 270e6c7..33008fb 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -2,6 +2,7 @@ from ._basis_1d_core import hcp_basis,hcp_ops,spf_basis,spf_ops
 from . import _check_1d_symm_spf as _check
 from .base_1d import basis_1d
 from ..base import MAXPRINT
+from ..base import _ladder_non_zero
 import numpy as _np
 
 
@@ -778,16 +779,7 @@ def _sort_opstr_spinful(op):
 
 
 def _non_zero_spinless(op):
-	opstr = _np.array(list(op[0]))
-	indx = _np.array(op[1])
-	if _np.any(indx):
-		indx_p = indx[opstr == "+"].tolist()
-		p = not any(indx_p.count(x) > 1 for x in indx_p)
-		indx_p = indx[opstr == "-"].tolist()
-		m = not any(indx_p.count(x) > 1 for x in indx_p)
-		return (p and m)
-	else:
-		return True
+	return _ladder_non_zero(op[0],op[1],1)
 
 def _non_zero_spinful(op):
 		op = list(op)
diff --git a/quspin/basis/basis_1d/spin.py b/quspin/basis/basis_1d/spin.py
index 01dfcd6..7cb9b51 100755
--- a/quspin/basis/basis_1d/spin.py
+++ b/quspin/basis/basis_1d/spin.py
@@ -1,6 +1,7 @@
 from ._basis_1d_core import hcp_basis,hcp_ops
 from ._basis_1d_core import boson_basis,boson_ops
 from .base_1d import basis_1d
+from ..base import _ladder_non_zero
 import numpy as _np
 
 try:
@@ -275,16 +276,7 @@ class spin_basis_1d(basis_1d):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx>=0):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _ladder_non_zero(op[0],op[1],self.sps-1)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
diff --git a/quspin/basis/basis_general/boson.py b/quspin/basis/basis_general/boson.py
index 081d4e0..98e28d0 100644
--- a/quspin/basis/basis_general/boson.py
+++ b/quspin/basis/basis_general/boson.py
@@ -1,6 +1,7 @@
 from ._basis_general_core import boson_basis_core_wrap,get_basis_type,basis_zeros
 from .base_hcb import hcb_basis_general
 from .base_general import basis_general
+from ..base import _ladder_non_zero
 import numpy as _np
 from scipy.special import comb
 
@@ -259,16 +260,7 @@ class boson_basis_general(hcb_basis_general,basis_general):
 
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _ladder_non_zero(op[0],op[1],self.sps-1)
 		
 
 
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index f647fbb..491c4f9 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -3,6 +3,7 @@ from ._basis_general_core import spinless_fermion_basis_core_wrap
 from ._basis_general_core import get_basis_type,basis_zeros
 from .base_general import basis_general,_check_symm_map
 from ..base import MAXPRINT
+from ..base import _ladder_non_zero
 import numpy as _np
 from scipy.special import comb
 
@@ -215,16 +216,7 @@ class spinless_fermion_basis_general(basis_general):
 
 	
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > 1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > 1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _ladder_non_zero(op[0],op[1],1)
 		
 
 
diff --git a/quspin/basis/basis_general/spin.py b/quspin/basis/basis_general/spin.py
index 3802d2c..719e509 100644
--- a/quspin/basis/basis_general/spin.py
+++ b/quspin/basis/basis_general/spin.py
@@ -1,5 +1,6 @@
 from .base_hcb import hcb_basis_general
 from .base_higher_spin import higher_spin_basis_general
+from ..base import _ladder_non_zero
 import numpy as _np
 
 try:
@@ -265,16 +266,7 @@ class spin_basis_general(hcb_basis_general,higher_spin_basis_general):
 		return tuple(op)
 
 	def _non_zero(self,op):
-		opstr = _np.array(list(op[0]))
-		indx = _np.array(op[1])
-		if _np.any(indx):
-			indx_p = indx[opstr == "+"].tolist()
-			p = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			indx_p = indx[opstr == "-"].tolist()
-			m = not any(indx_p.count(x) > self.sps-1 for x in indx_p)
-			return (p and m)
-		else:
-			return True
+		return _ladder_non_zero(op[0],op[1],self.sps-1)
 		
 	def _hc_opstr(self,op):
 		op = list(op)
diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index 92194b2..b7ba96f 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -1,4 +1,4 @@
-from .base import basis,MAXPRINT
+from .base import basis,MAXPRINT,_merge_local_list,_ladder_non_zero
 from .tensor import tensor_basis
 
 import numpy as _np
@@ -669,6 +669,14 @@ class photon_basis(tensor_basis):
 
 			return str_list	
 
+	def expanded_form(self,static=[],dynamic=[]):
+		static,dynamic = tensor_basis.expanded_form(self,static,dynamic)
+		# the index of the photon mode is not part of the operator lists.
+		static = [[opstr,[bond[:1+opstr.index("|")] for bond in bonds]] for opstr,bonds in static]
+		dynamic = [[opstr,[bond[:1+opstr.index("|")] for bond in bonds],f,f_args] for opstr,bonds,f,f_args in dynamic]
+		return static,dynamic
+	expanded_form.__doc__ = tensor_basis.expanded_form.__doc__
+
 	def _check_symm(self,static,dynamic):
 		# pick out operators which have charactors to the left of the '|' charactor. 
 		# otherwise this is operator must be
@@ -789,7 +797,7 @@ class photon_basis(tensor_basis):
 				J = complex(bond[0])
 				dynamic_list.append((opstr,tuple(indx),J,f,f_args))
 
-		return self._sort_local_list(static_list),self._sort_local_list(dynamic_list)
+		return _merge_local_list(self._sort_local_list(static_list)),_merge_local_list(self._sort_local_list(dynamic_list))
 
 
 def _conserved_project_from(p_basis,v0,sparse,Nph,full_part):
@@ -952,9 +960,7 @@ class ho_basis(basis):
 
 
 	def _non_zero(self,op):
-		m = (op[0].count("-") > self._Np)
-		p = (op[0].count("+") > self._Np)
-		return (p or m)
+		return _ladder_non_zero(op[0],op[1],self._Np,cutoff=False)
 
 
 	def _expand_opstr(self,op,num):
-- 
2.43.0


From c51b7aa20ecf2105b7daa1480e46f88efd0fa5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 81/96] fix: order of the sites of subsystem B depended on the
 iteration order of a set

---
 quspin/basis/_reshape_subsys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 7e0e3c0..984e4ea 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -61,7 +61,7 @@ def _lattice_reshape_pure(psi,sub_sys_A,L,sps):
 	"""
 	extra_dims = psi.shape[:-1]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -112,7 +112,7 @@ def _lattice_reshape_mixed(rho,sub_sys_A,L,sps):
 	"""
 	extra_dims = rho.shape[:-2]
 	n_dims = len(extra_dims)
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
@@ -173,7 +173,7 @@ def _lattice_reshape_sparse_pure(psi,sub_sys_A,L,sps):
 	"""
 	This function reshapes the sparse pure state psi over the Hilbert space defined by sub_sys_A and its complement. 
 	"""
-	sub_sys_B = set(range(L))-set(sub_sys_A)
+	sub_sys_B = sorted(set(range(L))-set(sub_sys_A))
 
 	sub_sys_A = tuple(sub_sys_A)
 	sub_sys_B = tuple(sub_sys_B)
-- 
2.43.0


From 46b64a0d704fdfdecb4341e94b571e1d25d8b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 82/96] fix: partial traces of tensor bases failed for series
 of mixed states and subsystems with one state and changed sparse states

---
 quspin/basis/_reshape_subsys.py |  8 ++++----
 quspin/basis/tensor.py          | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/quspin/basis/_reshape_subsys.py b/quspin/basis/_reshape_subsys.py
index 984e4ea..dcafc1a 100644
--- a/quspin/basis/_reshape_subsys.py
+++ b/quspin/basis/_reshape_subsys.py
@@ -226,7 +226,7 @@ def _tensor_reshape_pure(psi,sub_sys_A,Ns_l,Ns_r):
 
 
 def _tensor_reshape_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r):
-	psi = psi.tocoo()
+	psi = psi.tocoo(copy=True)
 	# make shift way of reshaping array
 	# j = j_l + Ns_r * j_l
 	# j_l = j / Ns_r
@@ -279,8 +279,8 @@ def _tensor_partial_trace_sparse_pure(psi,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 def _tensor_partial_trace_mixed(rho,sub_sys_A,Ns_l,Ns_r,return_rdm="A"):
 	rho_v = _tensor_reshape_mixed(rho,sub_sys_A,Ns_l,Ns_r)
 	if return_rdm == "A":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),None
+		return _np.einsum("...ijkj->...ik",rho_v),None
 	elif return_rdm == "B":
-		return None,_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
+		return None,_np.einsum("...jijk->...ik",rho_v.conj())
 	elif return_rdm == "both":
-		return _np.squeeze(_np.einsum("...ijkj->...ik",rho_v)),_np.squeeze(_np.einsum("...jijk->...ik",rho_v.conj()))
+		return _np.einsum("...ijkj->...ik",rho_v),_np.einsum("...jijk->...ik",rho_v.conj())
diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index a7a09d7..108920e 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -398,7 +398,10 @@ class tensor_basis(basis):
 		if sub_sys_A is None:
 			sub_sys_A = "left"
 
-		if return_rdm not in set(["A","B","both",None]):
+		if return_rdm is None:
+			return_rdm = "A"
+
+		if return_rdm not in set(["A","B","both"]):
 			raise ValueError("return_rdm must be: 'A','B','both' or None")
 
 		if sub_sys_A not in set(["left","right","both",None]):
@@ -417,6 +420,9 @@ class tensor_basis(basis):
 
 		if _sp.issparse(state) or sparse:
 			if not _sp.issparse(state):
+				if state.ndim == 1:
+					state = state.reshape((-1,1))
+
 				state = _sp.csr_matrix(state)
 
 			state = state.T
@@ -457,8 +463,11 @@ class tensor_basis(basis):
 					state = state.reshape((1,)+shape0)					
 
 					rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
+					rdm_A,rdm_B = [rdm if rdm is None else rdm[0] for rdm in (rdm_A,rdm_B)]
 
 			elif state.ndim==3: #3D DM 
+				state = state.transpose((2,0,1))
+
 				rdm_A,rdm_B = _tensor_partial_trace_mixed(state,sub_sys_A,Ns_left,Ns_right,return_rdm=return_rdm)
 			else:
 				raise ValueError("state must have ndim < 4")
@@ -753,7 +762,7 @@ class tensor_basis(basis):
 				p = get_p_patchy(rdm)
 				p = p.reshape((1,-1))
 			else:
-				p_gen = (get_p_patchy(dm) for dm in rdm[:])
+				p_gen = [get_p_patchy(dm) for dm in rdm[:]]
 				p = _np.stack(p_gen)
 
 		else:
@@ -761,7 +770,7 @@ class tensor_basis(basis):
 				p = eigvalsh(rdm.todense())[::-1] + _np.finfo(rdm.dtype).eps
 				p = p.reshape((1,-1))
 			else:
-				p_gen = (eigvalsh(dm.todense())[::-1] + _np.finfo(dm.dtype).eps for dm in rdm[:])
+				p_gen = [eigvalsh(dm.todense())[::-1] + _np.finfo(dm.dtype).eps for dm in rdm[:]]
 				p = _np.stack(p_gen)
 
 		return p,rdm_A,rdm_B
-- 
2.43.0


From 650f9d5a949a93933185933628e9b3ff0bb85380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 83/96] fix: Renyi entropies of tensor bases had the wrong
 prefactor

---
 quspin/basis/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/tensor.py b/quspin/basis/tensor.py
index 108920e..69e3bc1 100755
--- a/quspin/basis/tensor.py
+++ b/quspin/basis/tensor.py
@@ -639,9 +639,9 @@ class tensor_basis(basis):
 				Sent_B = - _np.nansum(p_B * _np.log(p_B),axis=-1)
 		elif alpha >= 0.0:
 			if p_A is not None:
-				Sent_A = _np.log(_np.nansum(_np.power(p_A,alpha),axis=-1)/(1.0-alpha))
+				Sent_A = _np.log(_np.nansum(_np.power(p_A,alpha),axis=-1))/(1.0-alpha)
 			if p_B is not None:
-				Sent_B = _np.log(_np.nansum(_np.power(p_B,alpha),axis=-1)/(1.0-alpha))
+				Sent_B = _np.log(_np.nansum(_np.power(p_B,alpha),axis=-1))/(1.0-alpha)
 		else:
 			raise ValueError("alpha >= 0")
 
-- 
2.43.0


From 6fbe2795f8ee92bd9d119c19a9a6d135816bbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 84/96] fix: partial traces and entropies of photon bases with
 a conserved total number mixed up pure and mixed states

---
 quspin/basis/photon.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/quspin/basis/photon.py b/quspin/basis/photon.py
index b7ba96f..934b53e 100755
--- a/quspin/basis/photon.py
+++ b/quspin/basis/photon.py
@@ -487,8 +487,14 @@ class photon_basis(tensor_basis):
 		if state.shape[0] != self.Ns:
 			raise ValueError("state shape {0} not compatible with Ns={1}".format(state.shape,self._Ns))
 
+		if state.ndim == 2: # decided by the shape in this basis: the projected states are longer
+			enforce_pure = enforce_pure or state.shape[0] != state.shape[1]
+
 		if self._check_pcon: # project to full photon basis
 			if _sp.issparse(state) or sparse:
+				if state.ndim == 2 and not enforce_pure and state.shape[1] > 1:
+					raise ValueError("Expecting a dense array for mixed states.")
+
 				proj_state=self.project_from(state,sparse=True,full_part=False)
 			else:
 				if state.ndim==1:
@@ -504,11 +510,8 @@ class photon_basis(tensor_basis):
 						proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
 						proj_state = proj*state*proj.H
 
-						shape0 = proj_state.shape
-						proj_state = proj_state.reshape(shape0+(1,))					
-
 				elif state.ndim==3: #3D DM 
-					proj = self.get_proj(_dtypes[state.dtype.char])
+					proj = self.get_proj(_dtypes[state.dtype.char],full_part=False)
 					state = state.transpose((2,0,1))
 					
 					Ns_full = proj.shape[0]
@@ -597,8 +600,17 @@ class photon_basis(tensor_basis):
 
 		"""
 
+		if not hasattr(state,"shape"):
+			state = _np.asanyarray(state)
+
+		if state.ndim == 2: # decided by the shape in this basis: the projected states are longer
+			enforce_pure = enforce_pure or state.shape[0] != state.shape[1]
+
 		if self._check_pcon: # project to full photon basis
 			if _sp.issparse(state) or sparse:
+				if state.ndim == 2 and not enforce_pure and state.shape[1] > 1:
+					raise ValueError("Expecting a dense array for mixed states.")
+
 				proj_state=self.project_from(state,sparse=True,full_part=False)
 			else:
 				if state.ndim==1:
@@ -630,7 +642,7 @@ class photon_basis(tensor_basis):
 
 		tensor_dict = {"particles":"left","photons":"right","both":"both","left":"left","right":"right",None:None}
 		if sub_sys_A in tensor_dict:
-			return tensor_basis.ent_entropy(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,alpha=alpha,sparse=sparse,sparse_diag=sparse_diag,maxiter=maxiter)
+			return tensor_basis.ent_entropy(self,proj_state,sub_sys_A=tensor_dict[sub_sys_A],return_rdm=return_rdm,enforce_pure=enforce_pure,return_rdm_EVs=return_rdm_EVs,alpha=alpha,sparse=sparse,sparse_diag=sparse_diag,maxiter=maxiter)
 		else:
 			raise ValueError("sub_sys_A '{}' not recognized".format(return_rdm))
 
-- 
2.43.0


From 6fe2061d8d5d5b2a48ef3f9c29354da9df5a5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 85/96] fix: spinful fermions on general lattices could not be
 split into subsystems of both species, and partial_trace had no default in 1d

---
 quspin/basis/basis_1d/fermion.py      | 2 +-
 quspin/basis/basis_general/fermion.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_1d/fermion.py b/quspin/basis/basis_1d/fermion.py
index 33008fb..ee82b12 100644
--- a/quspin/basis/basis_1d/fermion.py
+++ b/quspin/basis/basis_1d/fermion.py
@@ -437,7 +437,7 @@ class spinful_fermion_basis_1d(spinless_fermion_basis_1d,basis_1d):
 	def state_to_int(self,*args):
 		""" Not Implemented."""
 
-	def partial_trace(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm=None,enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None):
+	def partial_trace(self,state,sub_sys_A=None,density=True,subsys_ordering=True,return_rdm="A",enforce_pure=False,return_rdm_EVs=False,sparse=False,alpha=1.0,sparse_diag=True,maxiter=None):
 		"""Calculates reduced density matrix, through a partial trace of a quantum state in a lattice `basis`.
 
 		Parameters
diff --git a/quspin/basis/basis_general/fermion.py b/quspin/basis/basis_general/fermion.py
index 491c4f9..357a4dd 100644
--- a/quspin/basis/basis_general/fermion.py
+++ b/quspin/basis/basis_general/fermion.py
@@ -587,7 +587,7 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 		"""
 		if self._simple_symm:
 			if sub_sys_A is None:
-				sub_sys_A = (list(range(self.N//2)),list(range(self.N//2)))
+				sub_sys_A = (list(range(self.N//4)),list(range(self.N//4)))
 
 			if type(sub_sys_A) is tuple and len(sub_sys_A) != 2:
 				raise ValueError("sub_sys_A must be a tuple which contains the subsystems for the up spins in the \
@@ -596,10 +596,10 @@ class spinful_fermion_basis_general(spinless_fermion_basis_general):
 			sub_sys_A_up,sub_sys_A_down = sub_sys_A
 
 			sub_sys_A = list(sub_sys_A_up)
-			sub_sys_A.extend([i+self.N for i in sub_sys_A_down])
+			sub_sys_A.extend([i+self.N//2 for i in sub_sys_A_down])
 		else:
 			if sub_sys_A is None:
-				sub_sys_A = [i for i in range(self.N//2)]+[self.N+i for i in range(self.N//2)]
+				sub_sys_A = [i for i in range(self.N//4)]+[self.N//2+i for i in range(self.N//4)]
 
 		return spinless_fermion_basis_general._ent_entropy(self,state,sub_sys_A,density=density,
 						subsys_ordering=subsys_ordering,return_rdm=return_rdm,
-- 
2.43.0


From bce392ff0064041ab35e8c8b459b0f633f81fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 86/96] fix: sparse states, sub_sys_A=N, custom svd solvers and
 unordered subsystems failed in partial traces and entropies

---
 quspin/basis/basis_general/base_general.py |  5 ++--
 quspin/basis/lattice.py                    | 27 +++++++++++-----------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index 82c3e62..ac56a35 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -655,9 +655,8 @@ class basis_general(lattice_basis):
 		if v0.shape[0] != self._Ns:
 			raise ValueError("v0 shape {0} not compatible with Ns={1}".format(v0.shape,self._Ns))
 
-		if _sp.issparse(v0): # current work around for sparse states.
-			# return self.get_proj(v0.dtype).dot(v0)
-			raise ValueError
+		if _sp.issparse(v0):
+			return self.get_proj(v0.dtype,pcon=pcon).dot(_sp.csc_matrix(v0))
 
 		v0 = _np.ascontiguousarray(v0)
 
diff --git a/quspin/basis/lattice.py b/quspin/basis/lattice.py
index 74b479b..cdc5d3f 100644
--- a/quspin/basis/lattice.py
+++ b/quspin/basis/lattice.py
@@ -163,7 +163,7 @@ class lattice_basis(basis):
 		if any(not _np.issubdtype(type(s),_np.integer) for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}!")
 
-		if any(s < 0 or s > self.N for s in sub_sys_A):
+		if any(s < 0 or s >= self.N for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}")
 
 		doubles = tuple(s for s in sub_sys_A if sub_sys_A.count(s) > 1)
@@ -188,13 +188,19 @@ class lattice_basis(basis):
 			raise ValueError("state shape {0} not compatible with Ns={1}".format(state.shape,self._Ns))
 
 		if _sp.issparse(state) or sparse:
+			if state.ndim == 1:
+				state = state.reshape((-1,1))
+
+			# decided by the shape in this basis: the projected states are longer
+			enforce_pure = enforce_pure or state.shape[0]!=state.shape[1]
+
 			state=self.project_from(state,sparse=True).T
 			
 			if state.shape[0] == 1:
 				# sparse_pure partial trace
 				rdm_A,rdm_B = _lattice_partial_trace_sparse_pure(state,sub_sys_A,N,sps,return_rdm=return_rdm)
 			else:
-				if state.shape[0]!=state.shape[1] or enforce_pure:
+				if enforce_pure:
 					# vectorize sparse_pure partial trace 
 					state = state.tocsr()
 					try:
@@ -278,7 +284,7 @@ class lattice_basis(basis):
 		if any(not _np.issubdtype(type(s),_np.integer) for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}!")
 
-		if any(s < 0 or s > self.N for s in sub_sys_A):
+		if any(s < 0 or s >= self.N for s in sub_sys_A):
 			raise ValueError("sub_sys_A must iterable of integers with values in {0,...,N-1}")
 
 		doubles = tuple(s for s in set(sub_sys_A) if sub_sys_A.count(s) > 1)
@@ -438,22 +444,15 @@ class lattice_basis(basis):
 			if (svd_solver is None) or (svd_solver==_np.linalg.svd):
 				lmbda = _np.linalg.svd(v, compute_uv=False) 
 			else: # custom solver
-				# preallocate
-				lmbda=_np.zeros(v.shape[0:2],dtype=state.dtype)
 				# loop over states
-				for j in range(v.shape[0]):
-					lmbda[j,...] = svd_solver(v[j,...], **svd_kwargs)	
+				lmbda = _np.stack([svd_solver(v[j,...], **svd_kwargs) for j in range(v.shape[0])])
 		else:
 			if (svd_solver is None) or (svd_solver==_np.linalg.svd):
 				U, lmbda, V =  _np.linalg.svd(v, full_matrices=False)
 			else: # custom solver
-				# preallocate
-				lmbda=_np.zeros(v.shape[0:2],dtype=state.dtype)
-				U=_np.zeros(v.shape,dtype=state.dtype)
-				V=_np.zeros_like(U)
 				# loop over states
-				for j in range(v.shape[0]):
-					U[j,...], lmbda[j,...], V[j,...] = svd_solver(v[j,...], **svd_kwargs)
+				U, lmbda, V = zip(*[svd_solver(v[j,...], **svd_kwargs) for j in range(v.shape[0])])
+				U, lmbda, V = _np.stack(U), _np.stack(lmbda), _np.stack(V)
 			
 			if return_rdm=='A':
 				rdm_A = _np.einsum('...ij,...j,...kj->...ik',U,lmbda**2,U.conj() )
@@ -468,7 +467,7 @@ class lattice_basis(basis):
 
 	def _p_pure_sparse(self,state,sub_sys_A,return_rdm=None,sparse_diag=True,maxiter=None):
 
-		partial_trace_args = dict(sub_sys_A=sub_sys_A,sparse=True,enforce_pure=True)
+		partial_trace_args = dict(sub_sys_A=sub_sys_A,subsys_ordering=False,sparse=True,enforce_pure=True)
 
 		N_A=len(sub_sys_A)
 		N_B=self.N-N_A
-- 
2.43.0


From 5f0c1d049b437de77ad75fc704d59c6025129f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 87/96] fix: entanglement entropy of a mixed state given by its
 eigenstates used the transposed eigenvectors

---
 quspin/tools/measurements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index a0ca2de..014ea45 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -67,7 +67,7 @@ def ent_entropy(system_state,basis,chain_subsys=None,DM=False,svd_return_vec=[Fa
 		if "rho_d" in system_state and "V_rho" in system_state:
 			V_rho = system_state["V_rho"]
 			rho_d = system_state["rho_d"] 
-			state = _np.einsum("ji,j,jk->ik",V_rho,rho_d,V_rho.conj())
+			state = _np.einsum("ij,j,kj->ik",V_rho,rho_d,V_rho.conj())
 		elif "V_states" in system_state:
 			state=system_state['V_states']
 			_basis_kwargs["enforce_pure"]=True
-- 
2.43.0


From 017a8d9648af79fd79c09c8e9bf98a26091d9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 88/96] fix: diagonal ensembles truncated weights to integers
 and squared complex matrix elements

---
 quspin/tools/measurements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 014ea45..608e511 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -276,7 +276,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 	# various checks
 	if delta_t_Obs or delta_q_Obs:
-		if not Obs:
+		if Obs is False:
 			raise TypeError("Expecting to parse the observable 'Obs' whenever 'delta_t_Obs = True' or 'delta_q_Obs = True'!")
 	
 	# calculate diagonal ensemble DM
@@ -328,7 +328,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 		if 'f_norm' in system_state.keys():
 			f_norm = system_state['f_norm']
-			f_norms = _np.zeros((len(f_args[0])),dtype=type(f_args[0][0]) )
+			f_norms = _np.zeros((len(f_args[0])),dtype=_np.float64)
 		else:
 			f_norm = True
 
@@ -340,7 +340,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 
 		# define diagonal (in V1) mixed DM
 		
-		rho_mixed = _np.zeros((len(E1),len(f_args[0])),dtype=type(f_args[0][0]) )
+		rho_mixed = _np.zeros((len(E1),len(f_args[0])),dtype=_np.float64)
 		for i, arg in enumerate(f_args[0]):
 			if f_norm:
 				rho_mixed[:,i] = f(E1,arg) / sum(f(E1,arg))
@@ -372,7 +372,7 @@ def diag_ensemble(N,system_state,E2,V2,density=True,alpha=1.0,rho_d=False,Obs=Fa
 			# diagonal matrix elements of Obs^2 in the basis V2
 			#delta_t_Obs =  _np.einsum( 'ij,ji->i', V2.T.conj(), Obs.dot(Obs).dot(V2) ).real
 			Obs = V2.T.conj().dot( Obs.dot(V2) )
-			delta_t_Obs = _np.square(Obs)
+			delta_t_Obs = _np.abs(Obs)**2
 			_np.fill_diagonal(delta_t_Obs,0.0)
 			if delta_q_Obs is not False:
 				delta_q_Obs = _np.diag(Obs.dot(Obs)).real
-- 
2.43.0


From 5a40c6eeb5b9f491100f3c7acde360e81fb66358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 89/96] fix: obs_vs_time replaced the observables of the caller
 and took series of pure states for mixed ones

---
 quspin/tools/evolution.py    |  4 ++--
 quspin/tools/measurements.py | 14 +++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/quspin/tools/evolution.py b/quspin/tools/evolution.py
index 3999701..8113f18 100644
--- a/quspin/tools/evolution.py
+++ b/quspin/tools/evolution.py
@@ -55,7 +55,7 @@ def ED_state_vs_time(psi,E,V,times,iterate=False):
 			* `generator` which generates time-dependent states one by one.
 
 	"""
-	psi = _np.squeeze(_np.asarray(psi))
+	psi = _np.atleast_1d(_np.squeeze(_np.asarray(psi)))
 
 
 	if V.ndim != 2 or V.shape[0] != V.shape[1]:
@@ -74,7 +74,7 @@ def ED_state_vs_time(psi,E,V,times,iterate=False):
 		raise ValueError("psi must be 1 or 2 dimension array.")
 
 	if _np.isscalar(times):
-		TypeError("Variable 'times' must be a array or iter like object!")
+		raise TypeError("Variable 'times' must be a array or iter like object!")
 
 	times = -1j*_np.asarray(times)
 	
diff --git a/quspin/tools/measurements.py b/quspin/tools/measurements.py
index 608e511..2291081 100644
--- a/quspin/tools/measurements.py
+++ b/quspin/tools/measurements.py
@@ -551,6 +551,7 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 		raise ValueError("Obs_dict must be a dictionary.")
 
 	num_Obs = len(Obs_dict.keys())
+	Obs_dict = dict(Obs_dict)
 
 	for key, val in Obs_dict.items():
 		if not ishamiltonian(val):
@@ -576,13 +577,16 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			
 
 		if _np.isscalar(times):
-			TypeError("Variable 'times' must be a array or iter like object!")
+			raise TypeError("Variable 'times' must be a array or iter like object!")
 
 		if return_state:
 			variables.append("psi_t")
 
 		
 		# get iterator over time dependent state (see function above)
+		# the columns of the result are pure states, also when there are as many of them as basis states
+		enforce_pure = enforce_pure or _np.squeeze(psi).ndim < 2
+
 		if return_state:
 			psi_t = ED_state_vs_time(psi,E,V,times,iterate=False)
 		else:
@@ -607,9 +611,10 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 			variables.append("psi_t")
 			psi_t_list = []
 			for psi in psi_t:
-				psi_t_list.append(psi)
+				psi_t_list.append(_np.squeeze(psi))
 
-			psi_t = _np.squeeze(_np.dstack(psi_t_list))
+			enforce_pure = enforce_pure or all(_np.ndim(psi) == 1 for psi in psi_t_list)
+			psi_t = _np.stack(psi_t_list,axis=-1)
 
 			for Obs in Obs_dict.values():
 				if psi_t.shape[0] != Obs._shape[1]:
@@ -640,6 +645,9 @@ def obs_vs_time(psi_t,times,Obs_dict,return_state=False,Sent_args={},enforce_pur
 		variables.append("Sent_time")
 	
 	if return_state:
+		if calc_Sent and enforce_pure:
+			Sent_args.setdefault("enforce_pure",True)
+
 		for key,Obs in Obs_dict.items():
 			Expt_time[key]=Obs.expt_value(psi_t,time=times,check=False,enforce_pure=enforce_pure)
 			
-- 
2.43.0


From b9f1c1bf276d90a8e3c409b35d1778dc17b3f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 90/96] fix: inplace_Op dropped error codes of user-defined
 operators

---
 .../_basis_general_core/source/general_basis_core.pyx           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
index 21dfc73..51c30ea 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
@@ -496,6 +496,8 @@ cdef class general_basis_core_wrap:
             raise TypeError("attemping to use real type for complex matrix elements.")
         elif err == -2:
             raise TypeError("input datatype is not single or double precision floating point types.")
+        elif err != 0:
+            raise RuntimeError("user defined error code: {}".format(err))
 
     @cython.boundscheck(False)
     def project_to_dense(self, _np.ndarray basis, norm_type[::1] n, dtype[:,::1] v_in, dtype[:,::1] v_out,_np.ndarray basis_pcon=None):
-- 
2.43.0


From e45a419cc23c420242d00ab236b03fee587e6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 91/96] fix: Op_bra_ket read beyond particle sectors given as
 tuples

---
 .../_basis_general_core/source/general_basis_core.pyx         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
index 51c30ea..d5ff149 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
@@ -187,6 +187,10 @@ cdef set[vector[int]] load_pcon_list(object Np):
         np_cpp.push_back(Np)
         Np_cpp.insert(np_cpp)
         np_cpp.clear()
+    elif type(Np) is tuple and all(type(np) is int for np in Np): # one sector with several particle numbers
+        for np in Np:
+            np_cpp.push_back(np)
+        Np_cpp.insert(np_cpp)
     else:
         Np_iter = iter(Np)
 
-- 
2.43.0


From 12d32b54b25737902421bdf4d33fb1d101c388ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 92/96] fix: projectors from constrained particle sectors
 without symmetries were identities

---
 .../source/general_basis_core.pyx              | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
index d5ff149..4a762f0 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
+++ b/quspin/basis/basis_general/_basis_general_core/source/general_basis_core.pyx
@@ -85,15 +85,25 @@ cdef get_proj_helper(general_basis_core[npy_uint] * B, npy_uint * basis, int nt,
 @cython.boundscheck(False)
 cdef get_proj_pcon_helper(general_basis_core[state_type] * B, state_type * basis, int nt, int nnt,
                         int8_t[::1] sign, dtype[::1] c, index_type[::1] indices, index_type[::1] indptr,state_type * basis_pcon,object P):
-    cdef int per = B.pers[nt-nnt]
     cdef npy_intp Ns_full = P.shape[0]
     cdef npy_intp Ns = P.shape[1]
 
-    cdef double q = (2*pi*B.qs[nt-nnt])/per
-    cdef double complex cc = cos(q)-1j*sin(q)
+    cdef int per
+    cdef double q
+    cdef double complex cc
     cdef double norm
     cdef npy_intp i,j
 
+    if nt <= 0: # no symmetries
+        for i in range(Ns):
+            indices[i] = <npy_intp>rep_position(Ns_full,basis_pcon,basis[i])
+
+        return _sp.csc_matrix((c,indices,indptr),shape=P.shape,dtype=P.dtype)
+
+    per = B.pers[nt-nnt]
+    q = (2*pi*B.qs[nt-nnt])/per
+    cc = cos(q)-1j*sin(q)
+
     if nnt > 1:
         for j in range(per):
             if dtype is float or dtype is double:
@@ -677,7 +687,7 @@ cdef class general_basis_core_wrap:
                 else:
                     raise TypeError("basis dtype must be either uint32 or uint64")  
         else:
-            if self._nt <= 0: # basis is already full particle conserving basis
+            if self._nt <= 0 and Ns == Ns_full: # basis is already full particle conserving basis
                 return _sp.identity(Ns,dtype=Ptype)
             else:
                 P = _sp.csc_matrix((Ns_full,Ns),dtype=Ptype)
-- 
2.43.0


From ad04b99c13820ecc936b1a6162a3a5ae9055f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 93/96] fix: user_basis stored states out of order, had no
 projections to particle sectors and crashed in Op_bra_ket without counters

---
 quspin/basis/basis_general/base_general.py | 13 ++++----
 quspin/basis/basis_general/base_user.py    | 35 +++++++++++++++-------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/quspin/basis/basis_general/base_general.py b/quspin/basis/basis_general/base_general.py
index ac56a35..5164262 100644
--- a/quspin/basis/basis_general/base_general.py
+++ b/quspin/basis/basis_general/base_general.py
@@ -422,6 +422,11 @@ class basis_general(lattice_basis):
 			return v_out
 
 
+	def _make_pcon(self):
+		basis_pcon = self.__class__(**self._pcon_args,make_basis=False)
+		basis_pcon.make(N_p=0)
+		return basis_pcon
+
 	def get_proj(self,dtype,pcon=False):
 		"""Calculates transformation/projector from symmetry-reduced basis to full (symmetry-free) basis.
 
@@ -461,7 +466,7 @@ class basis_general(lattice_basis):
 		if pcon and self._get_proj_pcon:
 
 			if self._basis_pcon is None:
-				self._basis_pcon = self.__class__(**self._pcon_args)
+				self._basis_pcon = self._make_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 			Ns_full = basis_pcon.shape[0]
@@ -517,8 +522,7 @@ class basis_general(lattice_basis):
 
 		if pcon==True:
 			if self._basis_pcon is None:
-				self._basis_pcon = self.__class__(**self._pcon_args,make_basis=False)
-				self._basis_pcon.make(N_p=0)
+				self._basis_pcon = self._make_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 
@@ -619,8 +623,7 @@ class basis_general(lattice_basis):
 
 		if pcon==True:
 			if self._basis_pcon is None:
-				self._basis_pcon = self.__class__(**self._pcon_args,make_basis=False)
-				self._basis_pcon.make(N_p=0)
+				self._basis_pcon = self._make_pcon()
 
 			basis_pcon = self._basis_pcon._basis
 
diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 729899a..b20dea6 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -450,6 +450,9 @@ class user_basis(basis_general):
 		self._blocks,map_funcs,pers,qs,map_args = _process_user_blocks(use_32bit,blocks,block_order)
 
 		self.map_funcs = map_funcs
+		# arguments of the basis with the same particle sector(s) and no symmetries
+		self._pcon_args = dict(basis_dtype=basis_dtype,N=N,op_dict=op_dict,sps=sps,pcon_dict=pcon_dict,allowed_ops=allowed_ops)
+
 		self._pers = _np.array(pers,dtype=_np.int)
 		self._qs = _np.array(qs,dtype=_np.int)
 		self.map_args = map_args
@@ -488,16 +491,6 @@ class user_basis(basis_general):
 			self._basis=basis_zeros(self._Ns,dtype=self._basis_dtype)
 			self._n=_np.zeros(self._Ns,dtype=self._n_dtype)
 
-		if not is_sorted_decending(self._basis):
-			ind = _np.argsort(self._basis,kind="heapsort")[::-1]
-			self._basis = self._basis[ind]
-			self._n = self._n[ind]
-
-		if allowed_ops is None:
-			allowed_ops = set([chr(i) for i in range(256)]) # all characters allowed.
-
-
-
 	def __type__(self):
 		return "<type 'qspin.basis.user.user_basis'>"
 
@@ -507,6 +500,28 @@ class user_basis(basis_general):
 	def __name__(self):
 		return "<type 'qspin.basis.user.user_basis'>"
 
+	def make(self,Ns_block_est=None,N_p=None):
+		basis_general.make(self,Ns_block_est=Ns_block_est,N_p=N_p)
+
+		if not is_sorted_decending(self._basis): # next_state does not have to visit the states in order.
+			ind = _np.argsort(self._basis,kind="heapsort")[::-1]
+			self._basis = self._basis[ind]
+			self._n = self._n[ind]
+			self.make_basis_blocks(N_p=N_p)
+	make.__doc__ = basis_general.make.__doc__
+
+	def _make_pcon(self):
+		basis_pcon = self.__class__(_make_basis=False,**self._pcon_args)
+		basis_pcon.make(N_p=0)
+		return basis_pcon
+
+	def Op_bra_ket(self,*args,**kwargs):
+		if self._Np is not None and self._core_args[-4] is None:
+			raise ValueError("Op_bra_ket requires 'n_sectors', 'count_particles' and 'count_particles_args' in pcon_dict.")
+
+		return basis_general.Op_bra_ket(self,*args,**kwargs)
+	Op_bra_ket.__doc__ = basis_general.Op_bra_ket.__doc__
+
 	def __setstate__(self,state):
 		self.__dict__.update(state)
 		self._core = user_core_wrap(*self._core_args)
-- 
2.43.0


From 11ead18e2fd43c582b81194dfd6825a5c26df41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 94/96] fix: user_basis read int64 count_particles_args as
 int32

---
 quspin/basis/basis_general/base_user.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index b20dea6..133b90f 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -304,7 +304,7 @@ class user_basis(basis_general):
 					if count_particles_args.dtype != _np.int32 and count_particles_args.dtype != _np.int64:
 						raise ValueError("count_particles_args must be a C-contiguous numpy \
 							array with dtype {} or {}".format(_np.int32,_np.int64))
-
+					count_particles_args = count_particles_args.astype(_np.intc,copy=False) # type the callback reads
 
 				else:
 					raise ValueError("pcon_dict input not understood. Check if you passed all keys (currently pcon_dict can have either 5 or 8 keys.")
-- 
2.43.0


From 23fff95f2521e1b99b36263e998d2b6f9de18efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 95/96] fix: user_basis could not be made with default
 operators, in several steps or with lists of particle sectors

---
 quspin/basis/basis_general/base_user.py | 35 +++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/quspin/basis/basis_general/base_user.py b/quspin/basis/basis_general/base_user.py
index 133b90f..5932e83 100644
--- a/quspin/basis/basis_general/base_user.py
+++ b/quspin/basis/basis_general/base_user.py
@@ -1,5 +1,5 @@
 from .base_general import basis_general
-from ._basis_general_core import user_core_wrap
+from ._basis_general_core import user_core_wrap,basis_zeros
 import numpy as _np
 from numba import cfunc, types, njit
 from numba.ccallback import CFunc
@@ -314,6 +314,8 @@ class user_basis(basis_general):
 
 			if Np is None:
 				Ns = Ns_full
+				if n_sectors is None:
+					n_sectors = -1
 			elif type(Np) is tuple or type(Np) is int:
 				self._get_proj_pcon = True
 				if n_sectors is not None:
@@ -342,24 +344,20 @@ class user_basis(basis_general):
 					raise TypeError("Np must be integer or iteratable object.")
 
 				Np = list(Np)
-				
+
 				for np in Np:
-					if n_sectors is not None:
-						if type(np) is int and n_sectors!=1:
-							raise ValueError("n_sectors is {} when the size \
-								of the particle sector is 1".format(n_sectors))
-						elif type(np) is tuple and n_sectors!=len(np):
-							raise ValueError("n_sectors is {} when the size \
-								of the particle sector is {}".format(n_sectors,len(np)))
-						else:
-							raise ValueError("Np must be tuple, int, or a list of tuples/integers.")
+					if type(np) is int:
+						np_sectors=1
+					elif type(np) is tuple:
+						np_sectors=len(np)
 					else:
-						if type(np) is int:
-							n_sectors=1
-						elif type(np) is tuple:
-							n_sectors=len(np)
-						else:
-							raise ValueError("Np must be tuple, int, or a list of tuples/integers.")
+						raise ValueError("Np must be tuple, int, or a list of tuples/integers.")
+
+					if n_sectors is None:
+						n_sectors=np_sectors
+					elif n_sectors!=np_sectors:
+						raise ValueError("n_sectors is {} when the size \
+							of the particle sector is {}".format(n_sectors,np_sectors))
 
 				Ns = sum(get_Ns_pcon(N,np) for np in Np)
 
@@ -479,6 +477,9 @@ class user_basis(basis_general):
 		self._Ns_block_est = self._Ns
 		self._Np = Np
 		self._sps=sps
+
+		if allowed_ops is None:
+			allowed_ops = [chr(i) for i in range(256)] # all characters allowed.
 		self._allowed_ops=set(allowed_ops)
 
 		nmax = _np.prod(self._pers)
-- 
2.43.0


From dc594c47a032dbe365b51adcc1f302010cbf6b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 96/96] fix: user_basis read the result of pre_check_state as
 bool

---
 .../_basis_general_core/source/user_basis_core.h              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h b/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h
index c7a2e27..cb078d3 100644
--- a/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h
+++ b/quspin/basis/basis_general/_basis_general_core/source/user_basis_core.h
@@ -28,7 +28,7 @@ class user_basis_core : public general_basis_core<I,P>
 	typedef I (*next_state_type)(I,I,I,I*);
 	typedef int (*op_func_type)(op_results<I>*,char,int,int,I*);
 	typedef void (*count_particles_type)(I,int*,I*);
-	typedef bool (*check_state_nosymm_type)(I,I,I*);
+	typedef I (*check_state_nosymm_type)(I,I,I*);
 
 	public:
 		map_type * map_funcs;
@@ -118,7 +118,7 @@ class user_basis_core : public general_basis_core<I,P>
 			bool ns_check=true;
 
 			if(pre_check_state){
-				ns_check = (*pre_check_state)(s,(I)general_basis_core<I,P>::N, precs_args);
+				ns_check = ((*pre_check_state)(s,(I)general_basis_core<I,P>::N, precs_args) != (I)0);
 			}			
 			
 			if(ns_check){
-- 
2.43.0

