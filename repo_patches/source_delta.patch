From 01c1f2656c8fb832f54e05f1f5391137988af858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 01/18] fix: keep the crystal-field Hamiltonian exactly
 Hermitian

Rotating the crystal-field matrices from cubic to spherical harmonics leaves
rounding errors, so that h[i, j] and conj(h[j, i]) differ in the last bit.
The exact Hermiticity assertion then aborts the calculation, e.g. for the
shipped NiO example h0_NiO_CF.json.
---
 impurityModel/ed/get_spectra_using_CF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..9460ec2 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -482,6 +482,8 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     # Convert to spherical harmonics basis
     u = finite.get_spherical_2_cubic_matrix(spinpol=False, l=l)
     h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))
+    # Remove rounding errors from the rotation, such that the matrix is exactly Hermitian.
+    h_imp_3d = (h_imp_3d + np.conj(h_imp_3d.T)) / 2
     # Convert from matrix to operator form.
     # Also add spin.
     h_imp_3d_operator = {}
@@ -520,6 +522,9 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))
     eBathVal3d = np.dot(u_bath, np.dot(eBathVal3d, np.conj(u_bath.T)))
     eBathCon3d = np.dot(u_bath, np.dot(eBathCon3d, np.conj(u_bath.T)))
+    # Remove rounding errors from the rotation, such that the matrices are exactly Hermitian.
+    eBathVal3d = (eBathVal3d + np.conj(eBathVal3d.T)) / 2
+    eBathCon3d = (eBathCon3d + np.conj(eBathCon3d.T)) / 2
     # Convert from matrix to operator form.
     # Also introduce spin.
     h_hopp_operator = {}
-- 
2.43.0


From 1a20a1325010355b6f52ebc2444a5a27fbb1bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 02/18] fix: do not share one operator cache between out-going
 RIXS operators

[{}] * n is a list with n references to the same dictionary. The result of
the first out-going transition operator was therefore re-used for all the
other out-going transition operators.
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..a290481 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,7 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From 81d57866574c97d0554fd04755d8ac9f56530db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 03/18] fix: correct the direction of the momentum transfer in
 NIXS

arccos(q_x / |q_xy|) loses the sign of q_y and gives NaN matrix elements if
q is parallel to the z-axis (or due to rounding, if q_y = 0).
---
 impurityModel/ed/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index a290481..1e13be6 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -479,9 +479,9 @@ def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
     q = np.array(q)
     qNorm = np.linalg.norm(q)
     # Polar (colatitudinal) coordinate
-    theta = np.arccos(q[2] / qNorm)
+    theta = np.arctan2(np.hypot(q[0], q[1]), q[2])
     # Azimuthal (longitudinal) coordinate
-    phi = np.arccos(q[0] / (qNorm * np.sin(theta)))
+    phi = np.arctan2(q[1], q[0])
     tOp = {}
     for k in range(kmin, abs(li + lj) + 1):
         if (li + lj + k) % 2 == 0:
-- 
2.43.0


From 3983c09ac7fa5417010a428d3f68f900c7cd1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 04/18] fix: use int instead of the removed np.int in
 allgather_dict

---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From 39504842a2651f3019ed6302fea774228045eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 05/18] fix: print thermal expectation values at the requested
 temperature

The temperature given by the user was not used, instead the expectation
values were always printed for the default temperature of 300 K.
---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..a8f0a00 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 9460ec2..4ea5ec9 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From c6cf22ad90c342b20ec8d6e526ec80cd6ef74e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 06/18] fix: let plotSpectra read spectra.h5 by default

A positional argument without nargs="?" is required and ignores its default,
so the command documented in the README failed.
---
 impurityModel/plotScripts/plotSpectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 2163d19..5096447 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -221,6 +221,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "filename",
         type=str,
+        nargs="?",
         default="spectra.h5",
         help="Filename containing spectra.",
     )
-- 
2.43.0


From 9f7512410761b0bc5d05310e5661a7d4b9f76b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 07/18] fix: no more electrons can leave the valence bath than
 it contains

Without valence bath states (and dnValBaths > 0) get_basis returned product
states with too many electrons. With too few valence bath states it raised.
---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..3a4d3e5 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -318,7 +318,7 @@ def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
         # Add configurations to this list
         basisL[l] = []
         # Loop over different occupation partitions
-        for dnVal in range(dnValBaths[l] + 1):
+        for dnVal in range(min(dnValBaths[l], valBaths[l]) + 1):
             for dnCon in range(dnConBaths[l] + 1):
                 deltaNimp = dnVal - dnCon
                 if abs(deltaNimp) <= dnTol[l]:
-- 
2.43.0


From 61fd82a682b83a1236547c78eed2f08b0b607d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 08/18] fix: return orthonormal eigenstates also for degenerate
 eigenvalues

For a complex valued Hamiltonian eigsh uses the ARPACK routine for general
matrices. Its eigenvectors are not orthogonal within a degenerate level,
e.g. without magnetic field.
---
 impurityModel/ed/finite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 3a4d3e5..e57154f 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -107,6 +107,9 @@ def eigensystem(
         indices = np.argsort(es)
         es = np.array([es[i] for i in indices])
         vecs = np.array([vecs[:, i] for i in indices]).T
+        # ARPACK does not orthogonalize eigenvectors of (almost) degenerate eigenvalues
+        # if the Hamiltonian is complex valued.
+        vecs, _ = np.linalg.qr(vecs)
     else:
         print("Wrong diagonalization mode")
     if rank == 0:
-- 
2.43.0


From a49f2698d8fe4e95b94c3cba4c549c409ccf5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 09/18] fix: handle an exhausted Krylov space in the Green's
 function

If psi is a sum of few eigenstates, the Krylov space can be exhausted, with
beta exactly zero. The calculation then crashed (and with several MPI ranks
the other ranks waited forever), although the continued fraction simply
terminates.
---
 impurityModel/ed/finite.py  | 12 ++++++------
 impurityModel/ed/spectra.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index e57154f..4bc1e6c 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1961,9 +1961,9 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
                 if beta[j - 1] != 0:
                     v[1, :] = w / beta[j - 1]
                 else:
-                    # Pick normalized state v[j],
-                    # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                    raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+                    # The Krylov space is exhausted.
+                    # Remaining elements are zero and decoupled from psi0.
+                    v[1, :] = 0
             # Broadcast vector v[1,:] from rank 0 to all ranks.
             comm.Bcast(v[1, :], root=0)
             wp_local = h.dot(v[1, :])
@@ -1986,9 +1986,9 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
             if beta[j - 1] != 0:
                 v[1, :] = w / beta[j - 1]
             else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                raise ValueError("Warning: beta==0, implementation absent!")
+                # The Krylov space is exhausted.
+                # Remaining elements are zero and decoupled from psi0.
+                v[1, :] = 0
             wp = h.dot(v[1, :])
             alpha[j] = np.dot(np.conj(wp), v[1, :]).real
             w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 1e13be6..48a854f 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -636,9 +636,9 @@ def getGreen(
             if beta[j - 1] != 0:
                 v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
             else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                print("Warning: beta==0, implementation missing!")
+                # The Krylov space is exhausted.
+                # Remaining elements are zero and decoupled from psi.
+                v[j] = {}
             # print('len(v[',j,'] =',len(v[j]))
             wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
             alpha[j] = inner(wp[j], v[j]).real
-- 
2.43.0


From f04e7082859923e7f674c10ecd1a1987ebcb566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 10/18] fix: give all MPI ranks the Krylov Hamiltonian

With a distributed Hamiltonian, only rank 0 obtained the tridiagonal
elements, such that getGreen and getSpectra silently returned a wrong
Green's function at all other ranks.
---
 impurityModel/ed/finite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 4bc1e6c..aa67f82 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1974,6 +1974,9 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
                 alpha[j] = np.dot(np.conj(wp), v[1, :]).real
                 w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
                 v[0, :] = v[1, :]
+        # Only rank 0 knows the result.
+        comm.Bcast(alpha, root=0)
+        comm.Bcast(beta, root=0)
     else:
         # Initialization...
         wp = h.dot(v[0, :])
-- 
2.43.0


From 9b337a864673a4e11c2f7014f7abeea8134dd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 11/18] fix: reject negative spin-orbital indices in i2c

---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index aa67f82..d751158 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -835,7 +835,7 @@ def i2c(nBaths, i):
     for lp, nBath in nBaths.items():
         b = i - k
         # Check if bath state belong to bath states having lp.
-        if b < nBath:
+        if 0 <= b < nBath:
             # The index "b" will have a value between 0 and nBath-1
             return (lp, b)
         k += nBath
-- 
2.43.0


From 8eaac90240bb5067accf1ccbfd011fe740071615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 12/18] fix: find all states of degenerate energies with the
 Lanczos method

---
 impurityModel/ed/finite.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index d751158..f65fb6a 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -103,13 +103,25 @@ def eigensystem(
         vecs = vecs[:, :nPsiMax]
     elif groundDiagMode == "Lanczos":
         es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
-        # Sort the eigenvalues and eigenvectors in ascending order.
-        indices = np.argsort(es)
-        es = np.array([es[i] for i in indices])
-        vecs = np.array([vecs[:, i] for i in indices]).T
-        # ARPACK does not orthogonalize eigenvectors of (almost) degenerate eigenvalues
-        # if the Hamiltonian is complex valued.
-        vecs, _ = np.linalg.qr(vecs)
+        # The Lanczos method might miss some of the eigenvectors of a degenerate eigenvalue.
+        # Therefore also search among the vectors orthogonal to the found eigenvectors,
+        # by shifting the latter to high energy, until nothing with lower energy remains.
+        shift = 2 * scipy.sparse.linalg.norm(h, np.inf) + 1
+        while True:
+            # ARPACK does not orthogonalize eigenvectors of (almost) degenerate eigenvalues
+            # if the Hamiltonian is complex valued.
+            vecs, _ = np.linalg.qr(vecs)
+            # Sort the eigenvalues and eigenvectors in ascending order.
+            es, rotation = np.linalg.eigh(vecs.conj().T @ (h @ vecs))
+            es = es[:nPsiMax]
+            vecs = vecs @ rotation[:, :nPsiMax]
+            h_shifted = scipy.sparse.linalg.LinearOperator(
+                h.shape, matvec=lambda x: h @ x + shift * (vecs @ (vecs.conj().T @ x)), dtype=h.dtype
+            )
+            es_new, vecs_new = scipy.sparse.linalg.eigsh(h_shifted, k=nPsiMax, which="SA", tol=eigenValueTol)
+            if min(es_new) > es[-1] - 1e-8:
+                break
+            vecs = np.hstack((vecs, vecs_new))
     else:
         print("Wrong diagonalization mode")
     if rank == 0:
-- 
2.43.0


From c1edb494e956337f59137af17456cdcb6c13c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 13/18] fix: fall back to dense diagonalization when ARPACK
 fails

---
 impurityModel/ed/finite.py | 44 ++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index f65fb6a..f0afc7f 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -102,26 +102,32 @@ def eigensystem(
         es = es[:nPsiMax]
         vecs = vecs[:, :nPsiMax]
     elif groundDiagMode == "Lanczos":
-        es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
-        # The Lanczos method might miss some of the eigenvectors of a degenerate eigenvalue.
-        # Therefore also search among the vectors orthogonal to the found eigenvectors,
-        # by shifting the latter to high energy, until nothing with lower energy remains.
-        shift = 2 * scipy.sparse.linalg.norm(h, np.inf) + 1
-        while True:
-            # ARPACK does not orthogonalize eigenvectors of (almost) degenerate eigenvalues
-            # if the Hamiltonian is complex valued.
-            vecs, _ = np.linalg.qr(vecs)
-            # Sort the eigenvalues and eigenvectors in ascending order.
-            es, rotation = np.linalg.eigh(vecs.conj().T @ (h @ vecs))
+        try:
+            es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
+            # The Lanczos method might miss some of the eigenvectors of a degenerate eigenvalue.
+            # Therefore also search among the vectors orthogonal to the found eigenvectors,
+            # by shifting the latter to high energy, until nothing with lower energy remains.
+            shift = 2 * scipy.sparse.linalg.norm(h, np.inf) + 1
+            while True:
+                # ARPACK does not orthogonalize eigenvectors of (almost) degenerate eigenvalues
+                # if the Hamiltonian is complex valued.
+                vecs, _ = np.linalg.qr(vecs)
+                # Sort the eigenvalues and eigenvectors in ascending order.
+                es, rotation = np.linalg.eigh(vecs.conj().T @ (h @ vecs))
+                es = es[:nPsiMax]
+                vecs = vecs @ rotation[:, :nPsiMax]
+                h_shifted = scipy.sparse.linalg.LinearOperator(
+                    h.shape, matvec=lambda x: h @ x + shift * (vecs @ (vecs.conj().T @ x)), dtype=h.dtype
+                )
+                es_new, vecs_new = scipy.sparse.linalg.eigsh(h_shifted, k=nPsiMax, which="SA", tol=eigenValueTol)
+                if min(es_new) > es[-1] - 1e-8:
+                    break
+                vecs = np.hstack((vecs, vecs_new))
+        except scipy.sparse.linalg.ArpackError:
+            # ARPACK can fail for Hamiltonians with few distinct eigenvalues.
+            es, vecs = np.linalg.eigh(h.toarray())
             es = es[:nPsiMax]
-            vecs = vecs @ rotation[:, :nPsiMax]
-            h_shifted = scipy.sparse.linalg.LinearOperator(
-                h.shape, matvec=lambda x: h @ x + shift * (vecs @ (vecs.conj().T @ x)), dtype=h.dtype
-            )
-            es_new, vecs_new = scipy.sparse.linalg.eigsh(h_shifted, k=nPsiMax, which="SA", tol=eigenValueTol)
-            if min(es_new) > es[-1] - 1e-8:
-                break
-            vecs = np.hstack((vecs, vecs_new))
+            vecs = vecs[:, :nPsiMax]
     else:
         print("Wrong diagonalization mode")
     if rank == 0:
-- 
2.43.0


From b580a28103fcdb16b9ad0b826cdd23975f6031e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 14/18] fix: do not truncate the Krylov space at the number of
 basis states

Without re-orthogonalization the Krylov vectors lose their orthogonality, so
that more iterations than basis states can be needed. The truncation gave
Green's functions which were wrong by several percent for small systems
although krylovSize was much bigger than the number of basis states.
---
 impurityModel/ed/finite.py  | 4 ++--
 impurityModel/ed/spectra.py | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index f0afc7f..a26c4af 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1941,8 +1941,8 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
         h = h.toarray()
     # Number of basis states
     n = len(psi0)
-    # Unnecessary (and impossible) to find more than n Krylov basis vectors.
-    krylovSize = min(krylovSize, n)
+    # Without re-orthogonalization of the Krylov vectors, more than n
+    # iterations can be needed. Hence krylovSize may exceed n.
 
     # Allocate tri-diagonal matrix elements
     alpha = np.zeros(krylovSize, dtype=float)
diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 48a854f..d96bae3 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -668,8 +668,6 @@ def getGreen(
         psi0 = np.zeros(n, dtype=complex)
         for ps, amp in psi.items():
             psi0[basis_index[ps]] = amp
-        # Unnecessary (and impossible) to find more than n Krylov basis vectors.
-        krylovSize = min(krylovSize, n)
         # Get tridiagonal elements of the Krylov Hamiltonian matrix.
         alpha, beta = get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local, mode)
     else:
-- 
2.43.0


From efd4182cf8f325eecb1410eb6c220dc31dfed8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 15/18] fix: plot RIXS for any number of polarisations

---
 impurityModel/plotScripts/plotSpectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 5096447..79bdd24 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -192,7 +192,7 @@ def plot_spectra_in_file(filename):
 
         # All polarization combinations In:x,y,z , Out:x,y,z
         if rixs.shape[:2] != (1, 1):
-            fig, axes = plt.subplots(nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True)
+            fig, axes = plt.subplots(nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True, squeeze=False)
             for i in range(np.shape(axes)[0]):
                 for j in range(np.shape(axes)[1]):
                     tmp = np.copy(rixs[i, j, :, :].T)
@@ -206,7 +206,7 @@ def plot_spectra_in_file(filename):
                     if j == np.shape(axes)[1] - 1:
                         cbar.ax.set_ylabel("RIXS intensity")
                     axes[i, j].set_title(f"({i},{j})")
-            for ax in axes[2, :]:
+            for ax in axes[-1, :]:
                 ax.set_xlabel(r"$\omega_{in}$   (eV)")
             for ax in axes[:, 0]:
                 ax.set_ylabel(r"$\omega_{loss}$   (eV)")
-- 
2.43.0


From 2917b0bf14ea9d723b79f54ad6309f9345d96ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 16/18] fix: plot RIXS maps without intensity above the cut-off

---
 impurityModel/plotScripts/plotRIXS.py    | 4 +++-
 impurityModel/plotScripts/plotSpectra.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/impurityModel/plotScripts/plotRIXS.py b/impurityModel/plotScripts/plotRIXS.py
index cf3cfcc..0238811 100644
--- a/impurityModel/plotScripts/plotRIXS.py
+++ b/impurityModel/plotScripts/plotRIXS.py
@@ -43,7 +43,9 @@ def main():
     top = wLoss[-1] + dy / 2
 
     plt.figure()
-    cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log")
+    # A log-scale needs at least one value above the cut-off
+    norm = None if np.all(mask) else "log"
+    cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm)
     cbar = plt.colorbar(cs)
     cbar.ax.set_ylabel("RIXS intensity")
     plt.xlabel(r"$\omega_{in}$   (eV)")
diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 79bdd24..8158501 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -182,7 +182,9 @@ def plot_spectra_in_file(filename):
         top = wLoss[-1] + dy / 2
 
         plt.figure()
-        cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log")
+        # A log-scale needs at least one value above the cut-off
+        norm = None if np.all(mask) else "log"
+        cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm)
         cbar = plt.colorbar(cs)
         cbar.ax.set_ylabel("RIXS intensity")
         plt.xlabel(r"$\omega_{in}$   (eV)")
@@ -199,8 +201,9 @@ def plot_spectra_in_file(filename):
                     mask = tmp < plotCutOff
                     tmp[mask] = np.nan
 
+                    norm = None if np.all(mask) else "log"
                     cs = axes[i, j].imshow(
-                        tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log"
+                        tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm
                     )
                     cbar = plt.colorbar(cs, ax=axes[i, j])
                     if j == np.shape(axes)[1] - 1:
-- 
2.43.0


From 653df5c993ea4f243000909b22c344ef328c83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 17/18] fix: label the density matrix elements in the order in
 which they are printed

The keys are ((spin, orbital), (spin, orbital)), but the report and the
documentation said (orbital, spin).
---
 impurityModel/ed/finite.py               | 2 +-
 impurityModel/ed/get_spectra.py          | 4 ++--
 impurityModel/ed/get_spectra_using_CF.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index a26c4af..0e619ed 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1052,7 +1052,7 @@ def getDensityMatrixCubic(nBaths, psi):
     Returns
     -------
     densityMatrix : dict
-        keys of the form: :math:`((i,si),(j,sj))`.
+        keys of the form: :math:`((si,i),(sj,j))`.
         values of the form: :math:`\langle psi| c_{jc}^\dagger c_{ic}
         |psi \rangle`.
 
diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index a8f0a00..69838ed 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -240,12 +240,12 @@ def main(
                 if abs(ne) > tolPrintOccupation:
                     if e[0] == e[1]:
                         print(
-                            "Diagonal: (i,s) =",
+                            "Diagonal: (s,i) =",
                             e[0],
                             ", occupation = {:7.2f}".format(ne),
                         )
                     else:
-                        print("Off-diagonal: (i,si), (j,sj) =", e, ", {:7.2f}".format(ne))
+                        print("Off-diagonal: (si,i), (sj,j) =", e, ", {:7.2f}".format(ne))
             print("")
 
     # Save some information to disk
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 4ea5ec9..eb0de96 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -240,12 +240,12 @@ def main(
                 if abs(ne) > tolPrintOccupation:
                     if e[0] == e[1]:
                         print(
-                            "Diagonal: (i,s) =",
+                            "Diagonal: (s,i) =",
                             e[0],
                             ", occupation = {:7.2f}".format(ne),
                         )
                     else:
-                        print("Off-diagonal: (i,si), (j,sj) =", e, ", {:7.2f}".format(ne))
+                        print("Off-diagonal: (si,i), (sj,j) =", e, ", {:7.2f}".format(ne))
             print("")
 
     # Save some information to disk
-- 
2.43.0


From 57b4043e04b82ef2dae904d60c3a09e688e730eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 18/18] fix: name the crystal-field example script correctly in
 the README

The README told users to run scripts/run_Ni_NiO_CFparam.sh, which does not exist.
---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 6b561e2..2d86c27 100644
--- a/README.md
+++ b/README.md
@@ -62,7 +62,7 @@ These examples will read an non-interacting Hamiltonian from file.
 A simpler non-interacting Hamiltonian can instead be constructed by crystal-field parameters.
 This is done for NiO by typing:
 ```bash
-path/to/folder/impurityModel/scripts/run_Ni_NiO_CFparam.sh
+path/to/folder/impurityModel/scripts/run_Ni_NiO_CF.sh
 ```
 Although using a crystal-field approach is a bigger approximation, it is convinient when doing fitting to experimental spectra.
 But for more accurate simulations it is better to read in a non-interacting Hamiltonian from file, that has been constructed from e.g. DFT or DFT+DMFT simulations.
-- 
2.43.0

