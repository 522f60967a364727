From 029bba0727ca6f2a9f998de112af265c54389e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 01/49] fix: permute the basis by the rotation itself when
 building the supercell group

get_sym_group paired each rotation's action on the lattice sites with the
action of its inverse on the basis, so multi atom cells got wrong groups
(or an exit when the fractional shift then missed every atom).
---
 phenum/grouptheory.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..3e31e51 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -408,7 +408,7 @@ def SmithNormalForm(HNF):
         
     return(M,A,B)
 
-def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
+def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps,inverse=True):
     """This routine applies the symmetry operations of the parent lattice
     to the interior points (i.e., the d-set) to see which ones are
     equivalent. Labelings of the lattice points that are contain
@@ -421,6 +421,9 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
         bas_vacs (list): A 2D array containing the basis vectors for the cell.
         LatDim (int): 2 if a 2D case 3 if 3D.
         eps (float): Finite precesion tolerance.
+        inverse (bool, optional): True if the permutations are listed for the
+          inverse of each rotation, False if they are listed for the rotation
+          itself, as _get_rotation_perms_lists needs them.
 
     Returns:
         drp_list (list): The basis vector permutations.
@@ -452,7 +455,10 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
             temp_b = bas_vecs[0]
         else:
             temp_b = bas_vecs
-        rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        if inverse:
+            rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        else:
+            rd_rot = np.matmul(temp_b,np.transpose(rot[iOp])).tolist()
 
         if n_d > 1:
             rd_shift = [shift[iOp]]*n_d
@@ -744,7 +750,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
                  .format(" ".join([str(p) for p in temp_basis[i]]),
                          " ".join([str(p) for p in b_vecs])))
 
-    par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps)
+    par_rp_list = _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps,inverse=False)
 
     a_type = [1]*len(bas_vecs)
     
-- 
2.43.0


From 5bed9616fbe764404ae7cf8cc6df9172e87fc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 02/49] fix: leave the arrow permutations alone when no arrows
 are asked for

Hexagonal cells have rotations that do not permute the Cartesian axes, so
building an arrow permutation for them exited even without any arrows.
---
 phenum/enumeration.py |  3 ++-
 phenum/grouptheory.py | 28 ++++++++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..4132de6 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -83,7 +83,8 @@ def _polya_out(args):
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,
+                                  arrows=sum(a_concs) != 0)
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 3e31e51..9300237 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -569,16 +569,13 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             for iD in range(n_d): # Loop over each row in the (d,g) table
                 temp1 = np.transpose([RPlist[iH].v[iOp][iD]]*n)
                 temp2 = np.matmul(np.matmul(Op[iH].rot[iOp],T),g)
-                rag = np.transpose(np.matmul(arrowg,Op[iH].rot[iOp]))
                 rgp = np.matmul(t_inv,(-temp1+temp2))
                 temp_gp = np.round(rgp).astype(int)
-                temp_ag = np.round(rag).astype(int)
                 if not np.allclose(rgp,temp_gp,rtol=0,atol=eps): #pragma: no cover
                     print("Transform left big fractional parts")
                     exit()
 
                 gp = temp_gp
-                ag = temp_ag
                 temp_diag = np.transpose([diag]*n)
                 gp = gp%temp_diag # Mod by each entry of
                 # the SNF to bring into group Now that the rotated group
@@ -608,17 +605,20 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             break
                         
                 # do the same thing for the arrows
-                skip = [False]*na_op
-                for im in range(na_op):
-                    for jm in range(na_op):
-                        if skip[jm]:
-                            continue
-                        if (ag[:,jm] == arrowg[im]).all():
-                            dap[im] = jm
-                            skip[jm] = True
-                            break
-
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                if arrows:
+                    rag = np.transpose(np.matmul(arrowg,Op[iH].rot[iOp]))
+                    ag = np.round(rag).astype(int)
+                    skip = [False]*na_op
+                    for im in range(na_op):
+                        for jm in range(na_op):
+                            if skip[jm]:
+                                continue
+                            if (ag[:,jm] == arrowg[im]).all():
+                                dap[im] = jm
+                                skip[jm] = True
+                                break
+
+                if np.count_nonzero(dgp == 0) > 1 or (arrows and np.count_nonzero(dap == 0) > 1): #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
                     exit()
 
-- 
2.43.0


From 3e848026a3b218c2812f4cfeeb5f85efaf8daa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 03/49] fix: permute the basis by the rotation itself when
 finding the unique HNFs

---
 phenum/HNFs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index ffed7b9..e2154fd 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -151,7 +151,7 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
                  .format(" ".join([str(p) for p in temp_basis[i]]),
                          " ".join([str(p) for p in b_vecs])))
         
-    base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps)
+    base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps,inverse=False)
 
     (hnfs,fix_ops,rp_list,degens) = remove_duplicate_lattices(hnfs,pLV,base_vecs,
                                                                    base_perms,eps_=eps)
-- 
2.43.0


From f2c0a5666af575f2931d64acbe6cce16f1b329e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/49] fix: list each operation of the supercell group once

Two rotations that differ by a lattice translation (an atom off the origin,
a non symmorphic cell) gave the same coset twice, so the polya average over
the list was weighted wrongly.
---
 phenum/grouptheory.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 9300237..5e47feb 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -704,6 +704,21 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 # RPlist(iH)%perm are equivalent to pure translations only.
                 # The following entries are a combination of both.
 
+        # Rotations whose permutations differ by a lattice translation
+        # have given the same operations, each operation is in the group once.
+        found = set()
+        unique_ops = []
+        for iOp in range(rp_list_nl):
+            op = tuple(rp_list_perm_sites[iOp])
+            if arrows:
+                op += tuple(rp_list_perm_arrows[iOp])
+            if op not in found:
+                found.add(op)
+                unique_ops.append(iOp)
+        rp_list_nl = len(unique_ops)
+        rp_list_perm_sites = [rp_list_perm_sites[iOp] for iOp in unique_ops]
+        rp_list_perm_arrows = [rp_list_perm_arrows[iOp] for iOp in unique_ops]
+
         RPlist[iH].perm.site_perm = rp_list_perm_sites
         if arrows: 
             RPlist[iH].perm.arrow_perm = rp_list_perm_arrows
-- 
2.43.0


From 6fb84153d4c3f9758e5cb020f9e640d09227686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 05/49] fix: visit the colorings below a superperiodic one

With four or more species a superperiodic first leaf ended its whole branch,
so the structures below it were never listed.
---
 phenum/tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..c79aea4 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -404,6 +404,10 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                         trans_branch.append(brancht[act])
                     if trans_branch == brancht and action != list(range(int(cellsize))):
                         unique = 1
+                        # The other colorings below this branch still
+                        # have to be visited.
+                        if i < len(branch) - 2:
+                            b0 = 0
                         if use_subset:
                             if count in subset:
                                 loc = subset.index(count)
-- 
2.43.0


From dc2f33c08dcb2c53b5f6e7a6a77b32194782281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/49] fix: find the interior points of a supercell with exact
 integers

The limits of the innermost loop were truncated floats, wrong when they are
negative or land just below an integer, and the points then miscounted.
---
 phenum/vector_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..60832e7 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -100,8 +100,10 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     for iD in range(0, n_d):  
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
-            for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+            z2_min = (b*z1)//a
+            for z2 in range(z2_min, c+z2_min):
+                z3_min = (z1*(d*c-e*b)+a*e*z2)//(a*c)
+                for z3 in range(z3_min, f+z3_min):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 37eb77990ffda13000fbdccd70181811682271ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 07/49] fix: displace the atoms of a POSCAR along their own
 arrows

The arrow of another site was used, with a table of directions other than the
one the enumeration acts on, and the cartesian displacement was added to
direct coordinates.
---
 phenum/io_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..0ca2b4c 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -337,7 +337,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, linalg, matmul
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -351,7 +351,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -367,6 +367,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     for arrow in arrows:
         directions.append(array(arrow_directions[int(arrow)]))
     slv = space_data["sLV"]
+    slv_inv = linalg.inv(slv)
     with open(filename,"w+") as poscar:
         poscar.write(title)
         poscar.write("{0:.2f}\n".format(lattice_parameter))
@@ -390,7 +391,9 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
+            # The atoms are written in direct coordinates, the arrows are
+            # cartesian and labeled in the same order as the sites.
+            displace = matmul(directions[g_indx[iAt]]*args["displace"],slv_inv)
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
-- 
2.43.0


From 6634cda4febb5ef35efd2e4760457a9be3d35532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 08/49] fix: displace the atoms of an MTP config along their
 own arrows

The table of directions had no entry for a site without an arrow, so those
were displaced along x and an arrow along -z was out of range, and the arrow
of another site was used.
---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0ca2b4c..576c76b 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -426,7 +426,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
@@ -487,7 +487,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From 8e3e23a24431179117ed93eadbe43ca6ba01eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 09/49] fix: keep the zero concentrations in the POSCAR unless
 asked not to

---
 phenum/phenumStr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..f8064e1 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -198,7 +198,7 @@ def run(args):
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
     else:
-        args["remove_zeors"] = False
+        args["remove_zeros"] = False
 
     _make_structures(args)
         
-- 
2.43.0


From 749d3d559c1f8b2817df1b2e7b10d2be8fb523de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 10/49] fix: do not reduce the cell when -mink f is given

---
 phenum/phenumStr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index f8064e1..9f09631 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -200,6 +200,9 @@ def run(args):
     else:
         args["remove_zeros"] = False
 
+    if args["mink"] == "f":
+        args["mink"] = False
+
     _make_structures(args)
         
 if __name__ == '__main__':
-- 
2.43.0


From 248845b32457d9dd195a6553f3888e9631d21f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 11/49] fix: count with integers in the polya enumeration

Above 2**53 the floats used for the binomials and for the average over the
group no longer hold the exact number of structures.
---
 phenum/polyaburnside.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..68d835f 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return int(rad)//len(group)
-- 
2.43.0


From 9b0e909fab79697b555c1e458c631297e017ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 12/49] fix: keep the binomial and multinomial coefficients
 from overflowing

The 64 bit integers numpy multiplies wrap around silently.
---
 phenum/numerics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..b2ce19f 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -42,6 +42,7 @@ def binomial_coefficient(n, k):
         return 0
     if k==0 and n == 0:
         return 1
+    n, k = int(n), int(k)
     t = 1
     if k < n-k:
         for i in range(n, n-k, -1):
@@ -68,4 +69,7 @@ def multinomial(n):
     for b in binomials:
         bins.append(binomial_coefficient(b[0],b[1]))
     
-    return np.prod(bins)
+    product = 1
+    for b in bins:
+        product *= b
+    return product
-- 
2.43.0


From 2b1bc87c7a4a34c98599700b5ff2ecdd02f05900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 13/49] fix: scale each concentration range by its own
 denominator

The denominator of the first species was used for all of them, which dropped
allowed concentrations when the denominators differ.
---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..67ef363 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,11 +33,11 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
+            denom = atom[2]
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
 
         n = vol_table[0][2]
-- 
2.43.0


From 160a6609e8fc4fe0c75fbf9ad464a42d5668165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 14/49] fix: give lead its volume, which was listed for
 palladium

---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From e49c0d67c7af0d92fd8713ca135f86b23f268d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 15/49] fix: filter the distribution by the concentrations of
 all the species

Only the first two concentrations were read from the filter file, and the
totals per shape were those without the filter.
---
 phenum/structures.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..a8eb0f3 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -322,9 +322,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                stotals[tuple(HNF)] = sum(vs)
 
         dataset[s] = {
             "distr": distr,
@@ -453,7 +451,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:-1]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From d6286b6d1b057d6e5cc5c0872946aaaa1abf1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 16/49] fix: return exactly the number of structures asked of a
 distribution

The last draw could overshoot the total, the draws could stop short of it,
and more structures could be assigned to a type than it has.
---
 phenum/structures.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index a8eb0f3..5199ef1 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            # Take no more than are missing, or than there are of this type.
+            value = min(value, n-rtotal[0], limit-result.get(key,0))
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -119,13 +121,15 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
-            if recount == 3 and rtotal[0] < n: #pragma: no cover
-                from .msg import warn
-                warn("Reached maximum recursion limit in random assignment.")
+            # The draws can still fall short, take the rest from the
+            # most abundant types.
+            for key, value, limit in relvals:
+                if not vinsert(key, limit, limit, rtotal, n, result):
+                    break
                 
     #First, compile a dictionary at the lowest level that has the weights
     #for the desired value of 'n'.
-- 
2.43.0


From 5253515d1dc54cedd233943669c2f3d5b0c70d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 17/49] fix: do not lose an arrow to the rounding of the arrow
 fraction

---
 phenum/phonons.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..873a29f 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -322,7 +322,9 @@ def arrow_concs(cList,aconcs):
     Returns:
         decoration_w_arrows (list): The labeling of both colors and arrows.
     """
-    aconcs = [int(cList[i]*aconcs[i]) for i in range(len(cList))]
+    # the small number keeps a product such as 50*0.58, which falls just
+    # below 29, from losing an arrow.
+    aconcs = [int(cList[i]*aconcs[i] + 1e-10) for i in range(len(cList))]
     
     decoration_w_arrows = []
     labels = range(1,len(cList)+1)
-- 
2.43.0


From 8404e88205f7e1b67afe5c39dc1103166e3023a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 18/49] fix: sample the arrows of a large cell of a single
 species

---
 phenum/phonons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 873a29f..24ad7df 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -400,6 +400,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     from phenum.tree import brancher, guess_and_check_brancher
     import phenum.io_utils as io
 
+    subset = []
     cellsize = sum(concs)/len(params["basis_vecs"])
     decorations = arrow_concs(concs, a_concs)
     # get the symmetry group for this HNF. Assumes the group can be
-- 
2.43.0


From 05c99290ae78baf895cfdb14b454bcce0fdedc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 19/49] fix: place the arrows of a partly displaced single
 species on every set of sites

---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 24ad7df..8a30207 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -463,7 +463,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and len(sorted_concs) == 1:
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From 149c1c59d70ad6837ab630a98cefb61ad91f90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 20/49] fix: end the random search for arrows when every
 arrangement was visited

---
 phenum/phonons.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 8a30207..f6f34a0 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -220,13 +220,14 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
             orighash += 1
     else:
         from random import randrange
-        visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        visited = set()
+        orighash = randrange(maxpossible+1)
+        # once every arrangement was visited there are no more to find.
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
-            visited.append(orighash)
+            visited.add(orighash)
             
             arrow_config = _ainvhash(orighash,narrows,dim)
             unique = True
@@ -285,13 +286,17 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        orig_sites = [i[1] for i in coloring_with_arrows]
-                        perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
-                            #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                            orig_sites = [i[1] for i in coloring_with_arrows]
+                            arrow_sites = [i[0] for i in coloring_with_arrows]
+                            perm_sites = [orig_sites[i] for i in action]
+                            rot_arrows = [arrow_sites[i] for i in action]
+                            perm_arrows = [permutation[site] for site in rot_arrows
+                                           if site >= 0]
+                            if orig_sites == perm_sites and perm_arrows == arrow_config: #pragma: no cover
+                                #This happens rarely and so it's really hard to access in tests.
+                                unique = False
+                                break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
-- 
2.43.0


From 59037c46dbdfaff7f8aa6ff2e9bb510b2d960605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 21/49] fix: compare the sites of the arrows when looking for
 superperiodic structures

---
 phenum/phonons.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index f6f34a0..c869b18 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
@@ -291,9 +291,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config: #pragma: no cover
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites: #pragma: no cover
                                 #This happens rarely and so it's really hard to access in tests.
                                 unique = False
                                 break
-- 
2.43.0


From 78fe6a67278760bf21a99a34f9c5bc756ed4a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 22/49] fix: do not return equivalent structures from the
 random search, nor search forever

---
 phenum/tree.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index c79aea4..e52cf52 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -597,25 +597,36 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
         pbar = tqdm(total=num_wanted)
 
     survivors = []
-    visited = []
+    visited = set()
+    # the configurations that were picked.
+    seen = set()
+    # the number of configurations there are to pick from.
+    navailable = 1
+    for c_i in C:
+        navailable *= c_i
 
     nfound = 0
-    while len(survivors) < num_wanted:
+    # once every configuration was visited there are no more to find.
+    while len(survivors) < num_wanted and len(visited) < navailable:
         candidate = []
         # pick a random configuration to check against.
         for c_i in C:
             candidate.append(randint(0,c_i-1))
 
-        while candidate in visited:#pragma: no cover
+        while tuple(candidate) in visited:#pragma: no cover
             #This happens rarely and so it's really hard to access in tests.
             candidate = []
             for c_i in C:
                 candidate.append(randint(0,c_i-1))
 
-        visited.append(candidate)
+        visited.add(tuple(candidate))
         unique = True
+        # the operations that leave the configuration alone, they can
+        # still change its arrows.
+        stabilizers = []
 
         config = list(_invhash(candidate,concs,sum(concs)))
+        seen.add(tuple(config))
         for perms in group:
             perm = perms[0]
 
@@ -624,13 +635,13 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
-            new_location = _hash(new_config)
-
-            if new_location in visited and new_location != candidate: #pragma: no cover
+            if new_config == config:
+                stabilizers.append(perms)
+            elif tuple(new_config) in seen: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
                 unique = False
                 break
-	    
+
         # if there are no arrows and we don't want to store
         # superperiodic structures then we need to see if any
         # translations operations are stabilizers of the
@@ -654,7 +665,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                arsurvivors = add_arrows(t_config, stabilizers, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted - len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From 7c5632c7a61a19b5693f62f6048a5584919f2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 23/49] fix: let the tree accept structures at random when
 their number is given

---
 phenum/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index e52cf52..6931750 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -384,7 +384,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
                                 or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+                                or (accept is not None and isinstance(subset, int) and len(survivors) < subset)):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
@@ -409,7 +409,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                         if i < len(branch) - 2:
                             b0 = 0
                         if use_subset:
-                            if count in subset:
+                            if isinstance(subset, list) and count in subset:
                                 loc = subset.index(count)
                                 nv = count
                                 while nv in subset and nv < reduce(mul,C,1):
-- 
2.43.0


From af90f595c65575299d26c3be178f82da5775ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 24/49] fix: read a lattice.in with blank lines or repeated
 spaces

---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 576c76b..0cfae62 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -36,9 +36,9 @@ def read_lattice(filename='lattice.in'):
     """
     from .msg import info
     with open(filename,'r') as f:
-        lines = [l for l in f.readlines() if l.strip()[0] != '#']
+        lines = [l for l in f.readlines() if l.strip() and l.strip()[0] != '#']
         
-    sizes = [int(el) for el in lines[0].split(' ')]
+    sizes = [int(el) for el in lines[0].split()]
     bulk = lines[1].strip()[0].lower() == 'b'
     lat_vecs = [list(map(float, l.split())) for l in lines[2:5]]
     nspecies = int(lines[5])
-- 
2.43.0


From 41c97da36b2e6b45ab2012642be1d39f6a990eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 25/49] fix: write the basis that the labelings were found for

---
 phenum/enumeration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4132de6..f776808 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -136,6 +136,9 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
+    from phenum.symmetry import bring_into_cell
+    from numpy import transpose
+    from numpy.linalg import inv
     from os.path import isfile
     from glob import glob
     from copy import deepcopy
@@ -164,6 +167,11 @@ def _enum_out(args):
         _enum_in(temp_args)
             
     systems = io.read_enum(args["input"])
+    # The labelings are found for a basis that is inside of the cell,
+    # the one in the output file has to be the same.
+    latt_to_cart = transpose(params["lat_vecs"])
+    params["basis_vecs"] = [bring_into_cell(b_vec,inv(latt_to_cart),latt_to_cart,1E-10)
+                            for b_vec in params["basis_vecs"]]
     io.write_enum(params, outfile=args["outfile"])    
 
     count_t = 1
-- 
2.43.0


From a84bef323a1795939cf9cefc9055279820ad0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 26/49] fix: read counts that are too large for a fixed size
 integer from the polya tables

---
 phenum/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 5199ef1..84f013e 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -291,7 +291,8 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         with open(source) as f:
             headings = f.readline().split()
             concs = [tuple(map(int, h.split(":"))) for h in headings[2:-1]]
-        polya = loadtxt(source, int)
+        # the counts can be too large for a fixed size integer.
+        polya = loadtxt(source, dtype=object, converters=int, ndmin=2)
         distr = {}
 
         if HNFs is None and wanted_concs is None:
-- 
2.43.0


From c72f6facdc0a817b533aaf740145fd6ba4bd9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 27/49] fix: keep the primitive cell of a single species

---
 phenum/phonons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index c869b18..4ad4e90 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -201,7 +201,7 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                        if action != list(range(len(action))) or (list(permutation) != list(range(len(permutation)))):
                             orig_sites = [i[1] for i in coloring_with_arrows]
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
@@ -286,7 +286,7 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                        if action != list(range(len(action))) or (list(permutation) != list(range(len(permutation)))):
                             orig_sites = [i[1] for i in coloring_with_arrows]
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
-- 
2.43.0


From 9ee07d0542b5ac3b4794e10f7da0e941d739aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 28/49] fix: allow for a filter or a lattice.in that leaves
 nothing to enumerate

---
 phenum/enumeration.py | 1 +
 phenum/structures.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index f776808..23eeaf7 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -185,6 +185,7 @@ def _enum_out(args):
     
     with open(args["outfile"], 'a') as f:
         enumlist = []    
+        sortenum = []
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 from tqdm import tqdm 
diff --git a/phenum/structures.py b/phenum/structures.py
index 84f013e..e76e5bb 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -70,6 +70,9 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         n = gtotal
 
     result = {}
+    if gtotal == 0:
+        # no structures are left to distribute, there are no weights either.
+        return result
     rtotal = [0]
     def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
-- 
2.43.0


From b2af3d09986dd4b829b47f307c9b8c36c120c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 29/49] fix: use the polya tables in the order of the cell
 sizes

---
 phenum/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index e76e5bb..c9dfcfe 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -436,6 +436,8 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
             if form in f and f[0]==form[0]:
                 sizes.append(int(f.split(".")[-1]))
                 ready = True
+        # the order in which the files are listed differs between systems.
+        sizes.sort()
 
     else:
         for i in sizes:
-- 
2.43.0


From afc5dbb232068d778e6fde6d7053be9a2a702e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 30/49] fix: complete the group of a single generator

---
 phenum/grouptheory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 5e47feb..18d7b03 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -896,6 +896,9 @@ def _group(gen): # pragma: no cover
                 # every time d is not in group i add it
                 if d not in groupi:
                     groupi.append(d)
+    # a single generator has no others to be combined with
+    if len(groupi) == 0:
+        groupi.append(gen[0])
     # new is a tracker that is 0 while we are still finding new group
     # elements and 1 when no new ones are found
     new = 0
-- 
2.43.0


From e3a7d6a4e42535d75d8445e00c9ef1ee8cc31bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 31/49] fix: default output files of combined modes

---
 phenum/enumeration.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 23eeaf7..e9babdd 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -360,9 +360,11 @@ def _script_enum(args, testmode=False):
     from phenum.base import set_testmode
     set_testmode(testmode)
     if args["polya"]:
-        #Perform validation for running polya.
+        #Perform validation for running polya. The other modes have default
+        #output files of their own.
+        polya_args = dict(args)
         if args["outfile"] == None:
-              args["outfile"] = "polya.out"
+              polya_args["outfile"] = "polya.out"
         if not path.isfile(args["lattice"]):
             raise IOError("The input file {} does not exist.".format(args["lattice"]))
             
@@ -391,7 +393,7 @@ def _script_enum(args, testmode=False):
         raise ValueError(u"'-acceptrate' is to be a float less than 1.")
 
     if args["polya"]:
-        _polya_out(args)
+        _polya_out(polya_args)
     if args["enum"] or (args["enum"] and args["distribution"]):
         _enum_out(args)
     if args["distribution"] and not args["enum"]:
-- 
2.43.0


From a79c4a94f6c69a2db606af6f41d5b53cef3043e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 32/49] fix: end after the examples were printed

---
 phenum/enumeration.py | 7 +++++--
 phenum/phenumStr.py   | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index e9babdd..b97f9d6 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -403,8 +403,11 @@ def _script_enum(args, testmode=False):
         
 if __name__ == '__main__':
     args = _parser_options()
-    
-    if args["profile"]:
+
+    if args is None:
+        # the examples were asked for.
+        pass
+    elif args["profile"]:
         from vprof import profiler
         profiler.run(_script_enum, args["profile"], args=(args,), host='localhost', port=8000)
     else:
diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 9f09631..c579f91 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -206,4 +206,7 @@ def run(args):
     _make_structures(args)
         
 if __name__ == '__main__':
-    run(_parser_options())
+    args = _parser_options()
+    # there are no arguments if the examples were asked for.
+    if args is not None:
+        run(args)
-- 
2.43.0


From dde01e7277948dbafcea5fdcd671ca7863ed933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 33/49] fix: a row of enum.in that asks for no structures gets
 none, not all of them

---
 phenum/phonons.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 4ad4e90..9a6770d 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -405,6 +405,10 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     from phenum.tree import brancher, guess_and_check_brancher
     import phenum.io_utils as io
 
+    if num_wanted < 1:
+        # An empty subset would stand for all of the structures below.
+        return []
+
     subset = []
     cellsize = sum(concs)/len(params["basis_vecs"])
     decorations = arrow_concs(concs, a_concs)
-- 
2.43.0


From 77b3e824eb2086f95fd3636252df66942372252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 34/49] fix: only the tables of the given name are taken for a
 distribution, not any file with a similar name

---
 phenum/structures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index c9dfcfe..1ecc6f6 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -429,12 +429,12 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
     files = listdir(".")
     if sizes is None:
         sizes = []
-        form = infile
+        form = infile + "."
 
         ready = False
         for f in files:
-            if form in f and f[0]==form[0]:
-                sizes.append(int(f.split(".")[-1]))
+            if f.startswith(form) and f[len(form):].isdigit():
+                sizes.append(int(f[len(form):]))
                 ready = True
         # the order in which the files are listed differs between systems.
         sizes.sort()
-- 
2.43.0


From 7ea17a351a481d1c75ef885d4dca16a3849f8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 35/49] fix: look for the tables by their numbers, not for any
 file with a similar name

---
 phenum/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index b97f9d6..ca2f11c 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -28,7 +28,7 @@ def _enum_in(args):
     from glob import glob
     from copy import deepcopy
 
-    if not len(glob(args["input"]+".*")) >= 1:
+    if not len(glob(args["input"]+".[0-9]*")) >= 1:
         temp_args = deepcopy(args)
         temp_args["outfile"] = args["input"]
         _polya_out(temp_args)
@@ -152,7 +152,7 @@ def _enum_out(args):
     params = io.read_lattice(args["lattice"])
 
     if not isfile(args["input"]):
-        if not len(glob("polya.out.*")) >= 1:
+        if not len(glob("polya.out.[0-9]*")) >= 1:
             temp_args = deepcopy(args)
             temp_args["outfile"] = "polya.out"
             _polya_out(temp_args)
-- 
2.43.0


From 728f3512ef7bcf5f1338053f1561167b53d31c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 36/49] fix: a subset without superperiodic structures is as
 large as asked for when there are enough others

---
 phenum/tree.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/phenum/tree.py b/phenum/tree.py
index 6931750..8b0b453 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -358,6 +358,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     from numpy import zeros
     branch = zeros(len(C))
     survivors = []
+    # the latest unique configurations that are not in the subset, they
+    # make up for superperiodic ones that were.
+    spare = []
 
     #variables used for iteration and as test criteria for
     #navigating the tree
@@ -456,6 +459,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                                     survivors.append(z) # are too large for unit testing purposes.
                                 else:
                                     survivors.append(z)
+                            elif isinstance(subset, list) and accept is None and not supers:
+                                spare.append(z)
+                                del spare[:-len(subset)]
                         count += 1
                 else:
                     # if there are no arrows just
@@ -479,6 +485,11 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                                 tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
                                 tbranch = [colors[leaf -1][1] for leaf in tbranch]
                                 survivors.append([[-1,leaf] for leaf in tbranch])
+                        elif isinstance(subset, list) and accept is None and not supers:
+                            tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
+                            tbranch = [colors[leaf -1][1] for leaf in tbranch]
+                            spare.append([[-1,leaf] for leaf in tbranch])
+                            del spare[:-len(subset)]
 
                     count += 1
             # if we aren't on the last contributing level
@@ -547,6 +558,9 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 pbar.update(1)
 
+    if len(spare) > 0 and len(survivors) < len(subset):
+        survivors.extend(spare[len(survivors)-len(subset):])
+
     if verbosity is not None and verbosity >= 1: #pragma: no cover
         pbar.close()
     # done
-- 
2.43.0


From 6e090b886853e4fc1ef0c52924dea36cd1777e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 37/49] fix: make the axes of the pictures in the way
 matplotlib still knows

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index d5b2f80..3705aa8 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -76,7 +76,7 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 za = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xa,ya,za,zdir='z',c='red',s=1000)
@@ -162,7 +162,7 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 zf = [atom[2] for atom in atoms]
 
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(projection='3d')
                 ax.set_aspect('equal')
                 ax.set_axis_off()
                 ax.scatter(xf,yf,zf,zdir='z',c='red',s=1000)
-- 
2.43.0


From 189a7edb90a4a8592114cd7c4645cb0bf7b06e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 38/49] fix: draw the pictures in the lattice of lattice.in,
 not in its transpose

---
 phenum/visualize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 3705aa8..36e8eb0 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -201,17 +201,19 @@ def _convert_read_lat_to_system_dat(lattice):
         system_data (dict): A dictionary of the system data with keys:
           "title": The system title.
           "bulksulf": Is this a surface or bulk system.
-          "plattice": The parent lattice vectors as rows of a matrix.
+          "plattice": The parent lattice vectors as columns of a matrix.
           "nD": The number of atoms in the system.
           "dvecs": The atomic basis vectors.
           "k": The number of atomic species in the system.
           "eps": Finite precision tolerance.
     """
 
+    from numpy import transpose
+
     system_data = {
         "title": "HNF plotter",
         "bulksurf": lattice["bulk"],
-        "plattice": lattice["lat_vecs"],
+        "plattice": transpose(lattice["lat_vecs"]),
         "nD": 0,
         "dvecs": lattice["basis_vecs"],
         "k": lattice["nspecies"],
-- 
2.43.0


From af5e0b5f7952e59d3b9ff3ed09af253a4c55d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 39/49] fix: draw crystals with several sites too

---
 phenum/visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 36e8eb0..7b555f4 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -48,8 +48,8 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
                 system["nD"] = len(system["dvecs"])
+                structure["labeling"] = "0"*(structure["n"]*system["nD"])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
                 # the corners of the polyhedron except the origin.
@@ -149,8 +149,8 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                 structure["diag"] = [SNF[0][0],SNF[1][1],SNF[2][2]]
                 structure["L"] = L
                 structure["n"] = reduce(mul,structure["diag"],1)
-                structure["labeling"] = "".join(["0" for i in range(structure["n"])])
                 system["nD"] = len(system["dvecs"])
+                structure["labeling"] = "0"*(structure["n"]*system["nD"])
                 space_data = map_enumStr_to_real_space(system,structure,True)
                 space_data["aBas"] = cartesian2direct(space_data["sLV"],space_data["aBas"],system["eps"])
                 atoms = []
-- 
2.43.0


From c022cc010a6987fc31e3eedfaa4401b8b630a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 40/49] fix: keep as many of a million arrangements or more as
 asked for, not all of them

---
 phenum/phonons.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 9a6770d..5c6a1ab 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -459,6 +459,14 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
                 subset = list(range(1, total+1)) 
                 shuffle(subset)
                 subset = subset[0:num_wanted]
+            elif accept is None: # pragma: no cover
+                # Without a rate of acceptance they are picked by number, the
+                # list of all the numbers would be too long.
+                from random import randrange
+                picked = set()
+                while len(picked) < num_wanted:
+                    picked.add(randrange(1, total+1))
+                subset = list(picked)
             else: # pragma: no cover
                 # only used for data sets to large for test cases.
                 subset = num_wanted
-- 
2.43.0


From 4e855576a1676222d6296e1462d133e8d588d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 41/49] fix: return no more arrangements than asked for when a
 rate of acceptance is given

---
 phenum/tree.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 8b0b453..b55374b 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -455,10 +455,8 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                             if subset is not None and isinstance(subset, list) and count in subset:
                                 survivors.append(z)
                             elif accept is not None and random() < accept and not isinstance(subset,list): #pragma: no cover
-                                if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
+                                if subset is None or len(survivors) < subset: #This option is only for large data sets that
                                     survivors.append(z) # are too large for unit testing purposes.
-                                else:
-                                    survivors.append(z)
                             elif isinstance(subset, list) and accept is None and not supers:
                                 spare.append(z)
                                 del spare[:-len(subset)]
-- 
2.43.0


From 614cbd5ff2658147084598d52d5ffc6884c5bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 42/49] fix: give the pictures of different cells different
 names

---
 phenum/visualize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index 7b555f4..01e2873 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -106,7 +106,10 @@ def HNF_shapes(enum,lattice,show,testmode=False):
                     ax.plot([xb],[yb],[zb],'w')
 
                 if not testmode: # pragma: no cover
-                    fig.savefig("{}.pdf".format("".join([str(i) for i in hnf_name])))
+                    # numbers of several digits are kept apart, other cells
+                    # would have the same name.
+                    sep = "_" if max(hnf_name) > 9 else ""
+                    fig.savefig("{}.pdf".format(sep.join([str(i) for i in hnf_name])))
                 if show and not testmode: #pragma: no cover
                     plt.show()
                 else:
@@ -177,7 +180,10 @@ def HNF_atoms(enum,lattice,show,testmode=False):
                     ax.plot([xb],[yb],[zb],'w')
 
                 if not testmode: #pragma: no cover
-                    fig.savefig("{}.pdf".format("".join([str(i) for i in hnf_name])))
+                    # numbers of several digits are kept apart, other cells
+                    # would have the same name.
+                    sep = "_" if max(hnf_name) > 9 else ""
+                    fig.savefig("{}.pdf".format(sep.join([str(i) for i in hnf_name])))
                 if show and not testmode:#pragma: no cover
                     plt.show()
                 else:
-- 
2.43.0


From e89ad4bdc9446c2b3661d220a8d14c2244ebc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 43/49] fix: keep the columns of the polya tables apart when
 counts have 50 digits or more

---
 phenum/enumeration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index ca2f11c..1a4edec 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -109,15 +109,15 @@ def _polya_out(args):
                     else:
                         total_num = polya(conc, agroup)
 
-                    out.write("{0: <50d}".format(total_num))
+                    out.write("{0: <49d} ".format(total_num))
                     total += total_num
                     conc_totals[iconc] += total_num
             out.write('{0: <10d}\n'.format(total))
         out.write("# " + ''.join(['-' for i in range(len(c_list)*10 + 10 + 30)]) + '\n')
         out.write("{0: <28}".format("  0 0 0 0 0 0"))
         for ctotal in conc_totals:
-            out.write("{0: <50d}".format(ctotal))
-        out.write("{0: <50d}\n".format(sum(conc_totals)))
+            out.write("{0: <49d} ".format(ctotal))
+        out.write("{0: <49d} \n".format(sum(conc_totals)))
         out.close()
         
 # check which files are present to see if we are finding the HNFs with
-- 
2.43.0


From 83ce991e13257290811239a3cb67d049460852f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:39 +0000
Subject: [PATCH 44/49] fix: apply the rate of acceptance once to arrangements
 with displaced atoms

---
 phenum/tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index b55374b..122bdec 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -441,8 +441,11 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                         brancht[z] = deepcopy(colors[leaf_z -1])
                     # add_arrows from the phonon_brancher code returns
                     # the unique configurations with the unique arrow
-                    # arrangements
-                    arsurvivors = add_arrows(brancht,ast, dim, group[0:int(cellsize)], accept, True,supers=supers)
+                    # arrangements, without a list of those wanted they
+                    # are accepted below.
+                    arsurvivors = add_arrows(brancht,ast, dim, group[0:int(cellsize)],
+                                             accept if isinstance(subset, list) else None,
+                                             True,supers=supers)
                     #write the unique confgurations to file.
                     for z in arsurvivors:
                         # if we aren't using a subset write everything
-- 
2.43.0


From e7fbc07b5ff464b6c022ca1d38e5be119469254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 45/49] fix: run verbosely without tqdm, which is not among the
 requirements

---
 phenum/enumeration.py |  4 ++--
 phenum/msg.py         | 19 +++++++++++++++++++
 phenum/phonons.py     |  4 ++--
 phenum/tree.py        |  8 ++++----
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 1a4edec..8d4d018 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -188,8 +188,8 @@ def _enum_out(args):
         sortenum = []
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
-                from tqdm import tqdm 
-                pbar = tqdm(total=len(systems))
+                from phenum.msg import progress
+                pbar = progress(total=len(systems))
             (SNF,L,R) = SmithNormalForm(get_full_HNF(hnf))
             SNF = [SNF[0][0],SNF[1][1],SNF[2][2]]
             LT = [item for row in L for item in row]
diff --git a/phenum/msg.py b/phenum/msg.py
index 151210e..a157f61 100644
--- a/phenum/msg.py
+++ b/phenum/msg.py
@@ -149,3 +149,22 @@ def std(msg, level=1):
     """Prints using the standard print() function."""
     if will_print(level):
         print(msg)
+
+class _NoProgress(object):
+    """Takes the place of the progress bar if tqdm isn't installed."""
+    def update(self, n=1):
+        pass
+
+    def close(self):
+        pass
+
+def progress(total):
+    """Returns a progress bar, it stays invisible if tqdm isn't installed.
+
+    :arg total: the number of steps until the end.
+    """
+    try:
+        from tqdm import tqdm
+    except ImportError:
+        return _NoProgress()
+    return tqdm(total=total)
diff --git a/phenum/phonons.py b/phenum/phonons.py
index 5c6a1ab..a5c8fc0 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -128,13 +128,13 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     maxpossible = _ahash(largest_arrow,dim)
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1 and not nested: #pragma: no cover
-        from tqdm import tqdm 
+        from phenum.msg import progress
         #If accept is specified, then we should get on average that many out.
         if num_wanted is not None:
             ntotal = num_wanted
         else:
             ntotal = maxpossible
-        pbar = tqdm(total=ntotal)
+        pbar = progress(total=ntotal)
 
     #this loop runs over every possible configuration of arrows
     #staring from the one with the smallest hash number and ending
diff --git a/phenum/tree.py b/phenum/tree.py
index 122bdec..ce64445 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -373,14 +373,14 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     from random import random
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
-        from tqdm import tqdm
+        from phenum.msg import progress
         if isinstance(subset, list) and len(subset) > 0:
             ntotal = len(subset)
         elif isinstance(subset, int):
             ntotal = subset
         else:
             ntotal = total
-        pbar = tqdm(total=ntotal)
+        pbar = progress(total=ntotal)
     # Now we loop through the different possible hash arrays until
     # they have all been considered
     ncurrent = 0
@@ -608,8 +608,8 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     from random import random, randint
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
-        from tqdm import tqdm
-        pbar = tqdm(total=num_wanted)
+        from phenum.msg import progress
+        pbar = progress(total=num_wanted)
 
     survivors = []
     visited = set()
-- 
2.43.0


From 68f4b7e851d7763463ae1f5009ee4a9e5e806496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 46/49] fix: compare the volumes of rotated cells relative to
 the volume

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 67ef363..22c8df8 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -253,7 +253,7 @@ def get_lattice_pointGroup(a_vecs, eps=1E-10):
     lattpg_op = []
     from itertools import permutations
     for i,j,k in permutations(range(num_rs),3):
-        if (abs(r_lengths[i] - norm_avecs[0]) > eps) or (abs(r_lengths[j] - norm_avecs[1]) > eps) or (abs(r_lengths[k] - norm_avecs[2]) > eps) or (abs(cell_volume - abs(numpy.linalg.det([r_vecs[i],r_vecs[j],r_vecs[k]]))) > eps):
+        if (abs(r_lengths[i] - norm_avecs[0]) > eps) or (abs(r_lengths[j] - norm_avecs[1]) > eps) or (abs(r_lengths[k] - norm_avecs[2]) > eps) or (abs(cell_volume - abs(numpy.linalg.det([r_vecs[i],r_vecs[j],r_vecs[k]]))) > eps*max(1.0,cell_volume)):
             continue
         # Form the new set of "rotated" basis vectors
         new_vectors = [r_vecs[i],r_vecs[j],r_vecs[k]]
-- 
2.43.0


From 7cc3c28916a7e8181a7ae640f2cc02e2f9217e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:49 +0000
Subject: [PATCH 47/49] fix: one character for each site in enum.out, also with
 more than ten species

---
 phenum/io_utils.py     | 15 +++++++++------
 phenum/vector_utils.py |  4 ++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0cfae62..6627285 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -212,15 +212,18 @@ def create_labeling(config):
         label (str): The atomic labeling for the arrangement.
         arrow (str): The arrow directions for the arrangement.
     """
+    from string import digits, ascii_lowercase
+    # Each atom takes one character, the eleventh and later species have letters.
+    species = digits + ascii_lowercase
     label = ''
     arrow =  ''
     if isinstance(config[0],list):
         for i in config:
-            label += str(i[1]-1)
+            label += species[i[1]-1]
             arrow += str(i[0]+1)
     else:
         for i in config:
-            label += str(i-1)
+            label += species[i-1]
             arrow += '0'
     
     return(label,arrow)
@@ -356,7 +359,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
 
     concs = [0]*system_data["k"]
     for atom in range(structure_data["n"]*system_data["nD"]):
-        concs[int(labeling[g_indx[atom]])] += 1
+        concs[int(labeling[g_indx[atom]],36)] += 1
         
     def_title = "{} str #: {}\n".format(str(system_data["title"]),str(structure_data["strN"]))
 
@@ -395,7 +398,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
             # cartesian and labeled in the same order as the sites.
             displace = matmul(directions[g_indx[iAt]]*args["displace"],slv_inv)
             displace += displace*rattle
-            if labeling[g_indx[iAt]] == str(ilab):
+            if int(labeling[g_indx[iAt]],36) == ilab:
                 out_array = array(space_data["aBas"][iAt]) + displace
                 poscar.write(" {}\n".format(
                     "  ".join(["{0: .8f}".format(i) for i in out_array.tolist()])))
@@ -436,7 +439,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     for i in range(system_data["k"]):
         this_conc = 0
         for atom in range(structure_data["n"]*system_data["nD"]):
-            if labeling[gIndx[atom]] == str(i):
+            if int(labeling[gIndx[atom]],36) == i:
                 this_conc += 1
         concs.append(this_conc)
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
@@ -492,7 +495,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
                 displace += displace*rattle
-                if labeling[gIndx[iAt]] == str(ilab):
+                if int(labeling[gIndx[iAt]],36) == ilab:
                     # The final atomic position is the position from
                     # the basis plus the total displacement.
                     out_array = list(array(dot(transpose(sLV),space_data["aBas"][iAt])) + displace)
diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index 60832e7..5356d16 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -141,7 +141,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     spin = []
     if k % 2 == 0:
         for iAt in range(0, n*n_d):
-            i = int(labeling[g_indx[iAt]])
+            i = int(labeling[g_indx[iAt]],36)
             digit = i-k//2 # convert 0..k-1 label to spin variable -k/2..k/2
             x[i] += 1  # Keep track of the concentration of each atom type
             if digit < 0:
@@ -150,7 +150,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
                 spin.append(digit+1) # skip 0 as a spin if k is even
     else:
         for iAt in range(0, n*n_d):
-            i = int(labeling[g_indx[iAt]])
+            i = int(labeling[g_indx[iAt]],36)
             spin.append(i-k//2)
             x[i] += 1 # Keep track of the concentration of each atom type
 
-- 
2.43.0


From 5eb097dd43d805496c67be7a8a8b3d8bce462c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:02 +0000
Subject: [PATCH 48/49] fix: keep the numbers of enum.out apart in cells of 100
 or more

The columns of the SNF and of the HNF held three digits; in larger cells the numbers ran together and makeStr.py could not read the file.
---
 phenum/enumeration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 8d4d018..9331771 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -181,6 +181,8 @@ def _enum_out(args):
             "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
+        # wider columns keep numbers of n digits or more apart.
+        n = max([n]+[len(str(i))+1 for i in l])
         return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
-- 
2.43.0


From ce8d41dadb88a4425b81f26f6d6d4f2da1e622fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:54 +0000
Subject: [PATCH 49/49] fix: leave out the operations that turn the surface
 away wherever LatDim is 2

get_sym_group and get_HNFs left them out of the permutations of the sites but not of the rotations, and failed. The plane of the surface may also have a basis whose third vector is not along z.
---
 phenum/HNFs.py        | 10 +++++++---
 phenum/grouptheory.py |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index e2154fd..e7c6a3d 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -51,7 +51,7 @@ def find_all_HNFs(n):
 
     return hnfs
 
-def remove_duplicate_lattices(hnfs,pLV,base_vecs,base_perms,eps_=None):
+def remove_duplicate_lattices(hnfs,pLV,base_vecs,base_perms,eps_=None,LatDim=3):
     """Removes symmetrically equivalent lattices from the list of possible lattices.
 
     Args:
@@ -60,6 +60,7 @@ def remove_duplicate_lattices(hnfs,pLV,base_vecs,base_perms,eps_=None):
         base_vecs (array-like): The atomic basis vectors.
         base_perms (RotPermList): Permutations of the basis vectors.
         eps_ (float optional): Floating point tollerance.
+        LatDim (int, optional): 3 if bulk, 2 if surf.
 
     Returns:
         (uhnfs, fix_ops, rp_list, degeneracy): uhnfs is an array-like list of unique HNFs,
@@ -69,7 +70,7 @@ def remove_duplicate_lattices(hnfs,pLV,base_vecs,base_perms,eps_=None):
     """
 
     from .symmetry import get_spaceGroup
-    from .grouptheory import _is_equiv_lattice, _get_sLV_fixing_operations
+    from .grouptheory import _is_equiv_lattice, _get_sLV_fixing_operations, _rm_3D_operations
 
     if eps_:
         eps = eps_
@@ -79,6 +80,9 @@ def remove_duplicate_lattices(hnfs,pLV,base_vecs,base_perms,eps_=None):
     a_type = [1]*len(base_vecs)
 
     (rots, shifts) = get_spaceGroup(pLV,a_type,base_vecs,eps=eps)
+    if LatDim==2:
+        # the same operations as those of base_perms.
+        (rots, shifts) = _rm_3D_operations(pLV,rots,shifts,eps)
     A = np.transpose(pLV)
     
     uhnfs = []
@@ -154,5 +158,5 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
     base_perms = _get_dvector_permutations(pLV,base_vecs,LatDim,eps,inverse=False)
 
     (hnfs,fix_ops,rp_list,degens) = remove_duplicate_lattices(hnfs,pLV,base_vecs,
-                                                                   base_perms,eps_=eps)
+                                                                   base_perms,eps_=eps,LatDim=LatDim)
     return hnfs
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 18d7b03..19ef203 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -770,6 +770,10 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     a_type = [1]*len(bas_vecs)
     
     (sgrots,sgshifts) = get_spaceGroup(par_lat,a_type,bas_vecs,eps)
+    if LatDim==2:
+        # the same operations as those of the permutations above.
+        (sgrots,sgshifts) = _rm_3D_operations(par_lat,sgrots,sgshifts,eps)
+
     (fixing_ops,RPList,degeneracy) = _get_sLV_fixing_operations(HNF,par_lat,sgrots,sgshifts,
                                                                 par_rp_list,eps)
 
@@ -967,7 +971,7 @@ def _rm_3D_operations(aVecs,sgrots,sgshifts,eps):
     """
   
     if not np.allclose(
-            aVecs[0][1:3],0.0,rtol=0, atol=eps) or not np.allclose(aVecs[2][0:2]
+            aVecs[0][1:3],0.0,rtol=0, atol=eps) or not np.allclose([aVecs[1][0],aVecs[2][0]]
                                                                    ,0.0,rtol=0,atol=eps):
         raise ValueError("Error in rm_3d_operations: only allowed for primitive vectors x00,0xx,0xx")
     
-- 
2.43.0

