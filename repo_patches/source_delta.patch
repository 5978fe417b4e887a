From 81e34168f9587e58856df9bf3ee944fa270ae351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 01/47] fix: return *this from the Chebyshev radial basis
 assignment operators (flowing off the end is undefined behaviour)

---
 source/descriptor/mtpr/include/basis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..d808c1e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -250,6 +250,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +280,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -468,6 +470,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +501,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
-- 
2.43.0


From d1240c73cbc79b0dd6b850f49fcbff93bde1193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 02/47] fix: return *this from the ChebyshevPoly and MtpQ
 assignment operators

---
 source/descriptor/mtp/include/mtpMRadial.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..4970972 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -370,6 +370,7 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
     }    
+    return *this;
 }
 
 template <typename CoordType>
@@ -522,6 +523,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +547,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
-- 
2.43.0


From e588f5e9c56a1b47b88052311ef5267fdaabe1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 03/47] fix: return *this from the BasicStructureInfo
 assignment operator

---
 source/nblist/include/binLinkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..30a48f4 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,7 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+    return *this;
 }
 
 
-- 
2.43.0


From 6e05445ada7876a0d699d1ece20faea407173844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 04/47] fix: return *this from the MTP level assignment
 operators

---
 source/descriptor/mtp/src/mtpLevel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
-- 
2.43.0


From cd5203c63160473062f251e93a633be1f86fc35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:41 +0000
Subject: [PATCH 05/47] fix: MtpParam move assignment takes alpha_index_times
 from rhs and returns *this

---
 source/descriptor/mtpr/src/mtpParam.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..7ea5408 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -243,7 +243,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
@@ -256,6 +256,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_moment_mapping = nullptr;
     }
 
+    return *this;
 }
 
 MtpParam::~MtpParam()
-- 
2.43.0


From c63806d844daa1f39a72599482dd05250dd2266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:41 +0000
Subject: [PATCH 06/47] fix: initialise the MtpQ pointers so that a
 default-constructed object can be destroyed

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 4970972..ff4b511 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
-- 
2.43.0


From f596c3fa357a266b35a4a89bd1018b41077f8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:37 +0000
Subject: [PATCH 07/47] fix: Supercell: index of the primitive cell follows the
 atom order of make_supercell

---
 source/nblist/include/binLinkedList.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 30a48f4..c4b2eda 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -473,10 +473,11 @@ void Supercell<CoordType>::calc_prim_cell_idx_xyz() {
  */
 template <typename CoordType>
 void Supercell<CoordType>::calc_prim_cell_idx() {
+    // Same order as `Structure::make_supercell()`: the cell index along z runs fastest.
     this->prim_cell_idx = (
-                this->prim_cell_idx_xyz[0] + 
-                this->prim_cell_idx_xyz[1] * this->scaling_matrix[0] + 
-                this->prim_cell_idx_xyz[2] * this->scaling_matrix[0] * this->scaling_matrix[1]
+                this->prim_cell_idx_xyz[0] * this->scaling_matrix[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[2]
     );
 }
 
-- 
2.43.0


From dd5ecf8b8ba73aab9ea22521f4fe031197ec545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:03 +0000
Subject: [PATCH 08/47] fix: BinLinkedList::get_neigh_bins no longer wraps
 bins, which listed neighbours several times for large bins

---
 source/nblist/include/binLinkedList.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index c4b2eda..10a95d9 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -935,13 +935,10 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
                 
                 //printf("shift_index_%d = [%d, %d, %d]\n", neigh_bin_idx4loop, ii, jj, kk);
 
-                // Step 2.2. 处理 pbc (wrap around)
+                // Step 2.2. `supercell` already contains the periodic images, so bins must not be wrapped around:
+                //           a wrapped bin may coincide with another one, whose atoms would be listed twice.
                 for (int pp=0; pp<3; pp++) {
-                    if (this->pbc_xyz[pp] == false) {   // 无周期性
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
-                    } else {
-                        neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = (candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] + this->num_bin_xyz[pp] ) % this->num_bin_xyz[pp];                        
-                    }
+                    neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp] = candidate_neigh_bin_idxs_xyz[neigh_bin_idx4loop][pp];
                 }
                 //printf("this->num_bins_xyz[%d][3] = [%d, %d, %d]\n", this->num_bin_xyz[0], this->num_bin_xyz[1], this->num_bin_xyz[2]);                
                 //printf("neigh_bin_idxs_xyz[%d][3] = [%d, %d, %d]\n", neigh_bin_idxs_xyz[neigh_bin_idx4loop][0], neigh_bin_idxs_xyz[neigh_bin_idx4loop][1], neigh_bin_idxs_xyz[neigh_bin_idx4loop][2]);
-- 
2.43.0


From 6a623c24984e9838c3d8696ec5a8b6cb8fc6b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:43 +0000
Subject: [PATCH 09/47] fix: BinLinkedList allocates a bin for atoms on the
 upper face of the box (heap overflow)

---
 source/nblist/include/binLinkedList.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 10a95d9..5e1d613 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -614,7 +614,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     this->supercell = supercell;
     CoordType* projected_lengths = (CoordType*)supercell.structure.get_projected_lengths();
     for (int ii=0; ii<3; ii++) {
-        this->num_bin_xyz[ii] = std::ceil( projected_lengths[ii] / this->bin_size_xyz[ii] );
+        this->num_bin_xyz[ii] = std::floor( projected_lengths[ii] / this->bin_size_xyz[ii] ) + 1;   // an atom may lie on the upper face of the box
     }
 
     // Step 3. 计算 `min_limit_xyz`  --  Note!!!!
@@ -671,7 +671,7 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     this->supercell = supercell;
     CoordType* projected_lengths = (CoordType*)supercell.structure.get_projected_lengths();
     for (int ii=0; ii<3; ii++) {
-        this->num_bin_xyz[ii] = std::ceil( projected_lengths[ii] / this->bin_size_xyz[ii] );
+        this->num_bin_xyz[ii] = std::floor( projected_lengths[ii] / this->bin_size_xyz[ii] ) + 1;   // an atom may lie on the upper face of the box
     }
 
     // Step 3. 计算 `min_limit_xyz` -- Note!!!
-- 
2.43.0


From fc6f26dc5f85344cf1e639ecd3bc7a9f4bd8fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:31 +0000
Subject: [PATCH 10/47] fix: se_pair switch is 0 from the cutoff on (value and
 derivative)

---
 matersdk/feature/deepmd/se_pair.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..4e69f69 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -180,6 +180,8 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        # r >= rcut: 0
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d>=rcut, 0, dp_feature_pair_s)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -335,6 +337,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 vv_mask_1,
                 vv_mask_2
         )
+        vv = np.where(self.dp_feature_pair_d>=self.rcut, 0, vv)
         
         ### Step 1.2.4. 根据 dvv_mask_1, dvv_mask_2 计算 dvv
         # shape = (num_centers, num_nbrs)
@@ -342,7 +345,8 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 self.dp_feature_pair_d<self.rcut_smooth,
                 dvv_mask_1,
                 dvv_mask_2
-        )        
+        )
+        dvv = np.where(self.dp_feature_pair_d>=self.rcut, 0, dvv)        
         
         
         ### Step 2. Calculate the derivative of (1/r * vv)
-- 
2.43.0


From e6b2c9877a234823eaae44558d7b9659bd80a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:27 +0000
Subject: [PATCH 11/47] fix: neighbour capacities count atoms at exactly rcut,
 as the neighbour table does

---
 matersdk/io/publicLayer/neigh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..1d29736 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -43,7 +43,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 计算在截断半径内的原子数目
             tmp_num_nbrs = np.count_nonzero(tmp_mark_rcut)
@@ -93,7 +93,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 
             for tmp_element in nbr_elements:
-- 
2.43.0


From 166d1724e48d482f4ca652f7b89f086cc30b2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:27 +0000
Subject: [PATCH 12/47] fix: neighbour index table keeps 0 in padded slots when
 an atom sits at the origin

---
 matersdk/io/publicLayer/neigh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 1d29736..864c5e1 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -183,11 +183,13 @@ class StructureNeighborsUtils(object):
         )
         
         efficient_center_idx = 0    # 记录填写到第几个有效行
+        num_nbrs_lst = []           # 每个有效行的近邻原子数
         for tmp_center in range(key_nbr_coords.shape[0]):
             tmp_mask = mask_tot[tmp_center, :]
             if mask_efficient_rows[tmp_center]:
                 tmp_max_num_nbrs_real = np.count_nonzero(tmp_mask)
                 new_nbr_coords[efficient_center_idx, :tmp_max_num_nbrs_real, :] = key_nbr_coords[tmp_center][tmp_mask][:]
+                num_nbrs_lst.append(tmp_max_num_nbrs_real)
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
@@ -196,7 +198,10 @@ class StructureNeighborsUtils(object):
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
             tmp_neigh_list = []
             for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                if tmp_nbr_idx < num_nbrs_lst[tmp_center_idx]:
+                    tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                else:   # zero-padding
+                    tmp_neigh_list.append(0)
             neigh_list.append(tmp_neigh_list)
         neigh_list = np.array(neigh_list)
         
-- 
2.43.0


From 1d651114570cd7ea4eeb499a05c1be77c1bc9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:27 +0000
Subject: [PATCH 13/47] fix: get_natoms counts species in ascending order of
 atomic number, as documented

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..238ecbe 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -627,7 +627,7 @@ class DStructure(Structure):
             pass
         else:
             # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From 82808d90fea1c5c4b8441803de17d12207f4468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 14/47] fix: reformat_elements moves the coordinates along with
 the species

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 238ecbe..a05c3d9 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -255,7 +255,7 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
-- 
2.43.0


From fc4134004b33511e7e10f2d6c2240ec455d13397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 15/47] fix: remove_vacanies removes the vacancies once, not
 other sites

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index a05c3d9..edfe2c3 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -363,8 +363,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From 78b61d944dbe766f2ec51a985d9d080be72a219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:41 +0000
Subject: [PATCH 16/47] fix: DStructure.from_str uses the methods
 ACstrExtractor has

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index edfe2c3..a5e45d6 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -89,9 +89,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From 41b4610938206fb26f1a355ffa3d25a6aaa19c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:41 +0000
Subject: [PATCH 17/47] fix: ACstrExtractor.get_magmoms indexes the located
 line

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..f645433 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -328,7 +328,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From 9601f7a0ac51ff68de9bc7baa8456517d976e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:41 +0000
Subject: [PATCH 18/47] fix: get_frame_info returns the optional fields in the
 order of get_info_labels

---
 matersdk/io/pwmat/utils/mvextractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..2412f7d 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
-- 
2.43.0


From 399533440d0b4acc508d8def349969ea114834c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:15 +0000
Subject: [PATCH 19/47] fix: AdjacentMatrix rejects even scaling factors, which
 counted neighbours several times

---
 matersdk/feature/graph/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/graph/edge.py b/matersdk/feature/graph/edge.py
index 58563e2..84f2d81 100644
--- a/matersdk/feature/graph/edge.py
+++ b/matersdk/feature/graph/edge.py
@@ -31,9 +31,9 @@ class AdjacentMatrix(object):
         self.scaling_matrix = scaling_matrix
         
         # 确保扩包倍数为奇数
-        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] / 2 != 0) )
-        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] / 2 != 0) )
-        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] / 2 != 0) )
+        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] % 2 != 0) )
+        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] % 2 != 0) )
+        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] % 2 != 0) )
     
     
     def get_adjacent_matrix(self):
-- 
2.43.0


From a0bdcbb13c0d625c99701414c7a53647f96b6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:17 +0000
Subject: [PATCH 20/47] fix: Movement implements what Trajectory requires, so
 it can be instantiated

---
 matersdk/io/publicLayer/traj.py      |  3 +--
 matersdk/io/pwmat/output/movement.py | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/publicLayer/traj.py b/matersdk/io/publicLayer/traj.py
index 03ad87b..4a722c3 100644
--- a/matersdk/io/publicLayer/traj.py
+++ b/matersdk/io/publicLayer/traj.py
@@ -51,6 +51,5 @@ class Trajectory(ABC):
         pass
     
     
-    @abstractmethod
     def get_max_num_nbrs_real(self):
-        pass
\ No newline at end of file
+        raise NotImplementedError
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..70c062d 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -317,5 +317,21 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 获取某一帧的晶胞体积
+        
+        Parameters
+        ----------
+            1. idx_frame: int
+                - 第几帧 (从第 0 帧开始计数)
+        
+        Return
+        ------
+            1. volume: float
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
-- 
2.43.0


From b7dd523fe3baa34e85d21c52cc0d6d55827aa36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:17 +0000
Subject: [PATCH 21/47] fix: Movement.get_frame_energy finds the energies in
 every header format get_all_frame_structures_info reads

---
 matersdk/io/pwmat/output/movement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index 70c062d..81cc392 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,11 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        # 第二个等号前面是Etot,Ep,Ek，后面三个数分别是 Etot, Ep, Ek
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1].strip() )
+        energy_p = float( first_row_lst[equal_1_idx+2].strip() )
+        energy_k = float( first_row_lst[equal_1_idx+3].strip().rstrip(',') )
 
         return energy_tot, energy_p, energy_k
     
-- 
2.43.0


From ede0bddf3f82a95dd5e271f2c78aa4a5b9f5c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:17 +0000
Subject: [PATCH 22/47] fix: get_info_labels spells eatoms

---
 matersdk/io/pwmat/utils/mvextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 2412f7d..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From c5c93bc98db4aa94930ae600448dedb9d65e16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:17 +0000
Subject: [PATCH 23/47] fix: bond angles do not pair a neighbour with itself

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..66fc6d5 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..20827df 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From e11fbdc96e021b2f00e62b4b2cb97235047c8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:17 +0000
Subject: [PATCH 24/47] fix: bond angles of collinear neighbours are not NaN

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 66fc6d5..522d856 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -76,7 +76,7 @@ class AvgAngle(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1, 1)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)    
             return angle_degree
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 20827df..d2f610d 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -190,7 +190,7 @@ class AvgBond(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1, 1)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)
             return angle_degree
-- 
2.43.0


From 2378e2903326d1ac3b0c9ee52ab2023a4ae779be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:08 +0000
Subject: [PATCH 25/47] fix: acextractor reads the file as it is now, not a
 cached earlier version

---
 matersdk/io/pwmat/utils/acextractor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index f645433..77a1361 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,7 +4,6 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
@@ -95,7 +94,8 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        with open(self.atom_config_path, 'r') as f:
+            first_row = f.readline()
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -122,8 +122,10 @@ class ACExtractor(ACExtractorBase):
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
+        with open(self.atom_config_path, 'r') as f:
+            atom_config_content = f.readlines()
         for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+            row_content:List[str] = atom_config_content[row_idx-1].split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
-- 
2.43.0


From 634429a5cc345416fde30001f85350520c66a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:08 +0000
Subject: [PATCH 26/47] fix: outfermi reads the file as it is now, not a cached
 earlier version

---
 matersdk/io/pwmat/output/outfermi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
-- 
2.43.0


From ce62bacef28232eba25e9e160e42b762cd0c68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:08 +0000
Subject: [PATCH 27/47] fix: inkpt reads the file as it is now, not a cached
 earlier version

---
 matersdk/io/pwmat/input/inkpt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..c6512a1 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -42,7 +41,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +59,8 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        with open(self.in_kpt_path, "r") as f:
+            line_2 = f.readlines()[1]
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +75,8 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        with open(self.in_kpt_path, "r") as f:
+            line_1 = f.readline()
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
-- 
2.43.0


From 28742a84f827bbebbbd068f1fc95d8e58604a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:08 +0000
Subject: [PATCH 28/47] fix: report reads the file as it is now, not a cached
 earlier version

---
 matersdk/io/pwmat/output/report.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..f8e7517 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -56,7 +55,8 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        with open(self.report_path, "r") as f:
+            specific_line = f.readlines()[idx_num_bands-1]
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +78,8 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        with open(self.report_path, "r") as f:
+            specific_line = f.readlines()[idx_num_kpts-1]
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +154,8 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        with open(self.report_path, "r") as f:
+            in_atom_name = f.readlines()[idx_inatom-1].split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From e877d8c8503f08a70a99e82f4a0cee9711c29718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:06 +0000
Subject: [PATCH 29/47] fix: merged data sets keep the composition of their own
 formula

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..fa3bfd4 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -93,6 +93,7 @@ class InfoSets(object):
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
                         num_frames_lst.append(tmp_infoset.num_frames)
+                        formula_dict = tmp_infoset.formula_dict
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
                 parameters.update({"types": np.concatenate(types_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From 0bc5cdaeff8271b76cf5898f46ad557030861bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:06 +0000
Subject: [PATCH 30/47] fix: KMesh could not be constructed: from_file takes no
 coords_are_cartesian

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From 3775eec75106062a398ee6a10c8328d083ac334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:06 +0000
Subject: [PATCH 31/47] fix: gen.kpt: the number of points follows the length
 of the segment and is an integer

---
 matersdk/calculation/kpath/kpathSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..b501d22 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,10 +143,10 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(position_dest_array - position_start_array,
+                                        reciprocal_lattice_crystalloggraphic)
                                 )
-                        num_bandpoint = np.ceil(path_length/density)
+                        num_bandpoint = int( np.ceil(path_length/density) )
                     
                         f.write("{0}\n".format(num_bandpoint))
                         f.write("    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n".format(
-- 
2.43.0


From e5c39ff54aacf8cc32efd7d39c361f865267e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:47 +0000
Subject: [PATCH 32/47] fix: band edges: degenerate bands are looked up at the
 k-point of the edge, listed once, numbered from 1

---
 matersdk/io/pwmat/output/report.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index f8e7517..6b2cb81 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -263,8 +263,10 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == cbm_spin) and (idx_band + 1 == cbm_band):   # already listed
+                    continue
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt-1][idx_band] - cbm_energy) < 0.001:
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -324,11 +326,13 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == vbm_spin) and (idx_band + 1 == vbm_band):   # already listed
+                    continue
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt-1][idx_band] - vbm_energy) < 0.001:
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From da593b622491e2ac139acb149aee6af7f18cdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:22 +0000
Subject: [PATCH 33/47] fix: get_eigen_energies failed on every spin-polarised
 REPORT

---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 6b2cb81..91682a6 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -135,7 +135,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0


From 075956c02e6e7aa41221837332aed2a0cc579490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:26 +0000
Subject: [PATCH 34/47] fix: batch_perturb calls DStructure.to with the
 arguments it has

---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From 531576ef2fa142e1818648502753753ec0c1eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:26 +0000
Subject: [PATCH 35/47] fix: each Slurm directive is on a line of its own

---
 matersdk/hpc/slurm/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..e753698 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From 700d1ab3a71504e7d66a7ced5970252dbedbf9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:25 +0000
Subject: [PATCH 36/47] fix: the neighbour table returned by
 nblist.find_info4mlff frees its memory

---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..5aaf6df 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -136,7 +136,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From 957d3029b97a7b75e2212113e750cd687dc72505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:23 +0000
Subject: [PATCH 37/47] fix: assigning a Structure, Supercell, BinLinkedList or
 NeighborList to itself used freed memory

---
 source/nblist/include/binLinkedList.h | 6 ++++++
 source/nblist/include/neighborList.h  | 3 +++
 source/nblist/include/structure.h     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 5e1d613..75ea5fb 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -395,6 +395,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -744,6 +747,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..6d0bb46 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From 170fb4e3a01eadc284be7f7af883a12cc71c27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:23 +0000
Subject: [PATCH 38/47] fix: assigning a ChebyshevPoly or MtpQ to itself lost
 its values

---
 source/descriptor/mtp/include/mtpMRadial.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index ff4b511..662ed47 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -319,6 +319,9 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -509,6 +512,9 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
-- 
2.43.0


From 8b50cd45dc6c96555b51404ffbe1db749a989a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:23 +0000
Subject: [PATCH 39/47] fix: RB/RQ_Chebyshev assignment from itself or from an
 empty object freed memory twice; copying an empty RQ_Chebyshev dereferenced
 null

---
 source/descriptor/mtpr/include/basis.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index d808c1e..5ae4029 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,10 +226,16 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
         free(this->_ders2r);
+        this->_vals = nullptr;
+        this->_ders2uu = nullptr;
+        this->_ders2r = nullptr;
         this->_size = 0;
         this->_rmax = 0.0;
         this->_rmin = 0.0;
@@ -405,8 +411,8 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    if (rhs._rb_ptr != nullptr)
+        this->_rb_ptr = new RB_Chebyshev<CoordType>(*(rhs._rb_ptr));
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -444,8 +450,12 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
+    delete this->_rb_ptr;
+    this->_rb_ptr = nullptr;
     if (this->_size != 0) {
-        delete this->_rb_ptr;
         free(this->_vals);
         free(this->_ders2r);
         this->_size = 0;
@@ -457,8 +467,8 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    if (rhs._rb_ptr != nullptr)
+        this->_rb_ptr = new RB_Chebyshev<CoordType>(*(rhs._rb_ptr));
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
-- 
2.43.0


From a48153dbaf2154d36605328f268b76ccfe2a60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:23 +0000
Subject: [PATCH 40/47] fix: assigning a MtpParam from itself or from an empty
 one freed memory twice

---
 source/descriptor/mtpr/src/mtpParam.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7ea5408..1afbd47 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,17 +177,23 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
-- 
2.43.0


From a13410295361a34fe452128fc4825d085b3388bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:23 +0000
Subject: [PATCH 41/47] fix: copying a TildeR wrote past blocks sized by
 sizeof(count); assigning one to itself used freed memory

---
 source/descriptor/deepmd/include/se.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..637bb4d 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
-- 
2.43.0


From 9cce44eb428fd51541bbfd47db5e960e719a75db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 42/47] fix: DOS of an element contained columns of elements
 with the same first letter (S summed Si too)

---
 matersdk/io/pwmat/output/dostotalspin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..b4e8d3a 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -111,7 +111,7 @@ class Dostotalspin(object):
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = [column.split('-')[0] == tmp_element for column in df_dos.columns]
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
-- 
2.43.0


From da30ce98187ffdcc0e132e7ad238bb54ea7c567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 43/47] fix: Dostotalspin objects of one file deleted each
 other's working copy

---
 matersdk/io/pwmat/output/dostotalspin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index b4e8d3a..8afe714 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -47,7 +47,7 @@ class Dostotalspin(object):
         ### Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
         folder_path = os.path.dirname(self.dos_totalspin_path)
         filename = os.path.basename(self.dos_totalspin_path)
-        bak_dosfile_path = os.path.join(folder_path, "{0}.bak".format(filename))
+        bak_dosfile_path = os.path.join(folder_path, "{0}.{1}.{2}.bak".format(filename, os.getpid(), id(self)))
         with open(bak_dosfile_path, "w") as f:
             f.writelines(lines_lst)
         
-- 
2.43.0


From 8861b15c4b278fd4f44f80fd353eb27929cab170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 44/47] fix: fat bands of an element or orbital contained those
 of elements with a similar name

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..91bdda2 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -161,8 +161,8 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_df_element = df.filter(regex="^{0}(?:-|$)|KPOINT|ENERGY|weight_tot".format(tmp_element))
+            tmp_serie_element = tmp_df_element.filter(regex="^{0}(?:-|$)".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
@@ -188,7 +188,7 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("(?<![a-z]){0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-- 
2.43.0


From d320bae3bfc1396589e0111ab988d072df5e7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 45/47] fix: preprocess.py imported a module that does not
 exist

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..03c5b24 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -2,7 +2,7 @@ import numpy as np
 import h5py
 from typing import Union, List, Dict
 
-from ...data.deepmd.data_system import DpLabeledSystem
+from ...data.struct_collection import StructCollection as DpLabeledSystem
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
-- 
2.43.0


From 67e7c22d545cb21efa375b76bf1cb276d8686c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 46/47] fix: TildeRNormalizer.normalize took the centre species
 as neighbour species

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 03c5b24..71f219d 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From 89f16a26373403eadd6f64200c1584cb9374afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:25 +0000
Subject: [PATCH 47/47] fix: the deviation of constant features was NaN when
 the variance rounded below zero

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 71f219d..ff39dc7 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -527,7 +527,7 @@ class TildeRPairNormalizer(object):
         if (N == 0):
             return 1e-2
         std = np.sqrt(
-                sum2_value / N - np.multiply(sum_value/N, sum_value/N)
+                np.maximum(sum2_value / N - np.multiply(sum_value/N, sum_value/N), 0.)
         )
         if np.abs(std) < 1e-2:
             std = 1e-2
-- 
2.43.0

