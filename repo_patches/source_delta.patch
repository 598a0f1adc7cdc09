From 74ac336790c952920abd8aea8bf4041e5559dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 001/106] fix: allocate three components for each face's
 up-down unit vector

---
 src/fv/share/tdymesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..afdbb64 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
-- 
2.43.0


From f75d9a21d898062c799ba8b7391d44d76c41d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 002/106] fix: don't let DMSetFromOptions distribute a mesh
 that TDySetFromOptions distributes itself

---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..0bff901 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -672,7 +672,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-      // Here we lean on PETSc's DM* options for overrides.
+      // Here we lean on PETSc's DM* options for overrides. We distribute the
+      // mesh ourselves below, so DMSetFromOptions mustn't do it by default.
+      ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
       ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     }
 
@@ -689,6 +691,7 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       ierr = DMDestroy(&dm); CHKERRQ(ierr);
       dm = dm_dist;
     }
+    ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
     ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     ierr = DMViewFromOptions(dm, NULL, "-dm_view"); CHKERRQ(ierr);
     ((tdy->discretization)->tdydm)->dm = dm;
-- 
2.43.0


From aace87a7ba7227757c2009954b3736256b6bfd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 003/106] fix: TDyAlloc allocates the requested number of
 bytes, not that many elements

---
 include/private/tdymemoryimpl.h | 2 +-
 src/fe/tdyfe.c                  | 4 ++--
 src/tdyio.c                     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/private/tdymemoryimpl.h b/include/private/tdymemoryimpl.h
index e2e0880..cc1280e 100644
--- a/include/private/tdymemoryimpl.h
+++ b/include/private/tdymemoryimpl.h
@@ -8,7 +8,7 @@
 /// Allocates a chunk of zeroed memory of the given size (in bytes).
 /// @param [in] size The size of the requested allocation.
 /// @param [out] result A pointer to the requested memory chunk.
-#define TDyAlloc(size,result) PetscCalloc1(size,result)
+#define TDyAlloc(size,result) PetscCalloc(size,result)
 
 /// @def TDyRealloc
 /// Resizes the given chunk of memory to the new requested size.
diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index ec4178e..dcee4e5 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -156,8 +156,8 @@ PetscErrorCode SetQuadrature(PetscQuadrature q,PetscInt dim) {
   PetscReal *x,*w;
   PetscInt d,nv=1;
   for(d=0; d<dim; d++) nv *= 2;
-  ierr = TDyAlloc(nv*dim,&x); CHKERRQ(ierr);
-  ierr = TDyAlloc(nv,&w); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*dim*sizeof(PetscReal),&x); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*sizeof(PetscReal),&w); CHKERRQ(ierr);
   switch(nv*dim) {
   case 2: /* line */
     x[0] = -1.0; w[0] = 1.0;
diff --git a/src/tdyio.c b/src/tdyio.c
index 53f7d65..def05e7 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -319,7 +319,7 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
 
-  ierr = TDyAlloc(n,variable);CHKERRQ(ierr);
+  ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
     (*variable)[i] = ptr[i];
   }
-- 
2.43.0


From c5ec44ded98e86fe930be67446aeebe9640684a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 004/106] fix: evaluate relative permeability at the points it
 is assigned to

---
 src/materials/tdycharacteristiccurves.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5427c23..829bcc8 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -331,18 +331,20 @@ PetscErrorCode RelativePermeabilityCompute(RelativePermeability *rel_perm,
     PetscInt num_points = rel_perm->num_points[type];
     if (type == REL_PERM_FUNC_IRMAY) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][i];
-        RelativePermeability_Irmay(m, Se[i], &(Kr[i]), &(dKrdSe[i]));
+        RelativePermeability_Irmay(m, Se[j], &(Kr[j]), &(dKrdSe[j]));
       }
     } else if (type == REL_PERM_FUNC_MUALEM) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][9*i];
         PetscReal poly_x0 = rel_perm->parameters[type][9*i+1]; // cubic interp cutoff
         PetscReal poly_x1 = rel_perm->parameters[type][9*i+2]; // cubic interp cutoff
         PetscReal poly_dx = rel_perm->parameters[type][9*i+4]; // cubic interp cutoff
         PetscReal *poly_coeffs = &(rel_perm->parameters[type][9*i+5]); // interp coeffs
-        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[i], &(Kr[i]),
-                                    &(dKrdSe[i]));
+        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[j], &(Kr[j]),
+                                    &(dKrdSe[j]));
       }
     } else {
       SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
-- 
2.43.0


From 93ac2684fe7dbad169daf53c488e5642ec7ac9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 005/106] fix: don't look past the end of a characteristic
 curve's point map

---
 src/materials/tdycharacteristiccurves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 829bcc8..563470b 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -208,7 +208,7 @@ PetscErrorCode SaturationComputeOnPoints(Saturation *sat,
       khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the saturation and its derivatives on points belonging to
           // this type.
@@ -402,7 +402,7 @@ PetscErrorCode RelativePermeabilityComputeOnPoints(RelativePermeability *rel_per
       khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the relative permeability and its derivative on points
           // belonging to this type.
-- 
2.43.0


From 95b83f7c1eb8e9d6c519257306806c23c6435848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 006/106] fix: release a characteristic curve's old points when
 they are replaced

---
 src/materials/tdycharacteristiccurves.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 563470b..905b813 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -84,12 +84,10 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
     SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER, "Invalid saturation model type!");
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (sat->num_points[type] != num_points) {
-    if (sat->points[type]) {
-      ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
-    }
+  // Free any storage for the points previously assigned to this type.
+  if (sat->points[type]) {
+    ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
+    ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
   }
 
   // Delete the point maps, which are invalidated by this operation.
@@ -296,12 +294,10 @@ PetscErrorCode RelativePermeabilitySetType(RelativePermeability *rel_perm,
     }
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (rel_perm->num_points[type] != num_points) {
-    if (rel_perm->points[type]) {
-      ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
-    }
+  // Free any storage for the points previously assigned to this type.
+  if (rel_perm->points[type]) {
+    ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
+    ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
   }
 
   rel_perm->num_points[type] = num_points;
-- 
2.43.0


From db586de76ae26a9e53a2b84a1fe377b147f5b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 007/106] fix: Batzle-Wang brine density's temperature term (80
 + 3 T, not 80*3 T)

---
 src/materials/tdyeos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index c6ecbd6..ed0c4d5 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -49,7 +49,7 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
 		  1.3e-5*pow(T,3)*P*Pa_to_MPa - 0.333 * pow(P*Pa_to_MPa,2) - 0.002*T *pow(P*Pa_to_MPa,2));
   pw *= 1000.;
 
-  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.*3.*T-3300.*S -
+  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80. + 3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 8edc354a1911c4d3187b2744e34ddff6b32b08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 008/106] fix: Batzle-Wang brine viscosity decreases with
 temperature (sign of the 0.045 term)

---
 src/materials/tdyeos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index ed0c4d5..5d33597 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -105,7 +105,7 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
 
   *vis = 0.1 +
          0.333 * S +
-         (1.65 + 91.9 *pow(S,3))*exp((-0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
+         (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 86e1b46bd9d308c9b00ea1fa77651c2e2f906ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 009/106] fix: Batzle-Wang density and viscosity set their
 pressure derivatives

---
 src/materials/tdyeos.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index 5d33597..fbe8f45 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -38,7 +38,8 @@ static PetscErrorCode ComputeWaterDensity_Exponential(PetscReal p, PetscReal *de
 
 /* ---------------------------------------------------------------- */
 static PetscErrorCode ComputeWaterDensity_BatzleWang(
-  PetscReal P, PetscReal T, PetscReal S, PetscReal *den) {
+  PetscReal P, PetscReal T, PetscReal S, PetscReal *den, PetscReal *dden_dP,
+  PetscReal *d2den_dP2) {
 
   PetscFunctionBegin;
 
@@ -52,6 +53,12 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
   *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80. + 3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
+  *dden_dP = 1.e-6*(489. - 2.*T + 0.016*pow(T,2) - 1.3e-5*pow(T,3) -
+                    2.*0.333*P*Pa_to_MPa - 2.*0.002*T*P*Pa_to_MPa);
+  *dden_dP += S*1.e-6*(300. - 2400.*S + T*(47.*S - 13.));
+  *dden_dP *= 1000.*Pa_to_MPa;
+  *d2den_dP2 = -1.e-6*(2.*0.333 + 2.*0.002*T)*1000.*Pa_to_MPa*Pa_to_MPa;
+
   PetscFunctionReturn(0);
 }
 
@@ -74,7 +81,7 @@ PetscErrorCode EOSComputeWaterDensity(EOS *eos,
       ierr = ComputeWaterDensity_Exponential(p,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     case WATER_DENSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den); CHKERRQ(ierr);
+      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water density function");
@@ -99,7 +106,8 @@ static PetscErrorCode ComputeWaterViscosity_Constant(PetscReal p,
 }
 
 static PetscErrorCode ComputeWaterViscosity_BatzleWang(
-  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis) {
+  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis, PetscReal *dvis_dP,
+  PetscReal *d2vis_dP2) {
 
   PetscFunctionBegin;
 
@@ -108,6 +116,9 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
          (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
 
+  *dvis_dP = 0.0;
+  *d2vis_dP2 = 0.0;
+
   PetscFunctionReturn(0);
 }
 
@@ -125,7 +136,7 @@ PetscErrorCode EOSComputeWaterViscosity(EOS *eos,
       ierr = ComputeWaterViscosity_Constant(p,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     case WATER_VISCOSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis); CHKERRQ(ierr);
+      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water viscosity function");
-- 
2.43.0


From 72652bad7459973987557f5fb06c349f365e6697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 010/106] fix: -tdy_thermal_conductivity sets the thermal
 conductivity, not the porosity

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 0bff901..3999184 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -529,7 +529,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsReal("-tdy_permability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_density", "Value of soil density", NULL, options->soil_density, &options->soil_density, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_specific_heat", "Value of soil specific heat", NULL, options->soil_specific_heat, &options->soil_specific_heat, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->thermal_conductivity, &options->thermal_conductivity, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Characteristic curve options
-- 
2.43.0


From 9a849a174df2549d07e93fbf3e98c8f2287b729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 011/106] fix: TDyFinalize leaves the shutdown list and
 function registry ready for another TDyInit

---
 src/tdycore.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 3999184..461fbb2 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -195,6 +195,9 @@ PetscErrorCode TDyFinalize() {
       shutdown_funcs_[i]();
     }
     TDyFree(shutdown_funcs_);
+    shutdown_funcs_ = NULL;
+    num_shutdown_funcs_ = 0;
+    shutdown_funcs_cap_ = 0;
   }
 
   // Finalize PETSc.
@@ -212,6 +215,7 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
   kh_destroy(TDY_FUNC_MAP, funcs_);
+  funcs_ = NULL;
 }
 
 /// Registers a named function that evaluates a scalar quantity on a set of
-- 
2.43.0


From ea7ab333e8c617b8d515c1360d1972fa3ae082b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 012/106] fix: TDySetFromOptions reports errors from the
 selections and the mesh constructor it calls

---
 src/tdycore.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 461fbb2..940782f 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -558,7 +558,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryPressureFunction(tdy, func_name);
+    ierr = TDySelectBoundaryPressureFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_pressure_bc_value", "Constant boundary pressure", NULL, options->boundary_pressure, &options->boundary_pressure,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -569,7 +569,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_velocity_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name);
+    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_velocity_bc_value", "Constant normal boundary velocity", NULL, options->boundary_velocity, &options->boundary_velocity,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -595,12 +595,16 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsEnum("-tdy_discretization","Discretization", "TDySetDiscretization",TDyDiscretizations, (PetscEnum)options->discretization,(PetscEnum *)&discretization, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
-  // Override the mode and/or discretization if needed.
+  // Override the mode and/or discretization if needed, validating only the
+  // resulting combination.
+  PetscBool reset = (options->discretization != discretization) ||
+    ((options->mode != mode) && (tdy->setup_flags & TDyDiscretizationSet));
   if (options->mode != mode) {
-    TDySetMode(tdy, mode);
+    options->mode = mode;
+    tdy->setup_flags |= TDyModeSet;
   }
-  if (options->discretization != discretization) {
-    TDySetDiscretization(tdy, discretization);
+  if (reset) {
+    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
@@ -668,11 +672,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     } else {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
-        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm);
+        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
       } else if (create_dm_f90_) {
         // Create a DM all-Fortran-like.
         MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr);
+        create_dm_f90_(&comm_f, &dm, &ierr); CHKERRQ(ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-- 
2.43.0


From 08d000ea93a479b1545c18d7d1674fcb963aabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 013/106] fix: define the salinity source and boundary
 concentration functions the public header declares

---
 src/tdycore.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 940782f..d5741f4 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1346,6 +1346,18 @@ PetscErrorCode TDySetEnergyForcingFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
+PetscErrorCode TDySetSalinitySourceFunction(TDy tdy,
+                                            TDyScalarSpatialFunction f) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  WrapperStruct *wrapper;
+  ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
+  wrapper->func = f;
+  ierr = ConditionsSetSalinitySource(tdy->conditions, wrapper,
+                                     WrapperFunction, TDyFree); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
 PetscErrorCode TDySetBoundaryPressureFunction(TDy tdy,
                                               TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
@@ -1456,8 +1468,8 @@ PetscErrorCode TDySelectBoundaryTemperatureFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
-PetscErrorCode TDySelectBoundarySalineConcenctrationFunction(TDy tdy,
-                                                             const char *func_name) {
+PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy tdy,
+                                                            const char *func_name) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
   TDySpatialFunction f;
-- 
2.43.0


From 1416806fcfde080b1e115e4f25f2540a3e6bcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 014/106] fix: ConditionsDestroy releases the salinity source
 and boundary pressure type

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..62ea1a7 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -16,7 +16,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ConditionsSetForcing(conditions, NULL, NULL, NULL);
   ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
+  ConditionsSetSalinitySource(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
+  ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
   ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-- 
2.43.0


From 2ab5593dbc3037be918d16304e6a9971834a99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 015/106] fix: a time step cut after being limited to the sync
 time no longer skips to the sync time

---
 src/tdyti.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..1939b91 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= 0.25;
+            // A shortened step no longer ends at the synchronization time.
+            ti->dt_save = 0.;
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From b519992fd5a559e1ca9a46860fc116ade6cb8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 016/106] fix: with TS, run to the requested time rather than
 to the interval since the last stop

---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 1939b91..7956581 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -184,9 +184,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From 459e7d1f10d22f89403f5b95aa73a6c09962a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 017/106] fix: time step cuts use the time step reduction
 factor option

---
 src/tdyti.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 7956581..22c9723 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -139,7 +139,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           ierr = SNESGetConvergedReason(ti->snes,&reason); CHKERRQ(ierr);
           if (reason < 0) {
             icut++;
-            ti->dt *= 0.25;
+            ti->dt *= ti->dt_reduction_factor;
             // A shortened step no longer ends at the synchronization time.
             ti->dt_save = 0.;
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
-- 
2.43.0


From acfe00fa94b92a64e2f3aa1a7b73f0d7815db4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 018/106] fix: gravity keeps face permeabilities below machine
 epsilon and negative off-diagonals

---
 src/fv/mpfao/tdympfao.c | 8 --------
 src/tdyutils.c          | 4 ----
 2 files changed, 12 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..bb5a90f 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2041,14 +2041,6 @@ static PetscErrorCode ComputeFacePermeabilityTensor(TDyMPFAO *mpfao,
 
   ierr = ComputeInverseOf3by3Matrix(KfaceInv, Kface); CHKERRQ(ierr);
 
-  idx = 0;
-  for (PetscInt kk = 0; kk < dim; kk++) {
-    for (PetscInt mm = 0; mm < dim; mm++) {
-      if (Kface[idx] < 0.0 || fabs(Kface[idx]) < PETSC_MACHINE_EPSILON) Kface[idx] = 0.0;
-      idx++;
-    }
-  }
-
  PetscFunctionReturn(0);
 }
 
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 5cfd2c8..3f704bb 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -710,10 +710,6 @@ PetscErrorCode ComputeInverseOf3by3Matrix(PetscReal a[9], PetscReal inv_a[9]) {
   inv_a[7] = -1.0/det_a*(a[0]*a[7]-a[6]*a[1]);
   inv_a[8] = +1.0/det_a*(a[0]*a[4]-a[3]*a[1]);
 
-  for (PetscInt ii=0; ii<9; ii++) {
-    if (fabs(a[ii]) < PETSC_MACHINE_EPSILON) a[ii] = 0.0;
-  }
-
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From e21048441b41a1e5d4533b598bf0a6ab12c15740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 019/106] fix: refresh subface ids of vertices when a face's
 vertices are reordered

---
 src/fv/share/tdymeshplex.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d3674b2..240d4c9 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3168,6 +3168,20 @@ PetscErrorCode UpdateCellOrientationAroundAFace(DM dm, TDyMesh *mesh) {
     }
   }
 
+  // The order of the vertices of faces may have changed, so update the
+  // index of each vertex within its faces.
+  for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
+    PetscInt *face_ids, num_faces;
+    PetscInt *subface_ids, num_subfaces;
+    ierr = TDyMeshGetVertexFaces(mesh, ivertex, &face_ids, &num_faces); CHKERRQ(ierr);
+    ierr = TDyMeshGetVertexSubfaces(mesh, ivertex, &subface_ids, &num_subfaces); CHKERRQ(ierr);
+    for (PetscInt i=0; i<num_faces; i++) {
+      PetscInt *vertex_ids, num_vertices;
+      ierr = TDyMeshGetFaceVertices(mesh, face_ids[i], &vertex_ids, &num_vertices); CHKERRQ(ierr);
+      subface_ids[i] = TDyReturnIndexInList(vertex_ids, num_vertices, ivertex);
+    }
+  }
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 89b095721b7c185a8efab7c3817bfb2a67cd3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 020/106] fix: presolve and time cut update the state of ghost
 cells too, from a local vector

---
 src/fv/fvtpf/tdyfvtpf_snes.c          | 14 ++++++++------
 src/fv/mpfao/tdympfao_snes.c          |  7 ++++---
 src/fv/mpfao/tdympfao_snes_salinity.c |  5 +++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..256fbb4 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -54,9 +54,10 @@ PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
@@ -94,9 +95,10 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   ierr = VecCopy(tdy->soln_prev, tdy->soln); CHKERRQ(ierr);
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index faaae9e..6661ad0 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -42,9 +42,10 @@ PetscErrorCode TDyMPFAOSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 50b48ce..62755b9 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -60,7 +60,8 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&U); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy, U, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
@@ -80,7 +81,7 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
     ierr = TDyMPFAOSNESAccumulationTransport(tdy,icell,U[icell*2+1],&accum_prev[icell*2+1]); CHKERRQ(ierr);
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&U); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From b818726d25e368309d694d79da2bf5822fcfa8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 021/106] fix: Fortran's TDyUpdateState receives the number of
 cells by reference

---
 src/f90-mod/tdycoref.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index 5ac77a9..5b565d1 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -245,9 +245,9 @@ PETSC_EXTERN void  tdydestroy_(TDy *_tdy, int *__ierr){
 *__ierr = TDyDestroy(_tdy);
 }
 
-PETSC_EXTERN void tdyupdatestate_(TDy *tdy,PetscScalar y[], int ncells, int *ierr )
+PETSC_EXTERN void tdyupdatestate_(TDy *tdy,PetscScalar y[], int *ncells, int *ierr )
 {
-  *ierr = TDyUpdateState(*tdy,y,ncells);
+  *ierr = TDyUpdateState(*tdy,y,*ncells);
 }
 
 PETSC_EXTERN void  tdyglobaltonatural_(TDy tdy, Vec global, Vec natural, int *__ierr){
-- 
2.43.0


From 337952dc24b92dc72e80933576a3300559cf32da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 022/106] fix: allocate the leading count in the lists of cells
 above and below a vertex

---
 src/fv/share/tdymeshplex.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 240d4c9..ff69587 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3036,12 +3036,13 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
     }
   }
 
-  // Determine cell IDs that are above and below all vertices
+  // Determine cell IDs that are above and below all vertices (each list is
+  // preceded by the number of cells in it)
   PetscInt **cellsAbove, **cellsBelow;
   PetscInt ncells_per_vertex = TDyMaxNumberOfCellsSharingAVertex(dm, mesh->closureSize, mesh->closure);
 
-  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex + 1); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex + 1); CHKERRQ(ierr);
 
   ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow);
 
-- 
2.43.0


From 7b979c7aa21b7173ba0b9b6edf92ffb52fdb1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 023/106] fix: an MPFA-O dycore that was never set up can be
 destroyed

---
 src/fv/mpfao/tdympfao.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index bb5a90f..0dcbd36 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -564,7 +564,7 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
     ierr = TDyFree(mpfao->mu_saline); CHKERRQ(ierr);
   }
 
-  ierr = TDyMeshDestroy(mpfao->mesh);
+  if (mpfao->mesh) { ierr = TDyMeshDestroy(mpfao->mesh); CHKERRQ(ierr); }
 
   TDyFree(mpfao);
 
-- 
2.43.0


From a1f549462babb9fa07925b41e77a406396723807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 024/106] fix: Mualem relative permeability's derivative at
 zero effective saturation is not NaN

---
 src/materials/tdycharacteristiccurves.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 905b813..fbdecc4 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -472,6 +472,12 @@ void RelativePermeability_Mualem_Unsmoothed(PetscReal m,PetscReal Se,PetscReal *
 
   if (Se>=1.0) return;
 
+  // At residual saturation the derivative's terms are 0/0, with limit 0.
+  if (Se<=0.0) {
+    *Kr = 0.0;
+    return;
+  }
+
   Se_one_over_m = PetscPowReal(Se,1/m);
   tmp = PetscPowReal(1-Se_one_over_m,m);
   (*Kr)  = PetscSqrtReal(Se);
-- 
2.43.0


From 37cdfc642fa169eef60dc689662c76f7ecce3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 025/106] fix: transient-variable residual restores the array
 it took and does not weight the variable by volume again

---
 src/fv/mpfao/tdympfao_ts_transientvar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index f684623..570b951 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -28,7 +28,7 @@ PetscErrorCode TDyMPFAOTransientVariable(TS ts, Vec U, Vec C, void *ctx) {
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln,&p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
@@ -87,8 +87,8 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
     if (!cells->is_local[icell]) continue;
 
-    // d(m)/dt * Vol
-    r[icell] += dm_dt[icell] * cells->volume[icell];
+    // dm/dt, where m = rho*phi*s*Vol is the transient variable
+    r[icell] += dm_dt[icell];
     r[icell] -= mpfao->source_sink[icell] * cells->volume[icell];
   }
 
-- 
2.43.0


From 91392baaaaf7833a63b5cf1d9152bc286ba182ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 026/106] fix: FV-TPF Dirichlet residual reads the boundary
 face's own state

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 256fbb4..479e5fd 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -181,7 +181,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From c65be1cfe77a5358001506decd0cf357ce5d188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 027/106] fix: FV-TPF flux and derivatives are zero, not
 uninitialized, when no water is mobile

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 479e5fd..d11498a 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -137,6 +137,7 @@ PetscErrorCode RichardsResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
 
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
+  *Res = 0.0;
   if (fvtpf->Kr[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
     if (fvtpf->S[cell_id_up] < sat_eps) {
       upweight = 0.0;
@@ -192,6 +193,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
+  *Res = 0.0;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
     if (fvtpf->S_bnd[cell_id_up] < sat_eps) {
       upweight = 0.0;
@@ -253,6 +255,7 @@ PetscErrorCode RichardsSeepageBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
 
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
+  *Res = 0.0;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
     if (fvtpf->S_bnd[cell_id_up] < sat_eps) {
       upweight = 0.0;
@@ -311,6 +314,8 @@ PetscErrorCode RichardsJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
 
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
+  *Jup = 0.0;
+  *Jdn = 0.0;
   if (fvtpf->Kr[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
     if (fvtpf->S[cell_id_up] < sat_eps) {
       upweight = 0.0;
@@ -395,6 +400,7 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
+  *Jdn = 0.0;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
     if (fvtpf->S_bnd[cell_id_up] < sat_eps) {
       upweight = 0.0;
@@ -475,6 +481,7 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
 
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
+  *Jdn = 0.0;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
     if (fvtpf->S_bnd[cell_id_up] < sat_eps) {
       upweight = 0.0;
-- 
2.43.0


From 8fbf2ef2a996d2237c4e5ccb9bf4939a91f05658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 028/106] fix: FV-TPF boundary Jacobians differentiate inflow
 and the gravity term

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index d11498a..895d2ad 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -414,15 +414,16 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
+    PetscReal dgravity_dden_dn = (1.0 - upweight) * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * fvtpf->drho_dP[cell_id_dn];
 
     PetscReal ukvr = 0.0;
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
@@ -495,10 +496,10 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
+    PetscReal dgravity_dden_dn = (1.0 - upweight) * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * fvtpf->drho_dP[cell_id_dn];
 
     PetscReal ukvr;
     PetscReal dukvr_dp_dn = 0.0;
-- 
2.43.0


From 085e73aafb163755bfb6fad02ed16368b4a1b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 029/106] fix: -tdy_fvtpf_boundary_condition_type takes effect

---
 src/fv/fvtpf/tdyfvtpf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97b8737..6987c73 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -331,6 +331,13 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
 
+  // By default, all boundary faces have the type selected by the options.
+  for (PetscInt iface=0; iface<fvtpf->mesh->num_faces; iface++){
+    if (!fvtpf->mesh->faces.is_internal[iface]) {
+      fvtpf->mesh->faces.bc_type[iface] = fvtpf->bc_type;
+    }
+  }
+
   if (ConditionsHasBoundaryPressureType(condition)) {
     TDyMesh  *mesh = fvtpf->mesh;
     TDyFace  *faces = &mesh->faces;
-- 
2.43.0


From 29d0f255978d0889e651e9810635a1da3d793bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 030/106] fix: steady MPFA-O corner vertices read the
 transmissibility columns in the order they are stored

---
 src/fv/mpfao/tdympfao.c        |  2 +-
 src/fv/mpfao/tdympfao_steady.c | 65 ++++++++++------------------------
 2 files changed, 19 insertions(+), 48 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 0dcbd36..99eb936 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1730,7 +1730,7 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
     }
 
     for (PetscInt row=0; row<dim; row++){
-      T_2[row][col] = Told[row][j];
+      T_2[row][j] = Told[row][col];
     }
 
   }
diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 26950de..031c1c8 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -312,15 +312,13 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
   TDyCell       *cells = &mesh->cells;
   TDyVertex     *vertices = &mesh->vertices;
   TDyFace       *faces = &mesh->faces;
-  TDySubcell    *subcells = &mesh->subcells;
   PetscInt       ivertex, icell;
-  PetscInt       icol, row, col, iface, isubcell;
+  PetscInt       icol, row, col, iface;
   PetscReal      value;
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
   PetscReal      sign;
-  PetscInt       j;
   PetscErrorCode ierr;
 
   PetscFunctionBegin;
@@ -340,7 +338,6 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
     if (vertices->num_internal_cells[ivertex] > 1)  continue;
 
     PetscInt vOffsetCell    = vertices->internal_cell_offset[ivertex];
-    PetscInt vOffsetSubcell = vertices->subcell_offset[ivertex];
 
     // Vertex is on the boundary
 
@@ -351,16 +348,16 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
     //  - Dirichlet pressure value
     //  - Cell IDs connecting the boundary edge in the direction of unit normal
 
-    icell    = vertices->internal_cell_ids[vOffsetCell + 0];
-    isubcell = vertices->subcell_ids[vOffsetSubcell + 0];
+    // Trans[vertex] has a row per face of the vertex; the columns are the cell,
+    // followed by the boundary faces in the order of the faces of the vertex
 
-    PetscInt subcell_id = icell*cells->num_subcells[icell]+isubcell;
+    icell    = vertices->internal_cell_ids[vOffsetCell + 0];
 
     PetscInt *face_ids, num_faces;
-    ierr = TDyMeshGetSubcellFaces(mesh, subcell_id, &face_ids, &num_faces); CHKERRQ(ierr);
+    ierr = TDyMeshGetVertexFaces(mesh, ivertex, &face_ids, &num_faces); CHKERRQ(ierr);
 
     numBoundary = 0;
-    for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
+    for (iface=0; iface<num_faces; iface++) {
 
       PetscInt face_id = face_ids[iface];
 
@@ -372,53 +369,27 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
 
     }
 
-    for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
-
-      PetscInt face_id = face_ids[iface];
-      PetscInt *cell_ids, num_cells;
-      ierr = TDyMeshGetFaceCells(mesh, face_id, &cell_ids, &num_cells); CHKERRQ(ierr);
-
-      row = cell_ids[0];
-      if (row>-1) sign = -1.0;
-      else        sign = +1.0;
+    if (!cells->is_local[icell]) continue;
 
-      value = 0.0;
-      for (j=0; j<dim; j++) {
-        value += sign*(-mpfao->Trans[vertices->id[ivertex]][iface][j]);
-      }
+    row = cells->global_id[icell];
+    col = cells->global_id[icell];
 
-      row   = cells->global_id[icell];
-      col   = cells->global_id[icell];
-      if (cells->is_local[icell]) {ierr = MatSetValue(K, row, col, -value, ADD_VALUES); CHKERRQ(ierr);}
-
-    }
-
-    // For fluxes through boundary edges, only add contribution to the vector
-    for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
+    for (iface=0; iface<num_faces; iface++) {
 
       PetscInt face_id = face_ids[iface];
       PetscInt *cell_ids, num_cells;
       ierr = TDyMeshGetFaceCells(mesh, face_id, &cell_ids, &num_cells); CHKERRQ(ierr);
 
-      row = cell_ids[0];
-      PetscInt cell_id_up = cell_ids[0];
-      PetscInt cell_id_dn = cell_ids[1];
+      if (cell_ids[0]>-1) sign = -1.0;
+      else                sign = +1.0;
 
-      if (cell_id_up>-1 && cells->is_local[cell_id_up]) {
-        row   = cells->global_id[cell_id_up];
-        for (icol=0; icol<vertices->num_boundary_faces[ivertex]; icol++) {
-          value = -mpfao->Trans[vertices->id[ivertex]][iface][icol] * pBoundary[icol];
-          ierr = VecSetValue(F, row, value, ADD_VALUES); CHKERRQ(ierr);
-        }
+      value = sign*mpfao->Trans[vertices->id[ivertex]][iface][0];
+      ierr = MatSetValue(K, row, col, value, ADD_VALUES); CHKERRQ(ierr);
 
-      }
-
-      if (cell_id_dn>-1 && cells->is_local[cell_id_dn]) {
-        row   = cells->global_id[cell_id_dn];
-        for (icol=0; icol<vertices->num_boundary_faces[ivertex]; icol++) {
-          value = -mpfao->Trans[vertices->id[ivertex]][iface][icol] * pBoundary[icol];
-          ierr = VecSetValue(F, row, -value, ADD_VALUES); CHKERRQ(ierr);
-        }
+      // For fluxes through boundary edges, only add contribution to the vector
+      for (icol=0; icol<numBoundary; icol++) {
+        value = -sign*mpfao->Trans[vertices->id[ivertex]][iface][icol+1] * pBoundary[icol];
+        ierr = VecSetValue(F, row, value, ADD_VALUES); CHKERRQ(ierr);
       }
     }
   }
-- 
2.43.0


From a0c96c94b22889eee3ab9870004ca87a71c7a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 031/106] fix: set the end offsets of the last face of the mesh

---
 src/fv/share/tdymesh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index afdbb64..37bf593 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -308,7 +308,9 @@ PetscErrorCode AllocateFaces(
     faces->num_vertices[iface] = 0;
 
     faces->bc_type[iface] = NEUMANN_BC;
+  }
 
+  for (PetscInt iface=0; iface<=num_faces; iface++) {
     faces->cell_offset[iface] = iface*num_cells;
     faces->edge_offset[iface] = iface*num_edges;
     faces->vertex_offset[iface] = iface*num_vertices;
-- 
2.43.0


From 522da1c739371844b61cfb8130e5e00e93eb97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 032/106] fix: mark the boundary faces before the mesh is
 distributed

---
 src/tdycore.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index d5741f4..6963d25 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -692,6 +692,16 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     // Set up a natural -> global ordering on the DM.
     ierr = DMSetUseNatural(dm, PETSC_TRUE); CHKERRQ(ierr);
 
+    // Mark the grid's boundary faces and their transitive closure. All are
+    // stored at their appropriate strata within the label. This must be done
+    // before the mesh is distributed: the faces on the outer side of the
+    // overlap cells look like boundary faces to the processes having them.
+    DMLabel boundary_label;
+    ierr = DMCreateLabel(dm, "boundary"); CHKERRQ(ierr);
+    ierr = DMGetLabel(dm, "boundary", &boundary_label); CHKERRQ(ierr);
+    ierr = DMPlexMarkBoundaryFaces(dm, 1, boundary_label); CHKERRQ(ierr);
+    ierr = DMPlexLabelComplete(dm, boundary_label); CHKERRQ(ierr);
+
     // Distribute the mesh, however we got it.
     DM dm_dist;
     ierr = DMPlexDistribute(dm, 1, NULL, &dm_dist); CHKERRQ(ierr);
@@ -705,14 +715,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     ((tdy->discretization)->tdydm)->dm = dm;
     //ierr = DMClone(dm, &((tdy->discretization)->tdydm)->dm); CHKERRQ(ierr);
 
-    // Mark the grid's boundary faces and their transitive closure. All are
-    // stored at their appropriate strata within the label.
-    DMLabel boundary_label;
-    ierr = DMCreateLabel(((tdy->discretization)->tdydm)->dm, "boundary"); CHKERRQ(ierr);
-    ierr = DMGetLabel(((tdy->discretization)->tdydm)->dm, "boundary", &boundary_label); CHKERRQ(ierr);
-    ierr = DMPlexMarkBoundaryFaces(((tdy->discretization)->tdydm)->dm, 1, boundary_label); CHKERRQ(ierr);
-    ierr = DMPlexLabelComplete(((tdy->discretization)->tdydm)->dm, boundary_label); CHKERRQ(ierr);
-
   }
 
   PetscInt dim = 3;
-- 
2.43.0


From 7e084e424f74b6e772d6a4c10e296694c5ce82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 033/106] fix: TDyGetBoundaryFaces returns faces only and leaks
 nothing

---
 src/tdycore.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 6963d25..9e561ee 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -464,9 +464,28 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
   ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumSize(label, 1, num_faces); CHKERRQ(ierr);
   ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
-  ierr = ISGetIndices(is, faces); CHKERRQ(ierr);
+
+  // The label holds the edges and vertices of the boundary faces too.
+  PetscInt num_points = 0, f_start, f_end, *face_ids;
+  const PetscInt *points = NULL;
+  ierr = DMPlexGetHeightStratum(dm, 1, &f_start, &f_end); CHKERRQ(ierr);
+  if (is) {
+    ierr = ISGetLocalSize(is, &num_points); CHKERRQ(ierr);
+    ierr = ISGetIndices(is, &points); CHKERRQ(ierr);
+  }
+  ierr = PetscMalloc1(num_points, &face_ids); CHKERRQ(ierr);
+  *num_faces = 0;
+  for (PetscInt i = 0; i < num_points; ++i) {
+    if ((points[i] >= f_start) && (points[i] < f_end)) {
+      face_ids[(*num_faces)++] = points[i];
+    }
+  }
+  if (is) {
+    ierr = ISRestoreIndices(is, &points); CHKERRQ(ierr);
+  }
+  ierr = ISDestroy(&is); CHKERRQ(ierr);
+  *faces = face_ids;
   PetscFunctionReturn(0);
 }
 
@@ -477,13 +496,8 @@ PetscErrorCode TDyRestoreBoundaryFaces(TDy tdy, PetscInt *num_faces,
                                        const PetscInt** faces) {
   PetscFunctionBegin;
   PetscErrorCode ierr;
-  DMLabel label;
-  IS is;
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
-  ierr = ISRestoreIndices(is, faces); CHKERRQ(ierr);
+  ierr = PetscFree(*faces); CHKERRQ(ierr);
+  *num_faces = 0;
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 6e8689c28bfedae68207766fb55001f7c43ff0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 034/106] fix: allocate thermal and saline transmissibilities
 as wide as they are indexed

---
 src/fv/mpfao/tdympfao.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 99eb936..20c9c1e 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2418,7 +2418,7 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   ierr = VecZeroEntries(mpfao->GravDisVec);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Temp_Trans, mpfao->mesh->num_vertices,
-                                  mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
+                                  mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Temp_Trans_mat); CHKERRQ(ierr);
   ierr = MatSetOption(mpfao->Temp_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
   ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Temp_P_vec);
@@ -2487,7 +2487,7 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   ierr = VecZeroEntries(mpfao->GravDisVec);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Psi_Trans, mpfao->mesh->num_vertices,
-                                  mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
+                                  mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Psi_Trans_mat); CHKERRQ(ierr);
   ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
   ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec);
-- 
2.43.0


From 1a0d426e0da77e83617d51c9f13c9df40afdf205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 035/106] fix: saline diffusion: transmissibilities were
 computed for corner vertices only

---
 src/fv/mpfao/tdympfao.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 20c9c1e..ef6da4a 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1817,6 +1817,8 @@ static PetscErrorCode ComputeTransmissibilityMatrix(TDyMPFAO *mpfao, DM dm) {
       ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 0); CHKERRQ(ierr);
       if (mpfao->Temp_subc_Gmatrix) { // TH
         ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 1); CHKERRQ(ierr);
+      } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+        ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 2); CHKERRQ(ierr);
       }
     } else {
       // It is assumed that neumann boundary condition is a zero-flux boundary condition.
-- 
2.43.0


From 8b224b5c5fccbfbea3cca50c801e81377152bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 036/106] fix: saline diffusion was left out with the two-point
 G matrix

---
 src/fv/mpfao/tdympfao.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index ef6da4a..e4972d0 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -262,7 +262,16 @@ static PetscErrorCode ComputeGMatrix_TPF(TDyMPFAO *mpfao, DM dm,
             } else {
               mpfao->Temp_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
             }
-          } // TH
+          } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+            if (ii == jj) {
+              ierr = TDySubCell_GetIthNuStarVector(subcells, subcell_id, jj, dim, &nu[0]); CHKERRQ(ierr);
+
+              ierr = ComputeEntryOfGMatrix(area, normal, Kappa, nu, subcells->T[subcell_id], dim,
+                                           &(mpfao->Psi_subc_Gmatrix[icell][isubcell][ii][jj])); CHKERRQ(ierr);
+            } else {
+              mpfao->Psi_subc_Gmatrix[icell][isubcell][ii][jj] = 0.0;
+            }
+          }
 
         } // jj-subcell-faces
       } // ii-isubcell faces
-- 
2.43.0


From 73d1116b07b5aa76b5aa1eef77c6c83afdd69207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 037/106] fix: TDyMPFAO_SetBoundarySalineConcentration leaked
 its work array

---
 src/fv/mpfao/tdympfao_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 0dae94b..602ec3b 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -878,6 +878,7 @@ PetscErrorCode TDyMPFAO_SetBoundarySalineConcentration(TDy tdy, Vec Ul) {
 
   ierr = VecRestoreArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->Psi_vec,&psi_vec_ptr); CHKERRQ(ierr);
+  ierr = PetscFree(psi); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 7f784a258537ff8ab31b82c75b972f3de4573c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 038/106] fix: salinity mode advected water instead of salt,
 and upwinded without gravity

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 54 +++++++++++++++------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 62755b9..bcdc887 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -103,7 +103,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   PetscInt cell_id_up, cell_id_dn;
   PetscInt npitf_bc, nflux_in;
   PetscReal den,fluxm,ukvr,fluxt,flow_rate;
-  PetscScalar *TtimesP_vec_ptr, *TtimesPsi_vec_ptr;
+  PetscScalar *TtimesP_vec_ptr, *TtimesPsi_vec_ptr, *Psi_vec_ptr;
   PetscErrorCode ierr;
   PetscScalar *GravDis_ptr;
 
@@ -117,6 +117,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
+  ierr = VecGetArray(mpfao->Psi_vec,&Psi_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
 
   for (ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
@@ -151,25 +152,6 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
       cell_id_up = cell_ids[0];
       cell_id_dn = cell_ids[1];
 
-      if (TtimesP[irow] < 0.0) { // up ---> dn
-                                 // Is the cell_id_up an internal or boundary cell?
-        if (cell_id_up >= 0) {
-          ukvr = mpfao->Kr[cell_id_up]/mpfao->vis[cell_id_up]; //vis based on salinity
-        }
-        else {
-          ukvr = mpfao->Kr_bnd[-cell_id_up-1]/mpfao->vis_bnd[-cell_id_up-1];
-        }
-      }
-      else {
-        // Is the cell_id_dn an internal or boundary cell?
-        if (cell_id_dn >= 0) {
-          ukvr = mpfao->Kr[cell_id_dn]/mpfao->vis[cell_id_dn];
-        }
-        else {
-          ukvr = mpfao->Kr_bnd[-cell_id_dn-1]/mpfao->vis_bnd[-cell_id_dn-1];
-        }
-      }
-
       PetscReal den_aveg = 0.0;
       if (cell_id_up>=0) {
         den_aveg += mpfao->rho[cell_id_up];
@@ -187,14 +169,37 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
 
       PetscReal G = GravDis_ptr[face_id*num_subfaces + subface_id];
 
-      flow_rate = ukvr*(-TtimesP[irow]); // flow_rate is darcy flux times area
+      PetscReal psi; // concentration of the water that crosses the face
+      if (TtimesP[irow] + den_aveg*G < 0.0) { // up ---> dn
+        // Is the cell_id_up an internal or boundary cell?
+        if (cell_id_up >= 0) {
+          ukvr = mpfao->Kr[cell_id_up]/mpfao->vis[cell_id_up]; //vis based on salinity
+          psi = Psi_vec_ptr[cell_id_up];
+        }
+        else {
+          ukvr = mpfao->Kr_bnd[-cell_id_up-1]/mpfao->vis_bnd[-cell_id_up-1];
+          psi = mpfao->Psi_bnd[-cell_id_up-1];
+        }
+      }
+      else {
+        // Is the cell_id_dn an internal or boundary cell?
+        if (cell_id_dn >= 0) {
+          ukvr = mpfao->Kr[cell_id_dn]/mpfao->vis[cell_id_dn];
+          psi = Psi_vec_ptr[cell_id_dn];
+        }
+        else {
+          ukvr = mpfao->Kr_bnd[-cell_id_dn-1]/mpfao->vis_bnd[-cell_id_dn-1];
+          psi = mpfao->Psi_bnd[-cell_id_dn-1];
+        }
+      }
+
+      flow_rate = ukvr*(-TtimesP[irow] - den_aveg*G); // flow_rate is darcy flux times area
 
       fluxm = den_aveg*flow_rate;
-      fluxt = den_aveg*flow_rate;  //Advection term
+      fluxt = fluxm*psi;  //Advection term: water carries the upstream concentration
 
-      // Diffusion term in transport equation?
+      // Diffusion term in transport equation
       fluxt += -den_aveg*TtimesPsi[irow];
-      fluxm += - pow(den_aveg,2.0) * ukvr * G;
 
       // fluxm > 0 implies flow is from 'up' to 'dn'
       if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -211,6 +216,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
+  ierr = VecRestoreArray(mpfao->Psi_vec,&Psi_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
-- 
2.43.0


From 340fe0bf573d5f14fde034b8b919f3f6efbb71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 039/106] fix: salinity mode: gravity drove water through
 no-flow boundaries

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index bcdc887..5574f46 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -152,6 +152,9 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
       cell_id_up = cell_ids[0];
       cell_id_dn = cell_ids[1];
 
+      // Neumann boundaries are no-flux boundaries (gravity does not drive water through them either)
+      if (mpfao->bc_type == NEUMANN_BC && (cell_id_up < 0 || cell_id_dn < 0)) continue;
+
       PetscReal den_aveg = 0.0;
       if (cell_id_up>=0) {
         den_aveg += mpfao->rho[cell_id_up];
-- 
2.43.0


From 0964a7a2172d28c3841c947f7f71de1b90d0f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 040/106] fix: two-point G matrix of heat and salt used the
 wrong direction vector

nu_star is documented as T/dist times the unit vector joining the two
points; the code stored (normal . unit vector)*T/dist in every component,
which gives conductances of the wrong sign on faces whose normal has
negative components and of the wrong size on inclined faces.
---
 src/fv/share/tdymeshplex.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index ff69587..672d060 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3016,20 +3016,12 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
 
         ierr = TDyUnitNormalVectorJoiningTwoVertices(neighbor_cell_cen, cell_cen, f_normal); CHKERRQ(ierr);
 
-        PetscReal normal[3], dot_prod, value;
-        for (PetscInt d=0; d<dim; d++) {
-          normal[d] = faces->normal[face_id].V[d];
-        }
-
-        ierr = TDyDotProduct(normal,f_normal,&dot_prod); CHKERRQ(ierr);
-        value = dot_prod;
-
         TDyVector *nu_star_vectors;
         PetscInt num_nu_star_vectors;
         ierr = TDyMeshGetSubcellNuStarVectors(mesh, subcell_id, &nu_star_vectors, &num_nu_star_vectors); CHKERRQ(ierr);
 
         for (PetscInt d=0; d<dim; d++) {
-          nu_star_vectors[iface].V[d] = value*volume*6.0/dist;
+          nu_star_vectors[iface].V[d] = volume*6.0/dist*f_normal[d];
         }
       }
 
-- 
2.43.0


From d16d486c16a4eb77b30c9ceee21659643986117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 041/106] fix: a failed step could not be retried with the
 default discretization

TDyTimeIntegratorRunToTime cuts the time step when a solve fails, but
TDyTimeCut raised an error for MPFA_O, so the run ended instead.
---
 src/tdycore.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 9e561ee..e5cc1a4 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -2177,7 +2177,9 @@ PetscErrorCode TDyTimeCut(TDy tdy) {
 
   switch (tdy->options.discretization) {
   case MPFA_O:
-    SETERRQ(comm,PETSC_ERR_SUP,"TDyPreSolveSNESSolver not implemented for MPFA_O");
+    // The next attempt starts from the last accepted solution (its state is
+    // brought up to date by TDyPreSolveSNESSolver).
+    ierr = VecCopy(tdy->soln_prev, tdy->soln); CHKERRQ(ierr);
     break;
   case MPFA_O_DAE:
     SETERRQ(comm,PETSC_ERR_SUP,"TDyPreSolveSNESSolver not implemented for MPFA_O_DAE");
-- 
2.43.0


From 53bb8c6f2b1eb43b3e01e4200782323a3767df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 042/106] fix: the limit on time step cuts was counted over the
 whole run

A run with many steps stopped at its 25th cut in total although every
step had converged; the limit is on the cuts of one step.
---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index 22c9723..14195ef 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -130,6 +130,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
         ierr = TDyTimeIntegratorSetTargetTime(ti,sync_time); CHKERRQ(ierr);
         ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
         solver_converged = PETSC_FALSE;
+        icut = 0;
         while (!solver_converged){
           ierr = TDyPreSolveSNESSolver(tdy); CHKERRQ(ierr);
           ierr = SNESSolve(ti->snes,PETSC_NULL,tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From ca271a4244ce6ed7b38b90361a32499d00772181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 043/106] fix: output was written again after every failed
 solve

The output call sat inside the retry loop, so a failed attempt rewrote
the output of the last accepted step with the state of the failed one.
---
 src/tdyti.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 14195ef..14328f1 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -162,10 +162,11 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           sprintf(message,"\nTime step %d: time = %f dt = %f ni = %d li = %d rsn = %s\n\n",
             ti->istep,ti->time,ti->dt,nit,lit, SNESConvergedReasons[reason]);
           ierr = PetscPrintf(PETSC_COMM_WORLD,message); CHKERRQ(ierr);
-          if (tdy->io->output_timestep_interval > 0) {
-            if ((tdy->ti->istep)%(tdy->io->output_timestep_interval) == 0) {
-              ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr);
-            }
+        }
+
+        if (tdy->io->output_timestep_interval > 0) {
+          if ((tdy->ti->istep)%(tdy->io->output_timestep_interval) == 0) {
+            ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr);
           }
         }
 
-- 
2.43.0


From 2b5727cc657dbc0bcd0e5cb837428e829fd0c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 044/106] fix: diagnostics with several unknowns per cell were
 reordered as if they were unknowns

---
 src/tdycore.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index e5cc1a4..a3fd023 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1826,6 +1826,31 @@ PetscErrorCode TDyCreateMatrix(TDy tdy, Mat *mat) {
   PetscFunctionReturn(0);
 }
 
+/// Reorders a Vec with one value per cell from global to natural order. With
+/// several unknowns per cell, the DM only knows the order of all unknowns.
+static PetscErrorCode ScalarGlobalToNatural(TDy tdy, Vec global, Vec natural) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  Vec u;
+  PetscInt ndof;
+  ierr = TDyCreateGlobalVector(tdy, &u); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(u, &ndof); CHKERRQ(ierr);
+  if (ndof > 1) {
+    Vec u_natural;
+    ierr = VecDuplicate(u, &u_natural); CHKERRQ(ierr);
+    ierr = VecStrideScatter(global, 0, u, INSERT_VALUES); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, u, u_natural); CHKERRQ(ierr);
+    ierr = VecStrideGather(u_natural, 0, natural, INSERT_VALUES); CHKERRQ(ierr);
+    ierr = VecDestroy(&u_natural); CHKERRQ(ierr);
+  } else {
+    ierr = TDyGlobalToNatural(tdy, global, natural); CHKERRQ(ierr);
+  }
+  ierr = VecDestroy(&u); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Given a Vec created with TDyCreateDiagnosticVector, populates that vector
 /// with the saturation values for each cell in the grid.
 /// @param [in] tdy A TDy object
@@ -1838,7 +1863,7 @@ PetscErrorCode TDyGetLiquidSaturation(TDy tdy, Vec sat_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_SATURATION, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, sat_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = ScalarGlobalToNatural(tdy, tmp_vec, sat_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
@@ -1857,7 +1882,7 @@ PetscErrorCode TDyGetLiquidMass(TDy tdy, Vec mass_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_MASS, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, mass_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = ScalarGlobalToNatural(tdy, tmp_vec, mass_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From bf3873d75ae0a8b3c1a26eb98dfaa2cc5013b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 045/106] fix: the liquid mass diagnostic was the mass of water
 filling the whole cell

---
 src/fv/fvtpf/tdyfvtpf.c | 3 ++-
 src/fv/mpfao/tdympfao.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 6987c73..284544d 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -386,7 +386,8 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = fvtpf->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->porosity[c] *
+                                      fvtpf->S[c] * fvtpf->V[c];
 
     count++;
   }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index e4972d0..2b1f66c 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2779,7 +2779,8 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = mpfao->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->porosity[c] *
+                                      mpfao->S[c] * mpfao->V[c];
 
     count++;
   }
-- 
2.43.0


From 6de5626cd54e377ca1a173a1bc55db7c2547c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 046/106] fix: output before the first step held zero
 saturation (and zero pressure with TS)

---
 src/tdydriver.c |  1 +
 src/tdyio.c     | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index ff4ba1e..4676577 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -225,6 +225,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
       break;
     case TDyTS:
       ierr = TSSetFromOptions(ts); CHKERRQ(ierr);
+      ierr = VecCopy(tdy->soln,tdy->soln_prev); CHKERRQ(ierr);
       break;
   }
   TDY_STOP_FUNCTION_TIMER()
diff --git a/src/tdyio.c b/src/tdyio.c
index def05e7..2085621 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -411,7 +411,18 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     zonalVarNames[i] =  tdy->io->zonalVarNames[i];
   }
 
-  // Make sure the diagnostics are up to date.
+  // Make sure the diagnostics are those of the solution we write.
+  Vec p_loc;
+  PetscReal *p_ptr;
+  PetscInt size, ndof;
+  ierr = TDyCreateLocalVector(tdy, &p_loc); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy, p, p_loc); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(p_loc, &size); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(p, &ndof); CHKERRQ(ierr);
+  ierr = VecGetArray(p_loc, &p_ptr); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p_ptr, size/ndof); CHKERRQ(ierr);
+  ierr = VecRestoreArray(p_loc, &p_ptr); CHKERRQ(ierr);
+  ierr = VecDestroy(&p_loc); CHKERRQ(ierr);
   ierr = TDyUpdateDiagnostics(tdy); CHKERRQ(ierr);
 
   // Extract the liquid saturation.
-- 
2.43.0


From 77976e752ad3aa735e9dd4b1675944f1ded6142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 047/106] fix: HDF5 output reordered the saturation twice, and
 failed with two unknowns per cell

---
 src/tdyio.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 2085621..b2ecce7 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -448,15 +448,14 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
     if (useNatural) {
       Vec p_natural;
-      Vec s_natural;
       ierr = TDyCreateGlobalVector(tdy,&p_natural);
       ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
-
-      ierr = TDyCreateGlobalVector(tdy, &s_natural);
-      ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
-
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
+
+      // The saturation is in natural order already.
+      ierr = VecStrideScatter(s, 0, p_natural, INSERT_VALUES);CHKERRQ(ierr);
+      ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[1],time);CHKERRQ(ierr);
+      ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
     }
     else {
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
-- 
2.43.0


From 0e8a6e4188fd681c928d463278983b519e9d4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 048/106] fix: ASCII output wrote the pressure in the order of
 the partition, the saturation in natural order

---
 src/tdyio.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index b2ecce7..af8f844 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -432,7 +432,11 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   CHKERRQ(ierr);
 
   if (tdy->io->format == PetscViewerASCIIFormat) {
-    ierr = TDyIOWriteAsciiViewer(p,time,zonalVarNames[0]);CHKERRQ(ierr);
+    Vec p_natural;
+    ierr = VecDuplicate(p, &p_natural); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, p, p_natural); CHKERRQ(ierr);
+    ierr = TDyIOWriteAsciiViewer(p_natural,time,zonalVarNames[0]);CHKERRQ(ierr);
+    ierr = VecDestroy(&p_natural); CHKERRQ(ierr);
     ierr = TDyIOWriteAsciiViewer(s,time,zonalVarNames[1]);CHKERRQ(ierr);
   }
   else if (tdy->io->format == ExodusFormat) {
-- 
2.43.0


From 2d01c11e99b0804c8ad127475ff6e9a49975330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 049/106] fix: files of cell values were read with the wrong
 layout (parallel, two unknowns per cell) and leaked

---
 src/tdyio.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index af8f844..e1b7655 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -124,7 +124,7 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   DiagonalTensors *diag_tensors = context;
   PetscInt dim = diag_tensors->dim;
   PetscInt dim2 = dim*dim;
-  memset(tensors, 0, sizeof(dim*dim) * n);
+  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
   if (dim == 2) {
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
@@ -208,6 +208,7 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     // change io->anisotropic_permeability to io->heterogeneous_permeability?
     PetscReal perm[3] = {K[0], K[1], K[2]};
     ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, perm);CHKERRQ(ierr);
+    ierr = TDyFree(K);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
@@ -275,16 +276,20 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  PetscInt n;
+  ierr = VecGetLocalSize(tdy->soln,&n);CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecSetSizes(u,n,PETSC_DETERMINE);CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName);CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tdy->io->ic_filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
 
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
-  ierr = VecDestroy(&u);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -303,30 +308,41 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscErrorCode ierr;
   PetscViewer viewer;
   Vec u;
-  Vec u_local;
+  Vec u_dofs, u_local;
   PetscReal *ptr;
-  int i,n;
+  PetscInt i,n,ndof;
+
+  // The file has one value per cell, in natural order. Give it the layout of
+  // the solution, which may have several unknowns per cell.
+  ierr = TDyCreateGlobalVector(tdy, &u_dofs);CHKERRQ(ierr);
+  ierr = VecGetLocalSize(u_dofs,&n);CHKERRQ(ierr);
+  ierr = VecGetBlockSize(u_dofs,&ndof);CHKERRQ(ierr);
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecSetSizes(u,n/ndof,PETSC_DETERMINE);CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName);CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
-  ierr = TDyCreateLocalVector(tdy, &u_local);
-  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u,&u_local);CHKERRQ(ierr);
+  ierr = VecStrideScatter(u,0,u_dofs,INSERT_VALUES);CHKERRQ(ierr);
+  ierr = TDyCreateLocalVector(tdy, &u_local);CHKERRQ(ierr);
+  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u_dofs,&u_local);CHKERRQ(ierr);
 
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
-  ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
+  ierr = VecGetLocalSize(u_local,&n);CHKERRQ(ierr);
+  n /= ndof;
 
   ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
-    (*variable)[i] = ptr[i];
+    (*variable)[i] = ptr[i*ndof];
   }
 
-  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
-
   ierr = VecRestoreArray(u_local,&ptr);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_local);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_dofs);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -353,6 +369,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   ierr = PetscObjectSetName((PetscObject) p_natural,"IC");CHKERRQ(ierr);
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
   ierr = PetscViewerHDF5WriteAttribute(viewer,NULL,"time step", PETSC_INT, (void *) &tdy->ti->istep);CHKERRQ(ierr);
+  ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 4b93332888df3fa657ebb8f4680c198be2f6fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 050/106] fix: names of text output files overran their buffer

---
 src/tdyio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index e1b7655..b3f9558 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -599,7 +599,7 @@ PetscErrorCode TDyIOWriteExodusVar(char *ofilename, Vec U, char *VariableName, T
 }
 
 PetscErrorCode TDyIOWriteAsciiViewer(Vec U,PetscReal time,char *VariableName) {
-  char word[32];
+  char word[PETSC_MAX_PATH_LEN];
   PetscViewer viewer;
   PetscErrorCode ierr;
   PetscFunctionBegin;
-- 
2.43.0


From 11399912d01e1c7cb08c49c89d86e93fed5c06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 051/106] fix: out.xmf was wrong with several processes or
 unknowns per cell, and written without HDF5 output

---
 src/tdyio.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index b3f9558..2aa0216 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -386,7 +386,7 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
   char *zonalVarNames[num_vars];
 
-  PetscInt dim,istart,iend,numCell,numVert,numCorner;
+  PetscInt dim,numCell,numVert,numCorner;
 
   for (n=0;n<num_vars;++n){
     zonalVarNames[n] =  tdy->io->zonalVarNames[n];
@@ -402,12 +402,21 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
     char *ofilename = tdy->io->filename;
     numCorner = TDyGetNumberOfCellVertices(dm);
     ierr = DMGetDimension(dm,&dim);CHKERRQ(ierr);
-    ierr = DMPlexGetHeightStratum(dm,3,&istart,&iend);CHKERRQ(ierr);
-    numVert = iend-istart;
+    PetscMPIInt rank;
+    PetscInt ndof;
+    Vec coords;
+    ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+    ierr = DMGetCoordinates(dm,&coords);CHKERRQ(ierr);
+    ierr = VecGetSize(coords, &numVert);CHKERRQ(ierr);
+    numVert /= dim;
     ierr = VecGetSize(tdy->soln_prev, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(tdy->soln_prev, &ndof);CHKERRQ(ierr);
+    numCell /= ndof;
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
-    ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    if (rank == 0) {
+      ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    }
   }
 
   PetscFunctionReturn(0);
@@ -530,7 +539,10 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   if (rank == 0){
+    PetscInt ndof;
     ierr = VecGetSize(U, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(U, &ndof);CHKERRQ(ierr);
+    numCell /= ndof;
     ierr = TDyIOWriteXMFAttribute(VariableName,word,numCell);CHKERRQ(ierr);
   }
 
@@ -728,7 +740,14 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 
 PetscErrorCode TDyIODestroy(TDyIO *io) {
   PetscFunctionBegin;
-  TDyIOWriteXMFFooter();
+  if ((*io)->format == HDF5Format) {
+    PetscMPIInt rank;
+    PetscErrorCode ierr;
+    ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+    if (rank == 0) {
+      ierr = TDyIOWriteXMFFooter(); CHKERRQ(ierr);
+    }
+  }
   TDyFree(*io);
   io = PETSC_NULL;
   PetscFunctionReturn(0);
-- 
2.43.0


From f082c098a2b629d771974282eba17e89c8727e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 052/106] fix: regression files mixed up the unknowns in
 salinity mode and listed cells twice with few cells per process

---
 src/tdyregression.c | 47 +++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 237957f..7d7f09c 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -26,8 +26,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
 
-  ndof_per_cell = 1;
-  if (tdy->options.mode == TH) ndof_per_cell = 2;
+  ndof_per_cell = (tdy->options.mode == RICHARDS) ? 1 : 2;
 
   ierr = TDyAlloc(sizeof(TDyRegression), &regression); CHKERRQ(ierr);
 
@@ -56,19 +55,20 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
   ierr = MPI_Allreduce(&vecsize_local,&min_vecsize_local,1,MPIU_INT,MPI_MIN,PetscObjectComm((PetscObject)dm)); CHKERRQ(ierr);
 
-  if (min_vecsize_local<regression->num_cells_per_process) {
-    regression->num_cells_per_process = min_vecsize_local;
+  if (min_vecsize_local/ndof_per_cell<regression->num_cells_per_process) {
+    regression->num_cells_per_process = min_vecsize_local/ndof_per_cell;
+  }
+  if (regression->num_cells_per_process < 0) {
+    regression->num_cells_per_process = 0;
   }
 
   if (myrank == 0) {
     ierr = TDyAlloc(ndof_per_cell*size*regression->num_cells_per_process*sizeof(PetscInt),&(regression->cells_per_process_natural_ids)); CHKERRQ(ierr);
   }
 
-  if (tdy->options.mode == TH) {
-    increment = floor(vecsize_local/regression->num_cells_per_process/2);
-  }
-  else {
-    increment = floor(vecsize_local/regression->num_cells_per_process);
+  increment = 0;
+  if (regression->num_cells_per_process > 0) {
+    increment = vecsize_local/ndof_per_cell/regression->num_cells_per_process;
   }
 
 
@@ -145,11 +145,13 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscErrorCode ierr;
   PetscInt c;
   Vec U_pres, U_temp;
+  PetscBool two_fields; // temperature or salt concentration besides pressure
 
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
 
   reg = tdy->regression;
+  two_fields = (PetscBool)(tdy->options.mode != RICHARDS);
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
 
@@ -166,22 +168,17 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscInt pres_vec_size, temp_vec_size, vec_local_size;
 
 
-  PetscSection sec;
-  PetscInt num_fields;
-  ierr = DMGetLocalSection(dm,&sec); CHKERRQ(ierr);
-  ierr = PetscSectionGetNumFields(sec,&num_fields); CHKERRQ(ierr);
-
   PetscReal *temp_p, *pres_p, *u_p;
   ierr = VecGetLocalSize(U,&vec_local_size); CHKERRQ(ierr);
   ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {
+  if (two_fields) {
     vec_local_size = vec_local_size/2;
   }
   ierr = VecSetSizes(U_pres,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
   ierr = VecSetFromOptions(U_pres); CHKERRQ(ierr);
   ierr = VecGetArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_fields) {
     ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_temp); CHKERRQ(ierr);
     ierr = VecSetSizes(U_temp,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
     ierr = VecSetFromOptions(U_temp); CHKERRQ(ierr);
@@ -191,7 +188,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
 
   ierr = VecGetArray(U,&u_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH && num_fields == 2) {
+  if (two_fields) {
     for (c=0;c<vec_local_size;c++) {
       pres_p[c] = u_p[c*2];
       temp_p[c] = u_p[c*2+1];
@@ -205,7 +202,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecRestoreArray(U,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_fields) {
     ierr = VecRestoreArray(U_temp,&temp_p); CHKERRQ(ierr);
   }
 
@@ -215,7 +212,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecGetSize(U_pres,&pres_vec_size); CHKERRQ(ierr);
   mean_pres_val = mean_pres_val/pres_vec_size;
 
-  if (tdy->options.mode == TH) {
+  if (two_fields) {
     ierr = VecMax(U_temp,NULL,&max_temp_val); CHKERRQ(ierr);
     ierr = VecMin(U_temp,NULL,&min_temp_val); CHKERRQ(ierr);
     ierr = VecSum(U_temp,&mean_temp_val); CHKERRQ(ierr);
@@ -241,7 +238,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
     fprintf(fp,"      Min: %21.13e\n",min_pres_val);
     fprintf(fp,"     Mean: %21.13e\n",mean_pres_val);
 
-    if (tdy->options.mode == TH) {
+    if (two_fields) {
       for (i=0; i<count/2; i++) {
         fprintf(fp,"%9d: %21.13e\n",reg->cells_per_process_natural_ids[2*i]/2,vec_ptr[2*i]);
       }
@@ -251,8 +248,12 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
       }
     }
 
-    if (tdy->options.mode == TH) {
-      fprintf(fp,"-- GENERIC: Temperature --\n");
+    if (two_fields) {
+      if (tdy->options.mode == TH) {
+        fprintf(fp,"-- GENERIC: Temperature --\n");
+      } else {
+        fprintf(fp,"-- CONCENTRATION: Saline Concentration --\n");
+      }
       fprintf(fp,"      Max: %21.13e\n",max_temp_val);
       fprintf(fp,"      Min: %21.13e\n",min_temp_val);
       fprintf(fp,"     Mean: %21.13e\n",mean_temp_val);
@@ -267,7 +268,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   }
 
   ierr = VecDestroy(&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
+  if (two_fields) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 36c9a6a433283cd3766b183b2708df9a750f894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 053/106] fix: the liquid pressure could not be retrieved with
 two unknowns per cell

---
 src/tdycore.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index a3fd023..b79e468 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1906,8 +1906,8 @@ static PetscErrorCode ExtractPrognosticField(TDy tdy, PetscInt index, Vec vec) {
   PetscFunctionReturn(0);
 }
 
-/// Given a Vec created with TDyCreatePrognosticVector, populates that vector
-/// with the saturation values for each cell in the grid.
+/// Given a Vec with one value per cell (see TDyCreateDiagnosticVector), populates
+/// that vector with the liquid pressure for each cell in the grid.
 /// @param [in] tdy A TDy object
 /// @param [out] liq_pres_vec The Vec that stores the cell-centered liquid pressure field.
 ///                           The values in the Vec are in natural-order.
@@ -1916,9 +1916,9 @@ PetscErrorCode TDyGetLiquidPressure(TDy tdy, Vec liq_press_vec) {
   PetscFunctionBegin;
 
   Vec tmp_vec;
-  ierr = TDyCreateGlobalVector(tdy, &tmp_vec); CHKERRQ(ierr);
+  ierr = VecDuplicate(liq_press_vec, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractPrognosticField(tdy, VAR_PRESSURE, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, liq_press_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = ScalarGlobalToNatural(tdy, tmp_vec, liq_press_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
-- 
2.43.0


From afe4dcb90fa0bba6ca668ff5c6ed041b3bc9b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 054/106] fix: the driver replaced the saline molecular weight
 the program had set by the option's value

---
 src/tdydriver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index 4676577..b161345 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -80,8 +80,10 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
           tdy->options.soil_specific_heat); CHKERRQ(ierr);
     }
   } else if (tdy->options.mode == SALINITY) {
-    ierr = TDySetConstantSalineMolecularWeight(tdy,
-      tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    if (!MaterialPropHasSalineMolecularWeight(tdy->matprop)) {
+      ierr = TDySetConstantSalineMolecularWeight(tdy,
+        tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    }
     if (!MaterialPropHasSalineDiffusivity(tdy->matprop)) {
       ierr = TDySetConstantIsotropicSalineDiffusivity(tdy,
         tdy->options.saline_diffusivity);CHKERRQ(ierr);
-- 
2.43.0


From 568fa9c18c3c31f0b9814803d3cf34ff218435b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 055/106] fix: errors while reading porosity and initial
 condition files were ignored

---
 src/tdydriver.c | 2 +-
 src/tdyio.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index b161345..d772792 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -216,7 +216,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
    size_t len;
    ierr = PetscStrlen(tdy->io->ic_filename, &len); CHKERRQ(ierr);
    if (len){
-     TDyIOReadIC(tdy); CHKERRQ(ierr);
+     ierr = TDyIOReadIC(tdy); CHKERRQ(ierr);
    }
   // finish set of time integrators
   switch(tdy->ti->time_integration_method) {
diff --git a/src/tdyio.c b/src/tdyio.c
index 2aa0216..f3dad2e 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -248,10 +248,10 @@ PetscErrorCode TDyIOReadPorosity(TDy tdy){
   }
 
   PetscReal *Porosity;
-  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);
+  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);CHKERRQ(ierr);
 
   ierr = MaterialPropSetPorosity(tdy->matprop, Porosity, AssignScalars,
-                                 ScalarsDestroy);
+                                 ScalarsDestroy);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 7f1dd749f5ce67b07d9677877c3d6caccda76340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 056/106] fix: a default mode or discretization that the
 program left to the options crashed TDySetFromOptions

---
 src/tdycore.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index b79e468..3ecb639 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -612,11 +612,9 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   // Override the mode and/or discretization if needed, validating only the
   // resulting combination.
   PetscBool reset = (options->discretization != discretization) ||
-    ((options->mode != mode) && (tdy->setup_flags & TDyDiscretizationSet));
-  if (options->mode != mode) {
-    options->mode = mode;
-    tdy->setup_flags |= TDyModeSet;
-  }
+    (options->mode != mode) || !(tdy->setup_flags & TDyDiscretizationSet);
+  options->mode = mode;
+  tdy->setup_flags |= TDyModeSet;
   if (reset) {
     ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
   }
-- 
2.43.0


From 3f81b8f7cc9545d203ab82acc8457aa5fc4c1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 057/106] fix: the function registry kept pointers to its
 callers' names

---
 src/tdycore.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 3ecb639..b52d4f4 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -214,6 +214,9 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
+  for (khiter_t iter = kh_begin(funcs_); iter != kh_end(funcs_); ++iter) {
+    if (kh_exist(funcs_, iter)) free((void*)kh_key(funcs_, iter));
+  }
   kh_destroy(TDY_FUNC_MAP, funcs_);
   funcs_ = NULL;
 }
@@ -233,6 +236,9 @@ PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
 
   int retval;
   khiter_t iter = kh_put(TDY_FUNC_MAP, funcs_, name, &retval);
+  if (retval > 0) { // a new entry, which keeps its own copy of the name
+    kh_key(funcs_, iter) = strdup(name);
+  }
   kh_val(funcs_, iter) = f;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 8b7c2a6f2fa347b16f4b87f485e429a8a917014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 058/106] fix: isotropic and diagonal properties were stored as
 3x3 tensors in two dimensions

The material properties assumed three dimensions, whatever the mesh, so
the finite element methods, which read dim x dim tensors, took other
entries; and diagonal property functions, documented to return dim values
per point, were read with a stride of three.
---
 src/materials/tdymaterialproperties.c | 4 ++--
 src/tdycore.c                         | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 85f8451..d274a40 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -494,11 +494,11 @@ static PetscErrorCode DiagonalTensorWrapperFunction(void *context, PetscInt n,
   WrapperStruct *wrapper = context;
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
-  PetscReal values[3*n];
+  PetscReal values[dim*n];
   wrapper->func(n, x, values);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
-      f[dim2*i+j*dim+j] = values[3*i+j];
+      f[dim2*i+j*dim+j] = values[dim*i+j];
     }
   }
   PetscFunctionReturn(0);
diff --git a/src/tdycore.c b/src/tdycore.c
index b52d4f4..7ad5dce 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -735,7 +735,10 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
 
   }
 
-  PetscInt dim = 3;
+  DM dm;
+  PetscInt dim;
+  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
+  ierr = DMGetDimension(dm, &dim); CHKERRQ(ierr);
 
   // Create an empty material properties object. Each function must be set
   // explicitly by the driver program.
-- 
2.43.0


From f786b4b004d9d04d6afe80fdea9f8b818ab7c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 059/106] fix: assembling the BDM system inverted the
 permeability in place

A second assembly (and every other one after it) used the inverse
permeability.
---
 src/fe/tdybdm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 90e174e..befd810 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -426,7 +426,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
   PetscInt dim,dim2,nlocal,pStart,pEnd,c,cStart,cEnd,q,nq,nfq,nv,vi,vj,di,dj,
     local_row,local_col,isbc,f,nq1d=3;
   PetscScalar x[81],DF[243],DFinv[243],J[27],Klocal[MAX_LOCAL_SIZE],
-              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72];
+              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72],Kinv[9];
   const PetscScalar *quad_x,*fquad_x;
   const PetscScalar *quad_w,*fquad_w;
   PetscQuadrature quadrature;
@@ -469,8 +469,9 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = PetscMemzero(Klocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
     ierr = PetscMemzero(Flocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
 
-    /* Invert permeability, in place */
-    Inverse(&(bdm->K[dim2*(c-cStart)]),dim);
+    /* Invert a copy of the permeability */
+    ierr = PetscMemcpy(Kinv,&(bdm->K[dim2*(c-cStart)]),sizeof(PetscScalar)*dim2); CHKERRQ(ierr);
+    ierr = Inverse(Kinv,dim); CHKERRQ(ierr);
 
     /* Integrate (Kappa^-1 u_i, v_j) */
     for(q=0; q<nq; q++) {
@@ -492,7 +493,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
             for(dj=0; dj<dim; dj++) {
               local_col = vj*dim+dj;
               /* (K^-1 u, v) */
-              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(&(bdm->K[dim2*(c-cStart)]),
+              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(Kinv,
                   &(basis_hdiv[dim*local_row]),
                   &(basis_hdiv[dim*local_col]),dim)*quad_w[q]*J[q];
             }
-- 
2.43.0


From 5be2dfa1d337ad149fe43f57043e84243d78fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 060/106] fix: BDM boundary conditions looked for a label that
 only box meshes have

BDM failed on meshes read from files or made by the program; it now uses
the boundary label TDySetFromOptions creates, like all other
discretizations.
---
 src/fe/tdybdm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index befd810..9e1f5da 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -517,9 +517,9 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = DMPlexGetConeSize(dm,c,&coneSize); CHKERRQ(ierr);
     ierr = DMPlexGetCone    (dm,c,&cone); CHKERRQ(ierr);
     for(f=0;f<coneSize;f++){
-      ierr = DMGetLabelValue(dm,"marker",cone[f],&isbc); CHKERRQ(ierr);
+      ierr = DMGetLabelValue(dm,"boundary",cone[f],&isbc); CHKERRQ(ierr);
       if(isbc == 1 && ConditionsHasBoundaryPressure(conditions)) {
-        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal);
+        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal); CHKERRQ(ierr);
       }
     } /* end faces */
 
-- 
2.43.0


From 6190982847055835dd9c15f6ced6dccb3f4be013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 061/106] fix: BDM boundary integrals on faces that are not
 parallelograms used the face's Jacobian at other points

---
 src/fe/tdybdm.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 9e1f5da..7077e62 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -334,7 +334,7 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
   PetscQuadrature quadrature,face_quadrature;
   const PetscScalar *fquad_x,*fquad_w;
   PetscReal *single_point,*single_weight,lside[24],x[3],DF[9],DFinv[9],J[1],basis[72],g;
-  PetscReal fJ[9],dummy[200],normal[3];
+  PetscReal normal[3];
   PetscInt i,j,q,v,d,dim,ncv,nfq,nq1d,face_side,face_dir;
   ncv = bdm->ncv;
   nq1d = 3;
@@ -359,21 +359,16 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
   face_side = -1; face_dir = -1;
   for(v=0; v<ncv; v++) {
     for(d=0; d<dim; d++) {
-      normal[d] = bdm->N[f*dim+d];
       if(PetscAbsInt(bdm->emap[c*ncv*dim+v*dim+d]) == f) {
         face_side = lside[v*dim+d];
         face_dir  = d;
       }
     }
   }
-  if(TDyADotBMinusC(normal,&(bdm->X[f*dim]),&(bdm->X[c*dim]),dim) < 0){
-    for(d=0; d<dim; d++) normal[d] *= -1;
-  }
 
   /* face quadrature setup */
   ierr = PetscDTGaussTensorQuadrature(dim-1,1,nq1d,-1,+1,&face_quadrature); CHKERRQ(ierr);
   ierr = PetscQuadratureGetData(face_quadrature,NULL,NULL,&nfq,&fquad_x,&fquad_w); CHKERRQ(ierr);
-  ierr = DMPlexComputeCellGeometryFEM(dm,f,face_quadrature,dummy,dummy,dummy,fJ); CHKERRQ(ierr);
 
   /* dummy 1 point quadrature to get the mapping information */
   ierr = PetscQuadratureCreate(PETSC_COMM_SELF,&quadrature); CHKERRQ(ierr);
@@ -403,9 +398,15 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
     }else{
       HdivBasisHex(single_point,basis,DF,J[0]);
     }
+    /* outward normal times the area ratio between the face and its reference
+       face, at this quadrature point (the face numbers its own quadrature
+       points in another order) */
+    for(d=0; d<dim; d++) {
+      normal[d] = PetscPowInt(-1,face_side+1)*J[0]*DFinv[face_dir*dim+d];
+    }
     /* -<g,v.n>|_q */
     ierr = ConditionsComputeBoundaryPressure(conditions, 1, x, &g);CHKERRQ(ierr);
-    for(i=0; i<ncv*dim; i++) gvdotn[i] -= g*TDyADotB(&(basis[i*dim]),normal,dim)*fquad_w[q]*fJ[q];
+    for(i=0; i<ncv*dim; i++) gvdotn[i] -= g*TDyADotB(&(basis[i*dim]),normal,dim)*fquad_w[q];
   }
 
   ierr = PetscQuadratureDestroy(&quadrature); CHKERRQ(ierr);
-- 
2.43.0


From 599284ac0efe3e549fd4d3d73da29969958db133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 062/106] fix: the WY residual left the cell volume out of the
 accumulation term

---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 7c17ed4..6769823 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1062,7 +1062,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
       }
     }
 
-    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c] + div - wy->Flocal[c-cStart];
+    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c]*wy->V[c] + div - wy->Flocal[c-cStart];
     //PetscPrintf(PETSC_COMM_WORLD,"R[%2d] = %+e %+e %+e = %+e\n",
     // 	c,wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c],
     // 		div,wy->Flocal[c-cStart],r[c]);
-- 
2.43.0


From bd24a11c07fe53d8e46042c67805458572f13fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 063/106] fix: WY ignored the residual saturation it was given

---
 src/fe/tdywy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 6769823..cc3ba63 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -512,6 +512,9 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   ierr = MaterialPropComputePermeability(matprop, nc, wy->X, wy->K0); CHKERRQ(ierr);
   memcpy(wy->K, wy->K0, 9*sizeof(PetscReal)*nc);
   MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity);
+  if (MaterialPropHasResidualSaturation(matprop)) {
+    ierr = MaterialPropComputeResidualSaturation(matprop, nc, wy->X, wy->Sr); CHKERRQ(ierr);
+  }
 
   /* Setup the section, 1 dof per cell */
   PetscSection sec;
-- 
2.43.0


From 28073ba3e0bb662d3f3c7cf41424716fa124b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 064/106] fix: the WY residual passed a local vector where a
 global one is expected

---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index cc3ba63..3b92c70 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1041,7 +1041,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy,p,cEnd-cStart); CHKERRQ(ierr);
   ierr = TDyWYLocalElementCompute(tdy); CHKERRQ(ierr);
-  ierr = TDyWYRecoverVelocity(tdy,Ul); CHKERRQ(ierr);
+  ierr = TDyWYRecoverVelocity(tdy,U); CHKERRQ(ierr);
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
   for(c=cStart; c<cEnd; c++) {
-- 
2.43.0


From 15aa1c8313327fc41cc1240fdf4a2c83f27d1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 065/106] fix: WY and BDM could not match quadrature points and
 vertices of large or distant meshes

---
 src/fe/tdyfe.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index dcee4e5..9e1b525 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -19,7 +19,7 @@ const char *const TDyQuadratureTypes[] = {
 PetscErrorCode CreateCellVertexMap(DM dm, PetscInt nv, PetscReal *X, PetscInt **map) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  PetscInt dim,i,v,vStart,vEnd,c,cStart,cEnd,closureSize,*closure;
+  PetscInt dim,d,i,v,vStart,vEnd,c,cStart,cEnd,closureSize,*closure;
   PetscQuadrature quad;
   PetscReal x[24],DF[72],DFinv[72],J[8];
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
@@ -36,10 +36,17 @@ PetscErrorCode CreateCellVertexMap(DM dm, PetscInt nv, PetscReal *X, PetscInt **
     closure = NULL;
     ierr = DMPlexGetTransitiveClosure(dm,c,PETSC_TRUE,&closureSize,&closure);
     CHKERRQ(ierr);
+    // rounding errors are relative to the size of the coordinates
+    PetscReal tol = 0.0;
+    for (i=0; i<closureSize*2; i+=2) {
+      if ((closure[i] >= vStart) && (closure[i] < vEnd)) {
+        for (d=0; d<dim; d++) tol = PetscMax(tol,1e-12*PetscAbsReal(X[closure[i]*dim+d]));
+      }
+    }
     for(v=0; v<nv; v++) {
       for (i=0; i<closureSize*2; i+=2) {
         if ((closure[i] >= vStart) && (closure[i] < vEnd)) {
-          if (TDyL1norm(&(x[v*dim]),&(X[closure[i]*dim]),dim) > 1e-12) continue;
+          if (TDyL1norm(&(x[v*dim]),&(X[closure[i]*dim]),dim) > tol) continue;
           (*map)[c*nv+v] = closure[i];
           break;
         }
-- 
2.43.0


From 4e9b8e0ba3a5da9a19ec0d7822da77fbfe16f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 066/106] fix: the thermal residual read rates past the end of
 the owned cells

---
 src/fv/mpfao/tdympfao_th_ts.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..a2cc91a 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -210,15 +210,15 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
   ierr = VecGetArray(U_t,&du_dt); CHKERRQ(ierr);
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
 
-  PetscInt c,cStart,cEnd;
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
+  // Rates are given for the cells owned by this process only.
+  PetscInt c,nlocal;
+  ierr = VecGetLocalSize(U_t,&nlocal); CHKERRQ(ierr);
+  nlocal /= 2;
 
-  PetscReal dp_dt[cEnd-cStart],
-            temp[cEnd-cStart], dtemp_dt[cEnd-cStart];
+  PetscReal dp_dt[nlocal],
+            temp[nlocal], dtemp_dt[nlocal];
   ierr = VecGetArray(tdy->soln_loc,&u_p); CHKERRQ(ierr);
-  for (c=0;c<cEnd-cStart;c++) {
+  for (c=0;c<nlocal;c++) {
     dp_dt[c]    = du_dt[c*2];
     dtemp_dt[c] = du_dt[c*2+1];
     temp[c]     = u_p[c*2+1];
-- 
2.43.0


From 2a7a1d13b5d1bccd02ff1560d25b4699d47edcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 067/106] fix: Fortran spatial functions got only the first n
 of dim*n coordinates

---
 src/f90-mod/tdycoref.c     | 14 +++++++-------
 src/f90-mod/tdycoremod.F90 | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index 5b565d1..774f397 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -272,11 +272,11 @@ typedef struct F90IntegerSpatialFunctionWrapper {
 } F90IntegerSpatialFunctionWrapper;
 
 // This subroutine is defined on the Fortran side and calls the Fortran-defined
-// spatial function with the given ID.
-extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscReal*,
+// spatial function with the given ID (on points with the given dimension).
+extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscInt, PetscReal*,
                                       PetscReal*, PetscErrorCode*);
 
-extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscReal*,
+extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscInt, PetscReal*,
                                       PetscInt*, PetscErrorCode*);
 
 // This creates a wrapped F90 function context.
@@ -313,7 +313,7 @@ static PetscErrorCode WrappedF90SpatialFunction(void *context, PetscInt n,
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90SpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, n, wrapper->dim, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -322,7 +322,7 @@ static PetscErrorCode WrappedF90IntegerSpatialFunction(void *context, PetscInt n
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90IntegerSpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90IntegerSpatialFunction(wrapper->id, n, wrapper->dim, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -337,7 +337,7 @@ static PetscErrorCode WrappedF90IsotropicTensorFunction(void *context, PetscInt
   PetscInt dim2 = dim*dim;
   PetscReal values[n];
   memset(f, 0, n * dim2 * sizeof(PetscReal));
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, n, wrapper->dim, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[i];
@@ -356,7 +356,7 @@ static PetscErrorCode WrappedF90DiagonalTensorFunction(void *context, PetscInt n
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   PetscReal values[dim*n];
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, n, wrapper->dim, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[dim*i+j];
diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index d2637a7..1d526c5 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -303,12 +303,12 @@ module tdycore
 
   ! This subroutine calls the TDySpatialFunction with the given id, supplying
   ! it with the given parameters.
-  subroutine TDyCallF90SpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90SpatialFunction(id, n, dim, c_x, c_f, ierr) &
       bind(c, name="TDyCallF90SpatialFunction")
     use, intrinsic :: iso_c_binding
     implicit none
     integer(c_int), value, intent(in) :: id
-    integer(c_int), value, intent(in) :: n
+    integer(c_int), value, intent(in) :: n, dim
     type(c_ptr),    value, intent(in) :: c_x, c_f
     integer(c_int),       intent(out) :: ierr
 
@@ -316,17 +316,17 @@ module tdycore
     real(c_double), dimension(:), pointer  :: f_x, f_f
 
     f_func => spatial_funcs_(id)%f
-    call c_f_pointer(c_x, f_x, [n])
+    call c_f_pointer(c_x, f_x, [n*dim])
     call c_f_pointer(c_f, f_f, [n])
     call f_func(n, f_x, f_f, ierr)
   end subroutine
 
-  subroutine TDyCallF90IntegerSpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90IntegerSpatialFunction(id, n, dim, c_x, c_f, ierr) &
     bind(c, name="TDyCallF90IntegerSpatialFunction")
   use, intrinsic :: iso_c_binding
   implicit none
   integer(c_int), value, intent(in) :: id
-  integer(c_int), value, intent(in) :: n
+  integer(c_int), value, intent(in) :: n, dim
   type(c_ptr),    value, intent(in) :: c_x, c_f
   integer(c_int),       intent(out) :: ierr
 
@@ -335,7 +335,7 @@ module tdycore
   integer(c_int), dimension(:), pointer ::  f_f
 
   f_func => integer_spatial_funcs_(id)%f
-  call c_f_pointer(c_x, f_x, [n])
+  call c_f_pointer(c_x, f_x, [n*dim])
   call c_f_pointer(c_f, f_f, [n])
   call f_func(n, f_x, f_f, ierr)
 end subroutine
-- 
2.43.0


From 6f0195d183c9fb57cd23363d19f286890f376640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 068/106] fix: Fortran setters with procedure pointer arguments
 stored the address of the pointer

TDySetForcingFunction, TDySetEnergyForcingFunction, TDySetBoundaryVelocityFunction and
TDyRegisterFunction passed their pointer argument on to a procedure argument; gfortran
then stores the address of the caller's pointer variable, and the first evaluation of
the function jumps into data. Their argument is a procedure now, as in the other
setters; callers may still pass a procedure pointer.
---
 src/f90-mod/tdycoremod.F90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 1d526c5..e90d45d 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -424,7 +424,7 @@ end subroutine
 
   subroutine RegisterSpatialFunction(name, func)
     character(len=*), intent(in)           :: name
-    procedure(TDySpatialFunction), pointer :: func
+    procedure(TDySpatialFunction) :: func
 
     integer :: id
 
@@ -462,7 +462,7 @@ end subroutine
     use, intrinsic :: iso_c_binding
     implicit none
     character(len=*), intent(in)            :: name
-    procedure(TDySpatialFunction), pointer  :: func
+    procedure(TDySpatialFunction) :: func
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
@@ -564,7 +564,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction) :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
@@ -590,7 +590,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction) :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
@@ -668,7 +668,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction) :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
-- 
2.43.0


From 4d5617ecbef5163d88cf362e826ed022686b24e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 069/106] fix: the Fortran registry mixed up spatial functions

Real and integer functions shared one counter, so a function set after one of the other
kind replaced an earlier one; the 33rd function was looked up past the end of the array.
TDySelect*Function compared names with name(1:32) past the end of shorter names, found
functions renamed by a second registration no more, and crashed on an unknown name;
TDyRegisterFunction left its error code unset.
---
 src/f90-mod/tdycoremod.F90 | 172 ++++++++++++++++++-------------------
 1 file changed, 86 insertions(+), 86 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index e90d45d..f445326 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -13,8 +13,10 @@ module tdycore
 
   public
 
-  private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, &
-             SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
+  private :: spatial_funcs_, integer_spatial_funcs_, named_spatial_funcs_, &
+             num_spatial_funcs_, num_integer_spatial_funcs_, &
+             SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, NamedSpatialFunction, &
+             FindOrAppendSpatialFunction, FindOrAppendIntegerSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
   !> A TDySpatialFunction is a function that computes values f on n points x,
@@ -49,14 +51,21 @@ module tdycore
     procedure(TDyIntegerSpatialFunction), pointer, nopass :: f => null()
   end type
 
-  ! An array of Fortran TDySpatialFunctions and any associated names
+  ! Derived type for a TDySpatialFunction registered by name.
+  type :: NamedSpatialFunction
+    character(len=:), allocatable :: name
+    procedure(TDySpatialFunction), pointer, nopass :: f => null()
+  end type
+
+  ! Arrays of Fortran TDySpatialFunctions (indexed by ID) and the numbers of
+  ! functions they hold
   type(SpatialFunctionWrapper), dimension(:), allocatable :: spatial_funcs_
   type(IntegerSpatialFunctionWrapper), dimension(:), allocatable :: integer_spatial_funcs_
-  character(len=32), dimension(:), allocatable :: spatial_func_names_
-  character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
+  integer(c_int) :: num_spatial_funcs_ = 0
+  integer(c_int) :: num_integer_spatial_funcs_ = 0
 
-  ! The ID of the most recently added spatial function
-  integer(c_int) :: last_spatial_func_id_
+  ! Functions that have been registered by name
+  type(NamedSpatialFunction), dimension(:), allocatable :: named_spatial_funcs_
 
   interface
      subroutine TDyFinalize(ierr)
@@ -340,112 +349,97 @@ module tdycore
   call f_func(n, f_x, f_f, ierr)
 end subroutine
 
-! This function finds the ID of the given spatial function, or appends it to
+  ! This function finds the ID of the given spatial function, or appends it to
   ! the list if it's not found. In either case, the resulting ID is returned.
   function FindOrAppendSpatialFunction(func) result(id)
     implicit none
     procedure(TDySpatialFunction) :: func
-    type(SpatialFunctionWrapper)  :: elem
-    integer :: id
     type(SpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
-    character(len=32), dimension(:), allocatable :: new_names_array
-    integer :: old_size
-
-    if (.not. allocated(spatial_funcs_)) then
-      allocate(spatial_funcs_(32))
-      allocate(spatial_func_names_(32))
-      last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_
-        if (associated(spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
-    end if
+    integer :: id
 
-    if (.not. associated(spatial_funcs_(id)%f, func)) then
-      ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
-        old_size = size(spatial_funcs_)
-        allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
-        new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = spatial_func_names_(1:old_size)
-        call move_alloc(new_funcs_array, spatial_funcs_)
-        call move_alloc(new_names_array, spatial_func_names_)
-      end if
-      elem%f => func
-      spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+    if (.not. allocated(spatial_funcs_)) allocate(spatial_funcs_(32))
+    do id = 1, num_spatial_funcs_
+      if (associated(spatial_funcs_(id)%f, func)) return
+    end do
+
+    ! We didn't find the function, so we must append it.
+    if (num_spatial_funcs_ == size(spatial_funcs_)) then ! need more room
+      allocate(new_funcs_array(2*num_spatial_funcs_))
+      new_funcs_array(1:num_spatial_funcs_) = spatial_funcs_
+      call move_alloc(new_funcs_array, spatial_funcs_)
     end if
+    num_spatial_funcs_ = num_spatial_funcs_ + 1
+    id = num_spatial_funcs_
+    spatial_funcs_(id)%f => func
   end function
 
   function FindOrAppendIntegerSpatialFunction(func) result(id)
     implicit none
     procedure(TDyIntegerSpatialFunction) :: func
-    type(IntegerSpatialFunctionWrapper)  :: elem
-    integer :: id
     type(IntegerSpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
-    character(len=32), dimension(:), allocatable :: new_names_array
-    integer :: old_size
-
-    if (.not. allocated(integer_spatial_funcs_)) then
-      allocate(integer_spatial_funcs_(32))
-      allocate(integer_spatial_func_names_(32))
-      last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_
-        if (associated(integer_spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
-    end if
+    integer :: id
 
-    if (.not. associated(integer_spatial_funcs_(id)%f, func)) then
-      ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
-        old_size = size(integer_spatial_funcs_)
-        allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
-        new_funcs_array(1:old_size) = integer_spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = integer_spatial_func_names_(1:old_size)
-        call move_alloc(new_funcs_array, integer_spatial_funcs_)
-        call move_alloc(new_names_array, integer_spatial_func_names_)
-      end if
-      elem%f => func
-      integer_spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+    if (.not. allocated(integer_spatial_funcs_)) allocate(integer_spatial_funcs_(32))
+    do id = 1, num_integer_spatial_funcs_
+      if (associated(integer_spatial_funcs_(id)%f, func)) return
+    end do
+
+    ! We didn't find the function, so we must append it.
+    if (num_integer_spatial_funcs_ == size(integer_spatial_funcs_)) then ! need more room
+      allocate(new_funcs_array(2*num_integer_spatial_funcs_))
+      new_funcs_array(1:num_integer_spatial_funcs_) = integer_spatial_funcs_
+      call move_alloc(new_funcs_array, integer_spatial_funcs_)
     end if
+    num_integer_spatial_funcs_ = num_integer_spatial_funcs_ + 1
+    id = num_integer_spatial_funcs_
+    integer_spatial_funcs_(id)%f => func
   end function
 
+  ! This subroutine gives a spatial function a name. As in C, a name that is
+  ! registered again refers to the new function.
   subroutine RegisterSpatialFunction(name, func)
     character(len=*), intent(in)           :: name
     procedure(TDySpatialFunction) :: func
 
-    integer :: id
+    type(NamedSpatialFunction), dimension(:), allocatable :: new_names
+    integer :: i
 
-    ! Assign an ID to the function and set its name.
-    id = FindOrAppendSpatialFunction(func)
-    spatial_func_names_(id) = name
+    if (.not. allocated(named_spatial_funcs_)) allocate(named_spatial_funcs_(0))
+    do i = 1, size(named_spatial_funcs_)
+      if (named_spatial_funcs_(i)%name == name) then
+        named_spatial_funcs_(i)%f => func
+        return
+      end if
+    end do
+
+    allocate(new_names(size(named_spatial_funcs_) + 1))
+    new_names(1:size(named_spatial_funcs_)) = named_spatial_funcs_
+    i = size(new_names)
+    new_names(i)%name = name
+    new_names(i)%f => func
+    call move_alloc(new_names, named_spatial_funcs_)
   end subroutine
 
-  function GetSpatialFunction(name) result(func)
+  ! This subroutine retrieves the spatial function with the given name, or sets
+  ! a non-zero error status if there's no such function.
+  subroutine GetSpatialFunction(name, func, ierr)
     character(len=*), intent(in)  :: name
     procedure(TDySpatialFunction), pointer :: func
+    PetscErrorCode, intent(out)   :: ierr
 
     integer :: i
 
     func => null()
-    do i = 1, size(spatial_funcs_)
-      if (spatial_func_names_(i) == name(1:32)) then
-        func => spatial_funcs_(i)%f
+    ierr = 83 ! PETSC_ERR_USER
+    if (.not. allocated(named_spatial_funcs_)) return
+    do i = 1, size(named_spatial_funcs_)
+      if (named_spatial_funcs_(i)%name == name) then
+        func => named_spatial_funcs_(i)%f
+        ierr = 0
+        return
       end if
     end do
-  end function
+  end subroutine
 
   subroutine TDyInit(ierr)
 #include <petsc/finclude/petscvec.h>
@@ -466,6 +460,7 @@ end subroutine
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
+    ierr = 0
   end subroutine
 
   subroutine TDySetDMConstructor(tdy, dm_ctor, ierr)
@@ -499,7 +494,8 @@ end subroutine
 
     procedure(TDySpatialFunction), pointer :: func
 
-    func => GetSpatialFunction(name)
+    call GetSpatialFunction(name, func, ierr)
+    if (ierr /= 0) return
     call TDySetPorosityFunction(tdy, func, ierr)
   end subroutine
 
@@ -513,7 +509,8 @@ end subroutine
 
     procedure(TDySpatialFunction), pointer :: func
 
-    func => GetSpatialFunction(name)
+    call GetSpatialFunction(name, func, ierr)
+    if (ierr /= 0) return
     call TDySetForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -527,7 +524,8 @@ end subroutine
 
     procedure(TDySpatialFunction), pointer :: func
 
-    func => GetSpatialFunction(name)
+    call GetSpatialFunction(name, func, ierr)
+    if (ierr /= 0) return
     call TDySetEnergyForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -541,7 +539,8 @@ end subroutine
 
     procedure(TDySpatialFunction), pointer :: func
 
-    func => GetSpatialFunction(name)
+    call GetSpatialFunction(name, func, ierr)
+    if (ierr /= 0) return
     call TDySetBoundaryPressureFunction(tdy, func, ierr)
   end subroutine
 
@@ -555,7 +554,8 @@ end subroutine
 
     procedure(TDySpatialFunction), pointer :: func
 
-    func => GetSpatialFunction(name)
+    call GetSpatialFunction(name, func, ierr)
+    if (ierr /= 0) return
     call TDySetBoundaryVelocityFunction(tdy, func, ierr)
   end subroutine
 
-- 
2.43.0


From f45908dcfafe36278196bce2ce7e341c8a5c226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 070/106] fix: a Fortran DM constructor was used by every
 dycore of the process

It was stored in a static variable that any later dycore without a C constructor used,
even after the dycore it was given for was gone, and set without checking the order of
calls. It is stored with its dycore now, which the Fortran interface passed as the
address of its handle.
---
 src/f90-mod/tdycoremod.F90 |  7 +++++--
 src/tdycore.c              | 19 +++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index f445326..5fd1a9b 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -467,10 +467,12 @@ end subroutine
     use, intrinsic :: iso_c_binding
     use tdycoredef
     implicit none
-    TDy, target                 :: tdy
+    TDy                         :: tdy
     procedure(TDyDMConstructor) :: dm_ctor
     PetscErrorCode              :: ierr
 
+    type(c_ptr) :: p_tdy
+
     interface
       function SetDMConstructor(tdy, dm_ctor) bind(c, name="TDySetDMConstructorF90") result(ierr)
         use, intrinsic :: iso_c_binding
@@ -481,7 +483,8 @@ end subroutine
       end function
     end interface
 
-    ierr = SetDMConstructor(c_loc(tdy), c_funloc(dm_ctor))
+    p_tdy = transfer(tdy%v, p_tdy)
+    ierr = SetDMConstructor(p_tdy, c_funloc(dm_ctor))
   end subroutine
 
   subroutine TDySelectPorosityFunction(tdy, name, ierr)
diff --git a/src/tdycore.c b/src/tdycore.c
index 7ad5dce..68bbd52 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -365,13 +365,24 @@ PetscErrorCode TDySetDMConstructor(TDy tdy, void* context,
   PetscFunctionReturn(0);
 }
 
+// This function calls the Fortran DM constructor given as its context.
+static PetscErrorCode CreateDMF90(MPI_Comm comm, void *context, DM *dm) {
+  PetscErrorCode ierr = 0;
+  PetscFunctionBegin;
+  void (*dm_func)(MPI_Fint*, DM*, PetscErrorCode*) =
+    (void (*)(MPI_Fint*, DM*, PetscErrorCode*))context;
+  MPI_Fint comm_f = MPI_Comm_c2f(comm);
+  dm_func(&comm_f, dm, &ierr); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
 // This function is a wrapper used to eliminate the context pointer argument
 // from TDySetDMConstructor so the function can be called from Fortran.
-static void (*create_dm_f90_)(MPI_Fint*, DM*, PetscErrorCode*) = NULL;
 PetscErrorCode TDySetDMConstructorF90(TDy tdy,
                                       void (*dm_func)(MPI_Fint*, DM*, PetscErrorCode*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  create_dm_f90_ = dm_func;
+  ierr = TDySetDMConstructor(tdy, (void*)dm_func, CreateDMF90); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -691,10 +702,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
         ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
-      } else if (create_dm_f90_) {
-        // Create a DM all-Fortran-like.
-        MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr); CHKERRQ(ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-- 
2.43.0


From fcae2c48c57515d5c3a78ada0aa0bd788919578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 071/106] fix: the DM of a PFLOTRAN mesh had no dimension

The shell DM kept dimension -1, so functions that stride by the DM
dimension (two-point flux setup and material functions) produced NaN.
---
 src/fv/share/tdydm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/share/tdydm.c b/src/fv/share/tdydm.c
index 0626546..d583024 100644
--- a/src/fv/share/tdydm.c
+++ b/src/fv/share/tdydm.c
@@ -51,6 +51,7 @@ PetscErrorCode TDyDMCreateFromUGrid(PetscInt ndof, TDyUGrid *ugrid, TDyDM *tdydm
   ierr = TDyUGDMCreateFromUGrid(ndof, ugrid, tdydm->ugdm); CHKERRQ(ierr);
 
   ierr = DMShellCreate(PETSC_COMM_WORLD, &tdydm->dm); CHKERRQ(ierr);
+  ierr = DMSetDimension(tdydm->dm, 3); CHKERRQ(ierr);
   ierr = DMShellSetGlobalToLocalVecScatter(tdydm->dm, (tdydm->ugdm)->Scatter_GlobalCells_to_LocalCells); CHKERRQ(ierr);
   ierr = DMShellSetLocalToGlobalVecScatter(tdydm->dm, (tdydm->ugdm)->Scatter_LocalCells_to_GlobalCells); CHKERRQ(ierr);
   ierr = DMShellSetLocalToLocalVecScatter(tdydm->dm, (tdydm->ugdm)->Scatter_LocalCells_to_LocalCells); CHKERRQ(ierr);
-- 
2.43.0


From a1fd017d09474f525e2783e594406c43c926ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 072/106] fix: material functions got no coordinates on a
 PFLOTRAN mesh

The two-point flux setup left its arrays of cell centers and volumes
unallocated when the mesh comes from a PFLOTRAN file.
---
 src/fv/fvtpf/tdyfvtpf.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 284544d..8ab688d 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -482,6 +482,20 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
     ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    {
+      // Material functions and material setters use the cell centers
+      // (and volumes) in fvtpf->X (and fvtpf->V).
+      TDyCell *cells = &fvtpf->mesh->cells;
+      PetscInt num_cells = fvtpf->mesh->num_cells;
+      ierr = TDyAllocate_RealArray_1D(&fvtpf->V, num_cells); CHKERRQ(ierr);
+      ierr = TDyAllocate_RealArray_1D(&fvtpf->X, 3*num_cells); CHKERRQ(ierr);
+      for (PetscInt icell=0; icell<num_cells; icell++) {
+        fvtpf->V[icell] = cells->volume[icell];
+        for (PetscInt idim=0; idim<3; idim++) {
+          fvtpf->X[icell*3 + idim] = cells->centroid[icell].X[idim];
+        }
+      }
+    }
     break;
 
     default:
-- 
2.43.0


From da9bc922f1a186f202cd9ac6c329b15f3a050f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 073/106] fix: vertex 0 was left out of the vertex count of a
 PFLOTRAN mesh cell

The vertex ids are zero-based by then; a mesh of which all cells with
the most vertices touch the first vertex got a vertex count too small.
---
 src/fv/share/tdyugrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 0450776..f624f36 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -172,7 +172,7 @@ static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
   for (PetscInt icell=0; icell<ugrid->num_cells_local; icell++) {
     PetscInt tmp=0;
     for (PetscInt ivertex=0; ivertex<ugrid->max_verts_per_cell; ivertex++) {
-      if (ugrid->cell_vertices[icell][ivertex] > 0) {
+      if (ugrid->cell_vertices[icell][ivertex] >= 0) {
         tmp++;
       }
     }
-- 
2.43.0


From b290eb2fbae6ebd27eea87d91f4878a608c07cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 074/106] fix: the faces of a PFLOTRAN mesh were set up from
 freed memory

UpdateMapsC2F_F2C_F2V reallocates the face-to-cell map, but the caller
kept using the map it had freed.
---
 src/fv/share/tdymeshcustom.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 5b54a99..a3567e9 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -691,13 +691,14 @@ static PetscErrorCode RemoveDuplicateFaces(TDyUGrid *ugrid, PetscInt **face_to_v
 ///
 /// @param [in] ugrid A TDyUGrid struct
 /// @param [inout] cell_to_face A map to get face ID for a iface-th of a cell
-/// @param [inout] face_to_cell A map to get IDs of upwind and downnwind cells
+/// @param [inout] face_to_cell_ptr A map to get IDs of upwind and downnwind cells
 /// @param [inout] face_to_vertex A map to get face vertex IDs forming a face
 ///
 /// @returns 0 on success, or a non-zero error code on failure
-static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_face, PetscInt **face_to_cell, PetscInt **face_to_vertex) {
+static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_face, PetscInt ***face_to_cell_ptr, PetscInt **face_to_vertex) {
 
   PetscErrorCode ierr;
+  PetscInt **face_to_cell = *face_to_cell_ptr;
   PetscInt max_vert_per_face = ugrid->max_vert_per_face;
   PetscInt max_face_per_cell = ugrid->max_face_per_cell;
   PetscInt ngmax = ugrid->num_cells_global;
@@ -743,6 +744,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
   }
   ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_2D(&face_to_cell, 2, face_count); CHKERRQ(ierr);
+  *face_to_cell_ptr = face_to_cell;
   for (PetscInt iface=0; iface<face_count; iface++) {
     for (PetscInt i=0; i<2; i++) {
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
@@ -1262,7 +1264,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = RemoveDuplicateFaces(ugrid, face_to_vertex, face_to_cell, cell_to_face); CHKERRQ(ierr);
 
   // Update the maps after removing duplicate faces
-  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex);
+  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, &face_to_cell, face_to_vertex); CHKERRQ(ierr);
   ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face);
 
   // Set up vertex-to-cell mapping
-- 
2.43.0


From 72081c3f52781d31f0e296adb145cd47a363772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 075/106] fix: cells of a PFLOTRAN mesh vertex were stored past
 the end of the map

The bound was checked after the map was written, and with the count of
another vertex.
---
 src/fv/share/tdymeshcustom.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index a3567e9..3ca49df 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -814,12 +814,12 @@ static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell
       if (vertex_id < 0) continue;
 
       PetscInt idx=num_vertex_to_cell[vertex_id];
+      if (idx >= max_cells_sharing_a_vertex) {
+        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
+      }
       vertex_to_cell[idx][vertex_id] = icell;
 
       num_vertex_to_cell[vertex_id]++;
-      if (num_vertex_to_cell[ivertex] > max_cells_sharing_a_vertex) {
-        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
-      }
     }
   }
 
-- 
2.43.0


From 074bb6cb30275c6c9f8d5b902c5321de1ea77f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 076/106] fix: destroying a dycore before TDySetFromOptions
 crashed

The implementation-specific destructor was called without a context.
---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 68bbd52..ec90f1d 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -404,7 +404,7 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (tdy->Jpre        ) { ierr = MatDestroy(&tdy->Jpre); CHKERRQ(ierr); }
 
   // Call implementation-specific destructor.
-  if (tdy->ops->destroy) {
+  if (tdy->ops->destroy && tdy->context) {
     tdy->ops->destroy(tdy->context);
   }
 
-- 
2.43.0


From 2691993f93726ce072d5b468d0ee931444238113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 077/106] fix: writing a timing profile without a dycore ran
 past the end of the metadata

---
 src/tdytimers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index bf6a0e7..4e155ec 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -129,7 +129,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 
     // Fetch the metadata for the first TDy instance.
     khiter_t md_iter = kh_begin(TDY_PROFILING_METADATA);
-    while (!kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
+    while (md_iter != kh_end(TDY_PROFILING_METADATA) &&
+           !kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
     if (md_iter == kh_end(TDY_PROFILING_METADATA)) {
       // No metadata was recorded. We're finished.
       return 0;
-- 
2.43.0


From b383aec557df7846e4b54f5d4db617173e2f35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 078/106] fix: TDyWriteTimingProfile ignored the name of the
 file

---
 src/tdytimers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 4e155ec..cf85599 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -115,7 +115,7 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
 PetscErrorCode TDyWriteTimingProfile(const char* filename) {
   if (timersEnabled_) {
     PetscViewer log;
-    PetscViewerASCIIOpen(PETSC_COMM_WORLD, "tdycore_profile.csv", &log);
+    PetscViewerASCIIOpen(PETSC_COMM_WORLD, filename, &log);
     PetscViewerFormat format = PETSC_VIEWER_ASCII_CSV;
     PetscViewerPushFormat(log, format);
     PetscLogView(log);
@@ -148,7 +148,7 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
                  0, PETSC_COMM_WORLD);
       const char* mode_name = TDyModes[md->mode];
       const char* disc_name = TDyDiscretizations[md->discretization];
-      FILE* f = fopen("tdycore_profile.csv", "a");
+      FILE* f = fopen(filename, "a");
       fprintf(f, "METADATA\n");
       fprintf(f, "Mode,Discretization,NumProc,NumCells\n");
       fprintf(f, "%s,%s,%d,%d", mode_name, disc_name, md->num_proc, num_cells);
-- 
2.43.0


From 0af4a7ee84afdc71ed7297c25fe7df4c0517716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 079/106] fix: the timer registries were used after TDyFinalize
 had freed them

---
 src/tdytimers.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index cf85599..8fa2cdd 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -166,13 +166,16 @@ void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
+    TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
+    TDY_PROFILING_STAGES = NULL;
   }
-  TimingMetadata* val;
-  kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
   if (TDY_PROFILING_METADATA != NULL) {
+    TimingMetadata* val;
+    kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
     kh_destroy(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA);
+    TDY_PROFILING_METADATA = NULL;
   }
 }
-- 
2.43.0


From ce7b1079b31b309bc139b2f03c3df4957da72690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 080/106] fix: timers enabled in one session stayed enabled
 after TDyFinalize

---
 src/tdytimers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 8fa2cdd..35422d2 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -163,6 +163,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 }
 
 void TDyDestroyTimers() {
+  timersEnabled_ = PETSC_FALSE;
+
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
-- 
2.43.0


From 32960672f41d1d888c1d747be46a7c2ae6ad2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:13 +0000
Subject: [PATCH 081/106] fix: timers took every discretization for MPFA-O when
 counting its cells

---
 src/tdytimers.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 35422d2..310c55a 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -1,7 +1,5 @@
 #include <tdytimers.h>
 #include <private/tdycoreimpl.h>
-#include <private/tdympfaoimpl.h>
-#include <private/tdymeshimpl.h>
 
 // Timers registry (maps timer names to PetscLogEvents).
 khash_t(TDY_TIMER_MAP)* TDY_TIMERS = NULL;
@@ -96,16 +94,25 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
-    TDyMPFAO *mpfao = tdy->context;
-    TDyMesh *mesh = mpfao->mesh;
-    DM dm;
-    ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-    if (dm != NULL) {
-      PetscInt cStart, cEnd;
-      DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);
-      md->num_cells = mesh->num_cells_local;
-    } else {
+    TDyDM *tdydm = tdy->discretization->tdydm;
+    DM dm = tdydm->dm;
+    if (dm == NULL) {
       md->num_cells = 0;
+    } else if (tdydm->dmtype == TDYCORE_DM_TYPE) {
+      md->num_cells = tdy->discretization->ugrid->num_cells_local;
+    } else {
+      // Count the cells in the mesh that aren't owned by other processes.
+      PetscInt cStart, cEnd, num_leaves;
+      const PetscInt *leaves;
+      PetscSF sf;
+      ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
+      ierr = DMGetPointSF(dm,&sf); CHKERRQ(ierr);
+      ierr = PetscSFGetGraph(sf,NULL,&num_leaves,&leaves,NULL); CHKERRQ(ierr);
+      md->num_cells = cEnd - cStart;
+      for (PetscInt l=0; l<num_leaves; l++) {
+        PetscInt p = leaves ? leaves[l] : l;
+        if (p >= cStart && p < cEnd) md->num_cells--;
+      }
     }
     MPI_Comm_size(PETSC_COMM_WORLD, &(md->num_proc));
   }
-- 
2.43.0


From 1d8ce287409bb2e89d2c8f71b4e261fcdf65ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:13 +0000
Subject: [PATCH 082/106] fix: timing metadata of a dycore was lost when its
 address had been used before

---
 src/tdytimers.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 310c55a..faa12cd 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -86,9 +86,12 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    PetscNew(&md);
-    if (iter == kh_end(TDY_PROFILING_METADATA)) {
+    if (iter != kh_end(TDY_PROFILING_METADATA)) {
+      // This address was used by a dycore that has since been destroyed.
+      md = kh_val(TDY_PROFILING_METADATA, iter);
+    } else {
       int retval;
+      ierr = PetscNew(&md); CHKERRQ(ierr);
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
       kh_val(TDY_PROFILING_METADATA, iter) = md;
     }
-- 
2.43.0


From 42e050688a49f3613e9badce530e4dab523d1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 083/106] fix: a parallel profile added up the cells of
 different dycores

---
 src/tdytimers.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index faa12cd..b04e1f3 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -117,6 +117,9 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
         if (p >= cStart && p < cEnd) md->num_cells--;
       }
     }
+    // Count up the total number of cells in the simulation.
+    ierr = MPI_Allreduce(MPI_IN_PLACE, &(md->num_cells), 1, MPI_INT, MPI_SUM,
+                         PetscObjectComm((PetscObject)tdy)); CHKERRQ(ierr);
     MPI_Comm_size(PETSC_COMM_WORLD, &(md->num_proc));
   }
   return 0;
@@ -152,20 +155,13 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
     int rank;
     MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
     if (rank == 0) {
-      // Count up the total number of cells in the simulation.
-      int num_cells;
-      MPI_Reduce(&(md->num_cells), &num_cells, 1, MPI_INT, MPI_SUM,
-                 0, PETSC_COMM_WORLD);
       const char* mode_name = TDyModes[md->mode];
       const char* disc_name = TDyDiscretizations[md->discretization];
       FILE* f = fopen(filename, "a");
       fprintf(f, "METADATA\n");
       fprintf(f, "Mode,Discretization,NumProc,NumCells\n");
-      fprintf(f, "%s,%s,%d,%d", mode_name, disc_name, md->num_proc, num_cells);
+      fprintf(f, "%s,%s,%d,%d", mode_name, disc_name, md->num_proc, md->num_cells);
       fclose(f);
-    } else { // rank > 0
-      MPI_Reduce(&md->num_cells, NULL, 1, MPI_INT, MPI_SUM,
-                 0, PETSC_COMM_WORLD);
     }
     return 0;
   }
-- 
2.43.0


From 0e0eb046cc0f3dddc080a1ad47dafbcd74e217e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 084/106] fix: natural cell IDs were wrong for dycores with
 several fields

---
 src/fv/share/tdymeshplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 672d060..2528ab3 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -628,7 +628,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
     ierr = VecGetArray(natural, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < natural_size; ++i) {
       if (i % num_fields == 0) {
-        entries[i] = i + cum_natural_size/num_fields - natural_size/num_fields;
+        entries[i] = (i + cum_natural_size - natural_size)/num_fields;
       }
       else {
         entries[i] = 0;
-- 
2.43.0


From 7e0c5b84eda75319468c80675394a194bdcbf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 085/106] fix: gravity drove water across the faces between
 connected regions

---
 src/fv/mpfao/tdympfao.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 2b1f66c..9bfec3e 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1764,6 +1764,37 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
 
 }
 
+/// Determines whether the two-point flux through a face is cut off because the
+/// face is shared by two cells that belong to different connected regions
+///
+/// @param [in] mpfao A TDyMPFAO struct
+/// @param [in] face_id ID of the face
+/// @param [out] separates PETSC_TRUE if no flux crosses the face
+/// @returns 0 on success, or a non-zero error code on failure
+static PetscErrorCode FaceSeparatesRegions(TDyMPFAO *mpfao, PetscInt face_id, PetscBool *separates) {
+
+  TDyMesh       *mesh = mpfao->mesh;
+  TDyRegion     *region = &mesh->region_connected;
+  PetscErrorCode ierr;
+
+  PetscFunctionBegin;
+
+  *separates = PETSC_FALSE;
+
+  if (region->num_cells > 0 && mpfao->gmatrix_method == MPFAO_GMATRIX_TPF) {
+    PetscInt *face_cell_ids, num_cell_ids;
+    ierr = TDyMeshGetFaceCells(mesh, face_id, &face_cell_ids, &num_cell_ids); CHKERRQ(ierr);
+    PetscInt cell_id_up = face_cell_ids[0];
+    PetscInt cell_id_dn = face_cell_ids[1];
+
+    if (cell_id_up>=0 && cell_id_dn>=0) {
+      *separates = TDyRegionAreCellsInTheSameRegion(region, cell_id_up, cell_id_dn) ? PETSC_FALSE : PETSC_TRUE;
+    }
+  }
+
+  PetscFunctionReturn(0);
+}
+
 static PetscErrorCode UpdateTransmissibilityMatrix(TDyMPFAO *mpfao) {
 
   TDyMesh       *mesh = mpfao->mesh;
@@ -2215,6 +2246,11 @@ static PetscErrorCode ComputeGravityDiscretization(TDyMPFAO *mpfao, DM dm,
       PetscInt cell_id_up = face_cell_ids[0];
       PetscInt cell_id_dn = face_cell_ids[1];
 
+      // No water crosses a face between different connected regions
+      PetscBool separates;
+      ierr = FaceSeparatesRegions(mpfao, face_id, &separates); CHKERRQ(ierr);
+      if (separates) continue;
+
       // Currently, only zero-flux neumann boundary condition is implemented.
       // If the boundary condition is neumann, then gravity discretization term is zero
       if (mpfao->bc_type == NEUMANN_BC && (cell_id_up < 0 || cell_id_dn < 0)) continue;
-- 
2.43.0


From 10fe1f983fd0cf75f13921676b611f5bf3efea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 086/106] fix: the Jacobian and the steady system ignored
 connected regions

---
 src/fv/mpfao/tdympfao.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 9bfec3e..cbd0b3b 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1833,6 +1833,32 @@ static PetscErrorCode UpdateTransmissibilityMatrix(TDyMPFAO *mpfao) {
     }
   }
 
+  // Do the same for the transmissibilities around each vertex, from which the
+  // Jacobian and the steady state system are assembled
+
+  TDyVertex *vertices = &mesh->vertices;
+
+  for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
+
+    if (!vertices->is_local[ivertex]) continue;
+
+    PetscInt *face_ids, num_faces;
+    ierr = TDyMeshGetVertexFaces(mesh, ivertex, &face_ids, &num_faces); CHKERRQ(ierr);
+
+    for (PetscInt irow=0; irow<vertices->num_faces[ivertex]; irow++) {
+
+      PetscBool separates;
+      ierr = FaceSeparatesRegions(mpfao, face_ids[irow], &separates); CHKERRQ(ierr);
+      if (!separates) continue;
+
+      for (PetscInt icol=0; icol<mpfao->nfv+mpfao->ncv; icol++) {
+        mpfao->Trans[ivertex][irow][icol] = 0.0;
+        if (mpfao->Temp_Trans) mpfao->Temp_Trans[ivertex][irow][icol] = 0.0; // TH
+        if (mpfao->Psi_Trans)  mpfao->Psi_Trans[ivertex][irow][icol]  = 0.0; // SALINITY
+      }
+    }
+  }
+
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 
-- 
2.43.0


From 1d5c66c8ef6c9cef21087fef7e63a0dd17e1e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 087/106] fix: connected regions were read with another
 parallel layout than the mesh's

---
 src/fv/share/tdymeshplex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 2528ab3..8ecea02 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -671,7 +671,9 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
       PetscViewer viewer;
       Vec region_id_nat_idx;
 
+      // The natural vector has the same parallel layout as a global vector
       ierr = VecCreate(PETSC_COMM_WORLD,&region_id_nat_idx); CHKERRQ(ierr);
+      ierr = VecSetSizes(region_id_nat_idx,natural_size,PETSC_DETERMINE); CHKERRQ(ierr);
 
       ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD,file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
       ierr = VecLoad(region_id_nat_idx,viewer); CHKERRQ(ierr);
-- 
2.43.0


From dc1fcb81405f9e4279ea581037a8efdbd5960c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 088/106] fix: -tdy_init_file was ignored in TH and SALINITY
 modes

---
 src/tdysalinity.c | 5 +++++
 src/tdyth.c       | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/tdysalinity.c b/src/tdysalinity.c
index c7a3578..2a1aa6c 100644
--- a/src/tdysalinity.c
+++ b/src/tdysalinity.c
@@ -32,6 +32,11 @@ PetscErrorCode TDySalinityInitialize(TDy tdy) {
     ierr = VecRestoreArray(tdy->soln,&soln_p); CHKERRQ(ierr);
     ierr = VecDestroy(&temp_vec); CHKERRQ(ierr);
     ierr = PetscRandomDestroy(&rand); CHKERRQ(ierr);
+  } else if (tdy->options.init_from_file) {
+    PetscViewer viewer;
+    ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD,tdy->options.init_file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
+    ierr = VecLoad(tdy->soln,viewer); CHKERRQ(ierr);
+    ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   }
   else {
     ierr = VecSet(tdy->soln,101325.); CHKERRQ(ierr);
diff --git a/src/tdyth.c b/src/tdyth.c
index fae1769..99fa124 100644
--- a/src/tdyth.c
+++ b/src/tdyth.c
@@ -36,6 +36,11 @@ PetscErrorCode TDyTHInitialize(TDy tdy) {
     ierr = VecRestoreArray(tdy->soln,&soln_p); CHKERRQ(ierr);
     ierr = VecDestroy(&temp_vec); CHKERRQ(ierr);
     ierr = PetscRandomDestroy(&rand); CHKERRQ(ierr);
+  } else if (tdy->options.init_from_file) {
+    PetscViewer viewer;
+    ierr = PetscViewerBinaryOpen(comm,tdy->options.init_file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
+    ierr = VecLoad(tdy->soln,viewer); CHKERRQ(ierr);
+    ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   }
   else {
     ierr = VecSet(tdy->soln,101325.); CHKERRQ(ierr);
-- 
2.43.0


From be414ecb46b903a9c2693f1623f413ea8b9239bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 089/106] fix: destroying an MPFA-O dycore leaked its materials
 and parts of its mesh

---
 src/fv/mpfao/tdympfao.c | 5 +++++
 src/fv/share/tdymesh.c  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index cbd0b3b..9020e1d 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -560,6 +560,11 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
   if (mpfao->Psi_vec      ) { ierr = VecDestroy(&mpfao->Psi_vec      ); CHKERRQ(ierr); }
   if (mpfao->TtimesPsi_vec) { ierr = VecDestroy(&mpfao->TtimesPsi_vec); CHKERRQ(ierr); }
 
+  ierr = TDyFree(mpfao->K); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->K0); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->porosity); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->Kappa); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->Kappa0); CHKERRQ(ierr);
   if (mpfao->c_soil) {
     ierr = TDyFree(mpfao->c_soil); CHKERRQ(ierr);
   }
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 37bf593..4fa3f40 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -897,7 +897,13 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->faces.cell_ids); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.edge_ids); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.vertex_ids); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.bc_type); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.area); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.projected_area); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.dist); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.dist_wt_up); CHKERRQ(ierr);
+  ierr = TDyDeallocate_RealArray_2D(mesh->faces.dist_up_dn, mesh->num_faces); CHKERRQ(ierr);
+  ierr = TDyDeallocate_RealArray_2D(mesh->faces.unit_vec_up_dn, mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.centroid); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.normal); CHKERRQ(ierr);
 
-- 
2.43.0


From b8e496399ae5f8e209aeac3d5954da8d5ea964df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 090/106] fix: destroying an FV-TPF dycore leaked its mesh and
 all its data

---
 src/fv/fvtpf/tdyfvtpf.c | 37 +++++++++++++++++++++++++++++++++++--
 src/fv/share/tdymesh.c  | 14 ++++++++++----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 8ab688d..cf56905 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -34,12 +34,37 @@ PetscErrorCode TDyDestroy_FVTPF(void *context) {
   PetscFunctionBegin;
   TDyFVTPF* fvtpf = context;
 
-  if (fvtpf->vel   ) { ierr = TDyFree(fvtpf->vel); CHKERRQ(ierr); }
-
   ierr = TDyFree(fvtpf->V); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->X); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->N); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->pressure); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vel); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vel_count); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->K); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->K0); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->porosity); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kappa); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kappa0); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->rho_soil); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->c_soil); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kr); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dKr_dS); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->S); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->d2S_dP2); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Sr); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->P_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->rho_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vis_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kr_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dKr_dS_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->S_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dP_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->d2S_dP2_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->source_sink); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->rho); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->drho_dP); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->d2rho_dP2); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->vis); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dvis_dP); CHKERRQ(ierr);
@@ -47,8 +72,16 @@ PetscErrorCode TDyDestroy_FVTPF(void *context) {
   ierr = TDyFree(fvtpf->h); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dh_dP); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dh_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->u); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->du_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->du_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->drho_dT); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dvis_dT); CHKERRQ(ierr);
 
+  if (fvtpf->mesh) { ierr = TDyMeshDestroy(fvtpf->mesh); CHKERRQ(ierr); }
+
+  ierr = TDyFree(fvtpf); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 4fa3f40..0413f56 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -907,10 +907,16 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->faces.centroid); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.normal); CHKERRQ(ierr);
 
-  ierr = TDyFree(mesh->closureSize);
-  ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
-            mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
-  CHKERRQ(ierr);
+  // a mesh read from a PFLOTRAN file has no closures
+  ierr = TDyFree(mesh->closureSize); CHKERRQ(ierr);
+  if (mesh->closure) {
+    ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
+              mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
+    CHKERRQ(ierr);
+  }
+
+  ierr = TDyFree(mesh->nG2A); CHKERRQ(ierr);
+  ierr = TDyRegionDestroy(&mesh->region_connected); CHKERRQ(ierr);
 
   ierr = TDyFree(mesh); CHKERRQ(ierr);
   PetscFunctionReturn(0);
-- 
2.43.0


From 085948345d8bea25b7c89e14cb892bc44fa8abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 091/106] fix: destroying a WY or BDM dycore leaked its context

---
 src/fe/tdybdm.c | 3 +++
 src/fe/tdywy.c  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 7077e62..ffe45c6 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -50,6 +50,9 @@ PetscErrorCode TDyDestroy_BDM(void *context) {
   ierr = TDyFree(bdm->V); CHKERRQ(ierr);
   ierr = TDyFree(bdm->X); CHKERRQ(ierr);
   ierr = TDyFree(bdm->N); CHKERRQ(ierr);
+  ierr = TDyFree(bdm->K); CHKERRQ(ierr);
+
+  ierr = TDyFree(bdm); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 3b92c70..a3ec84d 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -267,6 +267,8 @@ PetscErrorCode TDyDestroy_WY(void *context) {
   ierr = TDyFree(wy->X); CHKERRQ(ierr);
   ierr = TDyFree(wy->N); CHKERRQ(ierr);
 
+  ierr = TDyFree(wy); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 25f4d8c2c25bbbf1ed482eb166ddec204b84e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 092/106] fix: destroying a dycore leaked its discretization
 and its PETSc header

---
 include/private/tdyugridimpl.h |  1 +
 src/fv/share/tdyugrid.c        | 46 ++++++++++++++++++++++++++++++++++
 src/tdycore.c                  |  6 ++---
 src/tdydiscretization.c        |  3 +--
 4 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/include/private/tdyugridimpl.h b/include/private/tdyugridimpl.h
index 130a51f..8536984 100644
--- a/include/private/tdyugridimpl.h
+++ b/include/private/tdyugridimpl.h
@@ -51,6 +51,7 @@ typedef struct {
 } TDyUGrid;
 
 PETSC_INTERN PetscErrorCode TDyUGridCreate(TDyUGrid**);
+PETSC_INTERN PetscErrorCode TDyUGridDestroy(TDyUGrid*);
 PETSC_INTERN PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char*,TDyUGrid*);
 
 #endif
\ No newline at end of file
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index f624f36..ba04629 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -58,6 +58,52 @@ PetscErrorCode TDyUGridCreate(TDyUGrid **ugrid) {
   PetscFunctionReturn(0);
 }
 
+/// Deallocates a TDyUGrid struct
+///
+/// @param [inout] ugrid A TDyUGrid struct
+///
+/// @returns 0 on success, or a non-zero error code on failure
+PetscErrorCode TDyUGridDestroy(TDyUGrid *ugrid) {
+
+  PetscErrorCode ierr;
+
+  if (ugrid->cell_vertices) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_vertices, ugrid->num_cells_global); CHKERRQ(ierr);
+  }
+  ierr = TDyFree(ugrid->cell_num_vertices); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->cell_ids_natural); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->cell_ids_petsc); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->ghost_cell_ids_petsc); CHKERRQ(ierr);
+  if (ugrid->cell_neighbors_local_ghosted) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_neighbors_local_ghosted, ugrid->num_cells_local); CHKERRQ(ierr);
+  }
+  ierr = TDyFree(ugrid->cell_num_neighbors_local_ghosted); CHKERRQ(ierr);
+  if (ugrid->vertices) {
+    ierr = TDyDeallocate_RealArray_2D(ugrid->vertices, ugrid->num_verts_local); CHKERRQ(ierr);
+  }
+  ierr = AODestroy(&ugrid->ao_natural_to_petsc); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->face_num_vertices); CHKERRQ(ierr);
+  if (ugrid->face_to_vertex_natural) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->face_to_vertex_natural, ugrid->max_vert_per_face); CHKERRQ(ierr);
+  }
+  if (ugrid->face_to_vertex) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->face_to_vertex, ugrid->max_vert_per_face); CHKERRQ(ierr);
+  }
+  if (ugrid->face_centroid) {
+    ierr = TDyDeallocate_RealArray_2D(ugrid->face_centroid, ugrid->num_faces); CHKERRQ(ierr);
+  }
+  ierr = TDyFree(ugrid->connection_to_face); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->face_area); CHKERRQ(ierr);
+  if (ugrid->cell_to_face_ghosted) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_to_face_ghosted, ugrid->max_face_per_cell); CHKERRQ(ierr);
+  }
+  ierr = TDyFree(ugrid->vertex_ids_natural); CHKERRQ(ierr);
+
+  ierr = TDyFree(ugrid); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Read in a PFLOTRAN-formatted HDF5 mesh file
 ///
 /// @param [in] mesh_file Name of the mesh file
diff --git a/src/tdycore.c b/src/tdycore.c
index ec90f1d..0a5c870 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -432,10 +432,8 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
     ierr = MaterialPropDestroy(tdy->matprop); CHKERRQ(ierr);
   }
 
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMDestroy(&dm); CHKERRQ(ierr);
-  ierr = TDyFree(tdy); CHKERRQ(ierr);
+  ierr = TDyDiscretizationDestroy(tdy->discretization); CHKERRQ(ierr);
+  ierr = PetscHeaderDestroy(&tdy); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 5c67cd0..6fcf0bf 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -35,9 +35,8 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
 
   PetscErrorCode ierr;
 
-  ierr = TDyAlloc(sizeof(TDyDiscretization), &discretization); CHKERRQ(ierr);
-
   ierr = TDyDMDestroy (discretization->tdydm); CHKERRQ(ierr);
+  ierr = TDyUGridDestroy(discretization->ugrid); CHKERRQ(ierr);
   TDyFree(discretization);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 0432cc61be20658854c9b11b73aa06b9f84efa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 093/106] fix: assembling the steady MPFA-O system leaked two
 scratch matrices

---
 src/fv/mpfao/tdympfao_steady.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 031c1c8..f44867f 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -19,7 +19,6 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
-  PetscReal      **Gmatrix;
   PetscErrorCode ierr;
 
   PetscFunctionBegin;
@@ -33,8 +32,6 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
-
   for (ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
 
     vertex_id = ivertex;
@@ -101,7 +98,6 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
-  PetscReal      **Gmatrix;
   PetscInt npcen, npitf_bc, nflux_in;
   PetscErrorCode ierr;
 
@@ -116,8 +112,6 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
-
     /*
 
     flux                   =              T                 *     P
-- 
2.43.0


From 9f17dcb2342429817f61b43b42dfe1037942b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 094/106] fix: reading a PFLOTRAN mesh leaked its temporaries,
 destroying it its index sets and vectors

---
 src/fv/share/tdymeshcustom.c |  4 ++++
 src/fv/share/tdyugdm.c       |  6 +++---
 src/fv/share/tdyugrid.c      | 14 ++++++++++----
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 3ca49df..2bdf5d9 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -1283,6 +1283,10 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   // Computes geometric attirbutes of all faces and saves them in the TDyUGrid struct
   ierr = ComputeGeoAttrOfUGridFaces(cell_to_face, ugrid); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(cell_to_face, max_face_per_cell); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(vertex_to_cell, max_cells_sharing_a_vertex); CHKERRQ(ierr);
+  ierr = TDyFree(num_vertex_to_cell); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/share/tdyugdm.c b/src/fv/share/tdyugdm.c
index 345277f..58ab0c5 100644
--- a/src/fv/share/tdyugdm.c
+++ b/src/fv/share/tdyugdm.c
@@ -47,6 +47,9 @@ PetscErrorCode TDyUGDMDestroy(TDyUGDM *ugdm){
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  ierr = VecDestroy(&ugdm->LocalVec); CHKERRQ(ierr);
+  ierr = VecDestroy(&ugdm->GlobalVec); CHKERRQ(ierr);
+
   if (ugdm->IS_GhostedCells_in_LocalOrder != NULL) {
     ierr = ISDestroy(&ugdm->IS_GhostedCells_in_LocalOrder); CHKERRQ(ierr);
   }
@@ -348,9 +351,6 @@ PetscErrorCode TDyUGDMCreateFromUGrid(PetscInt ndof, TDyUGrid *ugrid, TDyUGDM *u
   // Create three local-ordered ISs
   ierr = CreateLocalOrderIS(ugrid->num_cells_global, ugrid->num_cells_local, ugrid->num_cells_ghost, ndof, ugdm); CHKERRQ(ierr);
 
-  // Create three local-ordered ISs
-  ierr = CreateLocalOrderIS(ugrid->num_cells_global, ugrid->num_cells_local, ugrid->num_cells_ghost, ndof, ugdm); CHKERRQ(ierr);
-
   // Create three Glboal-ordered ISs
   ierr = CreatePetscOrderIS(ndof, ugrid, ugdm); CHKERRQ(ierr);
 
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index ba04629..5f2c45e 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -895,6 +895,8 @@ static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt d
   // Determine the ids of cell neigbhors (aka duals) in ghosted-index
   ierr = DetermineNeigbhorsCellIDsInGhostedOrder(stride, dual_offset, PetscOrderVec, ugrid); CHKERRQ(ierr);
 
+  ierr = VecDestroy(&PostPartNatOrderVec); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
@@ -1049,9 +1051,6 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
   ierr = TDyAllocate_IntegerArray_1D(&ugrid->cell_num_vertices, ngmax); CHKERRQ(ierr);
   ierr = VecGetArray(*LocalOrderVec, &v_ptr); CHKERRQ(ierr);
 
-  // The previously allocated memoroy for ugrid->cell_vertices cannot be deallocated
-  // because the dimension for the memory was prior to mesh partition and after
-  // mesh partition the size of ugrid->cell_vertices is not known
   ierr = TDyAllocate_IntegerArray_2D(&ugrid->cell_vertices, ngmax, max_nvert); CHKERRQ(ierr);
 
   for (PetscInt icell=0; icell<ngmax; icell++) {
@@ -1231,6 +1230,12 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
 
   ierr = PackNatOrderVector(ugrid, DualMat, &NatOrderVec);
   ierr = MatDestroy(&DualMat); CHKERRQ(ierr);
+  ierr = ISDestroy(&NewCellRankIS); CHKERRQ(ierr);
+
+  // The vertices of the cells are now in NatOrderVec. Their array has the size of
+  // the mesh before partitioning, so it has to go before num_cells_local changes.
+  ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_vertices, ugrid->num_cells_local); CHKERRQ(ierr);
+  ugrid->cell_vertices = NULL;
 
   // Update the global offset
   ierr = MPI_Exscan(&NewNumCellsLocal, &(ugrid->global_offset), 1, MPI_INTEGER, MPI_SUM, PETSC_COMM_WORLD); CHKERRQ(ierr);
@@ -1238,6 +1243,7 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
   Vec PetscOrderVec;
   ierr = ScatterVecNatOrderToPetscOrder(stride, dual_offset, NewNumCellsLocal, &NatOrderVec, &NatToPetscIS, ugrid, &PetscOrderVec);
   ierr = ISDestroy(&NatToPetscIS); CHKERRQ(ierr);
+  ierr = VecDestroy(&NatOrderVec); CHKERRQ(ierr);
 
    Vec LocalOrderVec;
    ierr = ScatterVecPetscOrderToLocalOrder(stride, &PetscOrderVec, ugrid, &LocalOrderVec);
@@ -1246,7 +1252,7 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
    ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec);
    ierr = VecDestroy(&LocalOrderVec); CHKERRQ(ierr);
 
-  //ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
+  ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
-- 
2.43.0


From db6eb9209fd42eeea8048ace90943bed88665b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 095/106] fix: setting a property or condition before
 TDySetFromOptions crashed

---
 src/tdycore.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 0a5c870..30cd9e1 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -995,6 +995,15 @@ PetscErrorCode TDySetWaterEnthalpyType(TDy tdy, TDyWaterEnthalpyType enthtype) {
   PetscFunctionReturn(0);
 }
 
+// Material properties and conditions are stored in objects that don't exist
+// before TDySetFromOptions creates them.
+#define CheckOptionsSet(tdy, object) do { \
+  if (!(object)) { \
+    SETERRQ(PetscObjectComm((PetscObject)(tdy)), PETSC_ERR_ORDER, \
+            "You must call TDySetFromOptions before setting material properties or conditions"); \
+  } \
+} while (0)
+
 /// Sets the porosity used by the dycore to the given constant. May be called
 /// anytime after TDySetFromOptions.
 /// @param [in] tdy the dycore instance
@@ -1002,6 +1011,7 @@ PetscErrorCode TDySetWaterEnthalpyType(TDy tdy, TDyWaterEnthalpyType enthtype) {
 PetscErrorCode TDySetConstantPorosity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantPorosity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1014,6 +1024,7 @@ PetscErrorCode TDySetPorosityFunction(TDy tdy,
                                       TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousPorosity(tdy->matprop, f); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1025,6 +1036,7 @@ PetscErrorCode TDySetPorosityFunction(TDy tdy,
 PetscErrorCode TDySetConstantIsotropicPermeability(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantIsotropicPermeability(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1037,6 +1049,7 @@ PetscErrorCode TDySetIsotropicPermeabilityFunction(TDy tdy,
                                                    TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousIsotropicPermeability(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1049,6 +1062,7 @@ PetscErrorCode TDySetIsotropicPermeabilityFunction(TDy tdy,
 PetscErrorCode TDySetConstantDiagonalPermeability(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1061,6 +1075,7 @@ PetscErrorCode TDySetDiagonalPermeabilityFunction(TDy tdy,
                                                   TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousDiagonalPermeability(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1073,6 +1088,7 @@ PetscErrorCode TDySetDiagonalPermeabilityFunction(TDy tdy,
 PetscErrorCode TDySetConstantTensorPermeability(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantTensorPermeability(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1085,6 +1101,7 @@ PetscErrorCode TDySetTensorPermeabilityFunction(TDy tdy,
                                                 TDyTensorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousTensorPermeability(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1097,6 +1114,7 @@ PetscErrorCode TDySetTensorPermeabilityFunction(TDy tdy,
 PetscErrorCode TDySetConstantIsotropicThermalConductivity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantIsotropicThermalConductivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1109,6 +1127,7 @@ PetscErrorCode TDySetIsotropicThermalConductivityFunction(TDy tdy,
                                                           TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousIsotropicThermalConductivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1121,6 +1140,7 @@ PetscErrorCode TDySetIsotropicThermalConductivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantDiagonalThermalConductivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantDiagonalThermalConductivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1133,6 +1153,7 @@ PetscErrorCode TDySetDiagonalThermalConductivityFunction(TDy tdy,
                                                          TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousDiagonalThermalConductivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1145,6 +1166,7 @@ PetscErrorCode TDySetDiagonalThermalConductivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantTensorThermalConductivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantTensorThermalConductivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1157,6 +1179,7 @@ PetscErrorCode TDySetTensorThermalConductivityFunction(TDy tdy,
                                                        TDyTensorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousTensorThermalConductivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1169,6 +1192,7 @@ PetscErrorCode TDySetTensorThermalConductivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantResidualSaturation(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantResidualSaturation(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1181,6 +1205,7 @@ PetscErrorCode TDySetResidualSaturationFunction(TDy tdy,
                                                 TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousResidualSaturation(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1193,6 +1218,7 @@ PetscErrorCode TDySetResidualSaturationFunction(TDy tdy,
 PetscErrorCode TDySetConstantSoilDensity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantSoilDensity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1205,6 +1231,7 @@ PetscErrorCode TDySetSoilDensityFunction(TDy tdy,
                                          TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousSoilDensity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1217,6 +1244,7 @@ PetscErrorCode TDySetSoilDensityFunction(TDy tdy,
 PetscErrorCode TDySetConstantSoilSpecificHeat(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantSoilSpecificHeat(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1227,6 +1255,7 @@ PetscErrorCode TDySetSoilSpecificHeatFunction(TDy tdy,
                                               TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousSoilSpecificHeat(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1239,6 +1268,7 @@ PetscErrorCode TDySetSoilSpecificHeatFunction(TDy tdy,
 PetscErrorCode TDySetConstantIsotropicSalineDiffusivity(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantIsotropicSalineDiffusivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1251,6 +1281,7 @@ PetscErrorCode TDySetIsotropicSalineDiffusivityFunction(TDy tdy,
                                                         TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousIsotropicSalineDiffusivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1263,6 +1294,7 @@ PetscErrorCode TDySetIsotropicSalineDiffusivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantDiagonalSalineDiffusivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantDiagonalSalineDiffusivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1275,6 +1307,7 @@ PetscErrorCode TDySetDiagonalSalineDiffusivityFunction(TDy tdy,
                                                        TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousDiagonalSalineDiffusivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1287,6 +1320,7 @@ PetscErrorCode TDySetDiagonalSalineDiffusivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantTensorSalineDiffusivity(TDy tdy, PetscReal value[]) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantTensorSalineDiffusivity(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1299,6 +1333,7 @@ PetscErrorCode TDySetTensorSalineDiffusivityFunction(TDy tdy,
                                                      TDyTensorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousTensorSalineDiffusivity(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1311,6 +1346,7 @@ PetscErrorCode TDySetTensorSalineDiffusivityFunction(TDy tdy,
 PetscErrorCode TDySetConstantSalineMolecularWeight(TDy tdy, PetscReal value) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetConstantSalineMolecularWeight(tdy->matprop, value); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -1321,6 +1357,7 @@ PetscErrorCode TDySetSalineMolecularWeightFunction(TDy tdy,
                                                    TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->matprop);
   ierr = MaterialPropSetHeterogeneousSalineMolecularWeight(tdy->matprop, f);
   CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -1354,6 +1391,7 @@ PetscErrorCode TDySetForcingFunction(TDy tdy,
                                      TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1366,6 +1404,7 @@ PetscErrorCode TDySetEnergyForcingFunction(TDy tdy,
                                            TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1378,6 +1417,7 @@ PetscErrorCode TDySetSalinitySourceFunction(TDy tdy,
                                             TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1390,6 +1430,7 @@ PetscErrorCode TDySetBoundaryPressureFunction(TDy tdy,
                                               TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1402,6 +1443,7 @@ PetscErrorCode TDySetBoundaryPressureTypeFunction(TDy tdy,
                                               TDyScalarSpatialIntegerFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperIntegerStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1414,6 +1456,7 @@ PetscErrorCode TDySetBoundaryVelocityFunction(TDy tdy,
                                               TDyVectorSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1426,6 +1469,7 @@ PetscErrorCode TDySetBoundaryTemperatureFunction(TDy tdy,
                                                  TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
@@ -1438,6 +1482,7 @@ PetscErrorCode TDySetBoundarySalineConcentrationFunction(TDy tdy,
                                                          TDyScalarSpatialFunction f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  CheckOptionsSet(tdy, tdy->conditions);
   WrapperStruct *wrapper;
   ierr = TDyAlloc(sizeof(WrapperStruct), &wrapper); CHKERRQ(ierr);
   wrapper->func = f;
-- 
2.43.0


From af2911f3519eadafba3059d73735a51bd942c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 096/106] fix: the driver and the time integrator crashed when
 used before they were initialized

---
 src/tdycore.c   | 6 +++---
 src/tdydriver.c | 5 +++++
 src/tdyti.c     | 8 ++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 30cd9e1..f15c2e0 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -684,9 +684,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     ierr = tdy->ops->set_from_options(tdy->context, &tdy->options); CHKERRQ(ierr);
   }
 
-  // Wrap up and indicate that options are set.
-  tdy->setup_flags |= TDyOptionsSet;
-
   // Create our DM.
   if (tdy->options.read_pflotran_mesh) {
     PetscInt ndof = tdy->ops->get_num_dm_fields(tdy->context);
@@ -752,6 +749,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   // Create characteristic curves.
   ierr = CharacteristicCurvesCreate(&tdy->cc); CHKERRQ(ierr);
 
+  // Wrap up and indicate that options are set.
+  tdy->setup_flags |= TDyOptionsSet;
+
   PetscFunctionReturn(0);
 }
 
diff --git a/src/tdydriver.c b/src/tdydriver.c
index d772792..9fe23ea 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -19,6 +19,11 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
   MPI_Comm comm;
   ierr = PetscObjectGetComm((PetscObject)tdy, &comm); CHKERRQ(ierr);
 
+  if ((tdy->setup_flags & TDyOptionsSet) == 0) {
+    SETERRQ(comm,PETSC_ERR_ORDER,
+      "You must call TDySetFromOptions before TDyDriverInitializeTDy()");
+  }
+
   switch(tdy->options.discretization) {
     case MPFA_O:
       break;
diff --git a/src/tdyti.c b/src/tdyti.c
index 14328f1..57cf5a2 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -92,6 +92,10 @@ PetscErrorCode TDyTimeIntegratorSetTargetTime(TDyTimeIntegrator ti, PetscReal sy
 
 PetscErrorCode TDyTimeIntegratorSetTimeStep(TDy tdy, PetscReal dt) {
   PetscFunctionBegin;
+  if (!tdy->ti) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_ORDER,
+      "You must call TDyDriverInitializeTDy before using the time integrator");
+  }
   tdy->ti->dt_init = dt;
   tdy->ti->dt = dt;
   PetscFunctionReturn(0);
@@ -100,6 +104,10 @@ PetscErrorCode TDyTimeIntegratorSetTimeStep(TDy tdy, PetscReal dt) {
 PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  if (!tdy->ti) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_ORDER,
+      "You must call TDyDriverInitializeTDy before using the time integrator");
+  }
   TDY_START_FUNCTION_TIMER()
   TDyTimeIntegrator ti;
   SNESConvergedReason reason;
-- 
2.43.0


From 37250891ebd109cb4eb7a12a097541c4acd8dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 097/106] fix: functions of one discretization corrupted the
 context of another, or crashed without one

---
 include/private/tdycoreimpl.h | 23 +++++++++++++++++++++++
 src/fe/tdybdm.c               |  2 ++
 src/fe/tdywy.c                |  2 ++
 src/fv/mpfao/tdympfao.c       | 14 +++++++++++---
 src/tdycore.c                 |  8 ++++++++
 5 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/private/tdycoreimpl.h b/include/private/tdycoreimpl.h
index 0084930..0da84dd 100644
--- a/include/private/tdycoreimpl.h
+++ b/include/private/tdycoreimpl.h
@@ -142,6 +142,29 @@ struct _p_TDy {
 
 };
 
+// The context of a dycore belongs to its discretization, and is created by
+// TDySetFromOptions. Functions specific to one discretization use this to
+// refuse a dycore whose context isn't theirs.
+#define TDyCheckContext(tdy, is_ours, name) do { \
+  if (!(is_ours)) { \
+    SETERRQ(PetscObjectComm((PetscObject)(tdy)), PETSC_ERR_ARG_WRONGSTATE, \
+            "The dycore does not use the " name " discretization"); \
+  } \
+  if (!(tdy)->context) { \
+    SETERRQ(PetscObjectComm((PetscObject)(tdy)), PETSC_ERR_ORDER, \
+            "You must call TDySetFromOptions first"); \
+  } \
+} while (0)
+
+// The same, for functions that need the data structures TDySetup creates.
+#define TDyCheckSetup(tdy, is_ours, name) do { \
+  TDyCheckContext(tdy, is_ours, name); \
+  if (((tdy)->setup_flags & TDySetupFinished) == 0) { \
+    SETERRQ(PetscObjectComm((PetscObject)(tdy)), PETSC_ERR_ORDER, \
+            "You must call TDySetup first"); \
+  } \
+} while (0)
+
 PETSC_INTERN PetscErrorCode TDyCreateGlobalVector(TDy,Vec*);
 PETSC_INTERN PetscErrorCode TDyCreateLocalVector(TDy,Vec*);
 PETSC_INTERN PetscErrorCode TDyNaturalToGlobal(TDy,Vec,Vec);
diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index ffe45c6..c5ac542 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -11,6 +11,7 @@
 
 PetscErrorCode TDyBDMSetQuadrature(TDy tdy, TDyQuadratureType qtype) {
   PetscFunctionBegin;
+  TDyCheckContext(tdy, tdy->options.discretization == BDM, "BDM");
   TDyBDM *bdm = tdy->context;
   bdm->qtype = qtype;
   PetscFunctionReturn(0);
@@ -425,6 +426,7 @@ PetscErrorCode IntegratePressureBoundary(TDyBDM *bdm, DM dm,
 */
 PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
   PetscFunctionBegin;
+  TDyCheckSetup(tdy, tdy->options.discretization == BDM, "BDM");
   TDY_START_FUNCTION_TIMER()
   PetscErrorCode ierr;
   PetscInt dim,dim2,nlocal,pStart,pEnd,c,cStart,cEnd,q,nq,nfq,nv,vi,vj,di,dj,
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index a3ec84d..3d75ce9 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -224,6 +224,7 @@ PetscErrorCode TDyWYLocalElementCompute(TDy tdy) {
 
 PetscErrorCode TDyWYSetQuadrature(TDy tdy, TDyQuadratureType qtype) {
   PetscFunctionBegin;
+  TDyCheckContext(tdy, tdy->options.discretization == WY, "WY");
   TDyWY *wy = tdy->context;
   wy->qtype = qtype;
   PetscFunctionReturn(0);
@@ -660,6 +661,7 @@ PetscErrorCode IntegrateOnFace(TDy tdy,PetscInt c,PetscInt f,
 #endif
 
 PetscErrorCode TDyWYComputeSystem(TDy tdy,Mat K,Vec F) {
+  TDyCheckSetup(tdy, tdy->options.discretization == WY, "WY");
   TDY_START_FUNCTION_TIMER()
   PetscErrorCode ierr;
   PetscInt v,vStart,vEnd;
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 9020e1d..e9f204d 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -417,6 +417,9 @@ PetscErrorCode TDyMPFAOSetGmatrixMethod(TDy tdy,
   PetscFunctionBegin;
 
   PetscValidPointer(tdy,1);
+  TDyCheckContext(tdy, tdy->options.discretization == MPFA_O ||
+                       tdy->options.discretization == MPFA_O_DAE ||
+                       tdy->options.discretization == MPFA_O_TRANSIENTVAR, "MPFA-O");
   TDyMPFAO *mpfao = tdy->context;
   mpfao->gmatrix_method = method;
 
@@ -428,6 +431,9 @@ PetscErrorCode TDyMPFAOSetBoundaryConditionType(TDy tdy,
   PetscFunctionBegin;
 
   PetscValidPointer(tdy,1);
+  TDyCheckContext(tdy, tdy->options.discretization == MPFA_O ||
+                       tdy->options.discretization == MPFA_O_DAE ||
+                       tdy->options.discretization == MPFA_O_TRANSIENTVAR, "MPFA-O");
   TDyMPFAO *mpfao = tdy->context;
   mpfao->bc_type = bctype;
 
@@ -2858,12 +2864,14 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
 
 PetscErrorCode TDyMPFAOComputeSystem(TDy tdy,Mat K,Vec F) {
 
-  TDyMPFAO *mpfao = tdy->context;
-  TDyMesh *mesh = mpfao->mesh;
-  TDyCell *cells = &mesh->cells;
   PetscErrorCode ierr;
 
   PetscFunctionBegin;
+  TDyCheckSetup(tdy, tdy->options.discretization == MPFA_O ||
+                     tdy->options.discretization == MPFA_O_TRANSIENTVAR, "MPFA-O");
+  TDyMPFAO *mpfao = tdy->context;
+  TDyMesh *mesh = mpfao->mesh;
+  TDyCell *cells = &mesh->cells;
   TDY_START_FUNCTION_TIMER()
 
 
diff --git a/src/tdycore.c b/src/tdycore.c
index f15c2e0..18a25e3 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1557,6 +1557,14 @@ PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy tdy,
 PetscErrorCode TDyUpdateState(TDy tdy,PetscReal *U, PetscInt num_cells) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  if ((tdy->setup_flags & TDySetupFinished) == 0) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_ORDER,
+      "You must call TDySetup before TDyUpdateState()");
+  }
+  if (!tdy->ops->update_state) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_SUP,
+      "The selected discretization does not support TDyUpdateState()");
+  }
   TDyEnterProfilingStage("TDycore Setup");
   TDY_START_FUNCTION_TIMER()
 
-- 
2.43.0


From 7c6fe6f766d8a2f87b785bfa638c27ac292f38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 098/106] fix: setting up TH or SALINITY mode without its
 material properties crashed

---
 src/fv/mpfao/tdympfao.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index e9f204d..a756ad4 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2468,6 +2468,14 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   PetscFunctionBegin;
 
   PetscErrorCode ierr;
+  // These have no default: everything below relies on them.
+  if (!MaterialPropHasThermalConductivity(matprop) ||
+      !MaterialPropHasSoilDensity(matprop) ||
+      !MaterialPropHasSoilSpecificHeat(matprop)) {
+    SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ORDER,
+            "The TH mode needs a thermal conductivity, a soil density, and a soil specific heat");
+  }
+
   TDyMPFAO* mpfao = context;
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
@@ -2537,6 +2545,13 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   PetscFunctionBegin;
 
   PetscErrorCode ierr;
+  // These have no default: everything below relies on them.
+  if (!MaterialPropHasSalineDiffusivity(matprop) ||
+      !MaterialPropHasSalineMolecularWeight(matprop)) {
+    SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ORDER,
+            "The SALINITY mode needs a saline diffusivity and a saline molecular weight");
+  }
+
   TDyMPFAO* mpfao = context;
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
-- 
2.43.0


From 8487af6eef6409269073c3014a82be29e7bff3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 099/106] fix: changing the mode or discretization after
 TDySetFromOptions, or repeating it, mixed up the contexts; a refused mode was
 kept

---
 src/tdycore.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 18a25e3..2a2b76b 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -582,7 +582,9 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsEnum("-tdy_water_enthalpy","Water enthalpy model", "TDySetWaterEnthalpyType", TDyWaterEnthalpyTypes, (PetscEnum)options->enthalpy_type, (PetscEnum *)&options->enthalpy_type, NULL); CHKERRQ(ierr);
 
   // Create source/sink/boundary conditions.
-  ierr = ConditionsCreate(&tdy->conditions); CHKERRQ(ierr);
+  if (!tdy->conditions) {
+    ierr = ConditionsCreate(&tdy->conditions); CHKERRQ(ierr);
+  }
 
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
@@ -628,6 +630,10 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   // resulting combination.
   PetscBool reset = (options->discretization != discretization) ||
     (options->mode != mode) || !(tdy->setup_flags & TDyDiscretizationSet);
+  if (reset && tdy->context) {
+    SETERRQ(comm,PETSC_ERR_ORDER,
+      "You can't change the mode or the discretization after TDySetFromOptions");
+  }
   options->mode = mode;
   tdy->setup_flags |= TDyModeSet;
   if (reset) {
@@ -677,13 +683,18 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
 
   // Now that we know the discretization, we can create our implementation-
   // specific context.
-  ierr = tdy->ops->create(&tdy->context); CHKERRQ(ierr);
+  if (!tdy->context) {
+    ierr = tdy->ops->create(&tdy->context); CHKERRQ(ierr);
+  }
 
   // Mode/discretization-specific options.
   if (tdy->ops->set_from_options) {
     ierr = tdy->ops->set_from_options(tdy->context, &tdy->options); CHKERRQ(ierr);
   }
 
+  // If the options are being set again, everything below exists already.
+  if (tdy->setup_flags & TDyOptionsSet) PetscFunctionReturn(0);
+
   // Create our DM.
   if (tdy->options.read_pflotran_mesh) {
     PetscInt ndof = tdy->ops->get_num_dm_fields(tdy->context);
@@ -852,14 +863,21 @@ PetscErrorCode TDySetup(TDy tdy) {
 PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
   PetscValidPointer(tdy,1);
   PetscFunctionBegin;
+  if (tdy->context && (mode != tdy->options.mode)) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_ORDER,
+      "You can't change the mode after TDySetFromOptions");
+  }
+  TDyMode prev_mode = tdy->options.mode;
   tdy->options.mode = mode;
-  tdy->setup_flags |= TDyModeSet;
 
   // If we are resetting the mode and have already set the discretization,
-  // we call TDySetDiscretization again.
+  // we call TDySetDiscretization again. If that's refused, nothing changes.
   if (tdy->setup_flags & TDyDiscretizationSet) {
-    PetscInt ierr = TDySetDiscretization(tdy, tdy->options.discretization); CHKERRQ(ierr);
+    PetscErrorCode ierr = TDySetDiscretization(tdy, tdy->options.discretization);
+    if (ierr) tdy->options.mode = prev_mode;
+    CHKERRQ(ierr);
   }
+  tdy->setup_flags |= TDyModeSet;
 
   PetscFunctionReturn(0);
 }
@@ -879,6 +897,10 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
     SETERRQ(comm,PETSC_ERR_USER,
       "You must call TDySetMode before TDySetDiscretization");
   }
+  if (tdy->context && (discretization != tdy->options.discretization)) {
+    SETERRQ(comm,PETSC_ERR_ORDER,
+      "You can't change the discretization after TDySetFromOptions");
+  }
 
   // Set function pointers for operations.
   if (tdy->options.mode == RICHARDS) {
@@ -968,6 +990,8 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
       SETERRQ(comm,PETSC_ERR_USER,
         "The SALINITY mode does not support the selected discretization!");
     }
+  } else {
+    SETERRQ(comm,PETSC_ERR_USER, "Invalid mode given!");
   }
   tdy->options.discretization = discretization;
   tdy->setup_flags |= TDyDiscretizationSet;
-- 
2.43.0


From 4990da56df59269717a340cdbff864576fe5e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 100/106] fix: a PFLOTRAN mesh crashed every discretization but
 FV-TPF

---
 src/tdycore.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 2a2b76b..23ee810 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -697,6 +697,10 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
 
   // Create our DM.
   if (tdy->options.read_pflotran_mesh) {
+    if (tdy->options.discretization != FV_TPF) {
+      SETERRQ(comm,PETSC_ERR_SUP,
+        "Only the FV-TPF discretization supports PFLOTRAN meshes");
+    }
     PetscInt ndof = tdy->ops->get_num_dm_fields(tdy->context);
     ierr = TDyDiscretizationCreateFromPFLOTRANMesh(tdy->options.mesh_file, ndof, tdy->discretization); CHKERRQ(ierr);
   } else if (!((tdy->discretization)->tdydm)->dm) {
-- 
2.43.0


From 47daef6418b81849e66f24a01e218fad591de0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:56 +0000
Subject: [PATCH 101/106] fix: in TH mode, TDySetSNESFunction and
 TDySetSNESJacobian installed the functions of RICHARDS mode

---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 23ee810..d0a8e5d 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -2144,7 +2144,7 @@ PetscErrorCode TDySetSNESFunction(SNES snes,TDy tdy) {
           ierr = SNESSetFunction(snes,tdy->residual,TDyMPFAOSNESFunction,tdy); CHKERRQ(ierr);
           break;
         case TH:
-          ierr = SNESSetFunction(snes,tdy->residual,TDyMPFAOSNESFunction,tdy); CHKERRQ(ierr);
+          SETERRQ(comm,PETSC_ERR_SUP,"SNESFunction not implemented for TH");
           break;
         case SALINITY:
           ierr = SNESSetFunction(snes,tdy->residual,TDyMPFAOSNESFunction_Salinity,tdy); CHKERRQ(ierr);
@@ -2188,6 +2188,9 @@ PetscErrorCode TDySetSNESJacobian(SNES snes,TDy tdy) {
 
   switch (tdy->options.discretization) {
   case MPFA_O:
+    if (tdy->options.mode == TH) {
+      SETERRQ(comm,PETSC_ERR_SUP,"SNESJacobian not implemented for TH");
+    }
     ierr = SNESSetJacobian(snes,tdy->J,tdy->J,TDyMPFAOSNESJacobian,tdy); CHKERRQ(ierr);
     break;
   case MPFA_O_DAE:
-- 
2.43.0


From b2e534f275a4778c11b67d9ed7674902906bc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:17 +0000
Subject: [PATCH 102/106] fix: a mode given by -tdy_mode was kept when
 TDySetFromOptions refused it

---
 src/tdycore.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index d0a8e5d..4d5a354 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -634,10 +634,17 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
     SETERRQ(comm,PETSC_ERR_ORDER,
       "You can't change the mode or the discretization after TDySetFromOptions");
   }
+  TDyMode prev_mode = options->mode;
+  TDySetupFlags prev_flags = tdy->setup_flags;
   options->mode = mode;
   tdy->setup_flags |= TDyModeSet;
   if (reset) {
-    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
+    ierr = TDySetDiscretization(tdy, discretization);
+    if (ierr) { // refused, so nothing changes
+      options->mode = prev_mode;
+      tdy->setup_flags = prev_flags;
+    }
+    CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
-- 
2.43.0


From 3bcd23355cb1922a4443a302d48cfa776388b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:16 +0000
Subject: [PATCH 103/106] fix: setting up MPFA-O or FV-TPF crashed on a mesh
 that had been refused

---
 src/fv/fvtpf/tdyfvtpf.c |  6 +++---
 src/fv/mpfao/tdympfao.c | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index cf56905..82b2de9 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -508,13 +508,13 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
   switch (tdydm_ptr->dmtype) {
     case PLEX_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMPlex\n");
-    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh);
-    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv);
+    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh); CHKERRQ(ierr);
+    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv); CHKERRQ(ierr);
     break;
 
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
-    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
     {
       // Material functions and material setters use the cell centers
       // (and volumes) in fvtpf->X (and fvtpf->V).
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index a756ad4..dd9af33 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2363,8 +2363,8 @@ PetscErrorCode TDySetup_Richards_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2419,8 +2419,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2480,8 +2480,8 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2556,8 +2556,8 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
-- 
2.43.0


From d30cd8c5e69c9008fd994dedfbd04fd39e8a9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 104/106] fix: MPFA-O DAE was never set up; its equations
 disagreed about the mass variable, and each evaluation leaked

---
 src/fv/mpfao/tdympfao.c        |  3 ++-
 src/fv/mpfao/tdympfao_ts_dae.c | 15 +++++++++------
 src/tdyutils.c                 |  2 +-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index dd9af33..487538c 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2413,7 +2413,6 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
                                            Conditions* conditions) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  PetscFunctionReturn(0);
 
   TDyMPFAO *mpfao = context;
   DM dm;
@@ -2458,6 +2457,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
 
   ierr = AllocateMemoryForBoundaryValues(mpfao, eos); CHKERRQ(ierr);
   ierr = AllocateMemoryForSourceSinkValues(mpfao); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
 }
 
 // Setup function for TH + MPFA-O
diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index b22aaf3..a4a2494 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -17,7 +17,7 @@ PetscErrorCode TDyMPFAOIFunction_DAE(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void
   TDyMesh *mesh = mpfao->mesh;
   TDyCell *cells = &mesh->cells;
   DM       dm;
-  Vec      P,M,R_P,R_M;
+  Vec      P,M,R_P;
   PetscReal *p,*u_t,*r,*r_p,*m;
   PetscInt m_idx, p_idx;
   PetscInt icell;
@@ -33,10 +33,9 @@ PetscErrorCode TDyMPFAOIFunction_DAE(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void
   ierr = VecZeroEntries(R); CHKERRQ(ierr);
 
   // Get sub-vectors
-  ierr = ExtractSubVectors(tdy->soln_loc,0,&P);
-  ierr = ExtractSubVectors(tdy->soln_loc,1,&M);
-  ierr = ExtractSubVectors(R,0,&R_P);
-  ierr = ExtractSubVectors(R,1,&R_M);
+  ierr = ExtractSubVectors(tdy->soln_loc,0,&P); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(tdy->soln_loc,1,&M); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(R,0,&R_P); CHKERRQ(ierr);
 
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(P,&p); CHKERRQ(ierr);
@@ -69,13 +68,17 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
     m_idx = p_idx + 1;
 
     r[p_idx]  = u_t[m_idx] * cells->volume[icell] - mpfao->source_sink[icell] * cells->volume[icell]+ r_p[icell];
-    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   /* Cleanup */
   ierr = VecRestoreArray(M,&m); CHKERRQ(ierr);
+  ierr = VecRestoreArray(U_t,&u_t); CHKERRQ(ierr);
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
   ierr = VecRestoreArray(R_P,&r_p); CHKERRQ(ierr);
+  ierr = VecDestroy(&P); CHKERRQ(ierr);
+  ierr = VecDestroy(&M); CHKERRQ(ierr);
+  ierr = VecDestroy(&R_P); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 3f704bb..6cce668 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -649,7 +649,7 @@ PetscErrorCode ExtractSubVectors(Vec A, PetscInt stride, Vec *Asub) {
   if (stride>= block_size)
     SETERRQ(PETSC_COMM_SELF, PETSC_ERR_LIB, "ExtractSubVectors: stride > block size");
 
-  ierr = VecCreate(PETSC_COMM_WORLD,Asub); CHKERRQ(ierr);
+  ierr = VecCreate(PetscObjectComm((PetscObject)A),Asub); CHKERRQ(ierr);
   ierr = VecSetSizes(*Asub,local_size/block_size,PETSC_DECIDE); CHKERRQ(ierr);
   ierr = VecSetFromOptions(*Asub); CHKERRQ(ierr);
   ierr = VecStrideGather(A,stride,*Asub,INSERT_VALUES); CHKERRQ(ierr);
-- 
2.43.0


From 8804f3da7b1e4fcc9ec4f7f76c3a938943744050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:16 +0000
Subject: [PATCH 105/106] fix: a mesh of mixed cells, of tetrahedra or, for BDM
 and WY, of mixed faces was refused but used, overrunning arrays

---
 src/fe/tdybdm.c            |  6 ++++++
 src/fe/tdywy.c             |  6 ++++++
 src/fv/share/tdymeshplex.c |  9 +++++++++
 src/tdycore.c              | 12 ++++++------
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index c5ac542..fc35f26 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -184,6 +184,9 @@ PetscErrorCode TDySetup_BDM(void *context, TDyDiscretizationType *discretization
   ierr = DMGetGlobalSection(dm,&sec); CHKERRQ(ierr);
   ierr = DMSetBasicAdjacency(dm,PETSC_TRUE,PETSC_TRUE); CHKERRQ(ierr);
   bdm->ncv = TDyGetNumberOfCellVertices(dm);
+  if (!bdm->ncv) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
+  }
 
   /* Build vmap and emap */
   ierr = CreateCellVertexMap(dm, bdm->ncv, bdm->X, &(bdm->vmap)); CHKERRQ(ierr);
@@ -192,6 +195,9 @@ PetscErrorCode TDySetup_BDM(void *context, TDyDiscretizationType *discretization
 
   /* Build map(face,local_vertex) --> vertex */
   nfv = TDyGetNumberOfFaceVertices(dm);
+  if (!nfv) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh faces must be of uniform type");
+  }
   ierr = TDyAlloc(nfv*(fEnd-fStart)*sizeof(PetscInt),
                   &(bdm->fmap)); CHKERRQ(ierr);
   for(f=fStart; f<fEnd; f++) {
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 3d75ce9..3113b4b 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -381,6 +381,9 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   /* Check that the number of vertices per cell are constant. Soft
      limitation, method is flexible but my data structures are not. */
   wy->ncv = TDyGetNumberOfCellVertices(dm);
+  if (!wy->ncv) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
+  }
 
   /* Create a PETSc quadrature, we don't really use this, it is just
      to evaluate the Jacobian via the PETSc interface. */
@@ -402,6 +405,9 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
 
   /* Allocate space for velocities and create a local_vertex->face map */
   wy->nfv = TDyGetNumberOfFaceVertices(dm);
+  if (!wy->nfv) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh faces must be of uniform type");
+  }
   ierr = TDyAlloc(wy->nfv*(fEnd-fStart)*sizeof(PetscReal),
                      &(wy->vel )); CHKERRQ(ierr);
   ierr = TDyAlloc(wy->nfv*(fEnd-fStart)*sizeof(PetscInt ),
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 8ecea02..48512c4 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3704,6 +3704,15 @@ PetscErrorCode TDyMeshCreateFromPlex(DM dm, PetscReal **volumes, PetscReal **coo
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"MPFA-O only supports 3D meshes");
   }
 
+  // subcells are defined only for wedges and hexahedra (a process may have no cells)
+  PetscInt num_cell_vertices = TDyGetNumberOfCellVertices(dm);
+  if (!num_cell_vertices) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
+  }
+  if (num_cell_vertices > 0 && num_cell_vertices != 6 && num_cell_vertices != 8) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh cells must be wedges or hexahedra");
+  }
+
   ierr = TDyAlloc(sizeof(TDyMesh), mesh); CHKERRQ(ierr);
 
   // Determine the number of cells, edges, and vertices of the mesh
diff --git a/src/tdycore.c b/src/tdycore.c
index 4d5a354..2ed3a44 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1614,11 +1614,11 @@ PetscErrorCode TDyUpdateState(TDy tdy,PetscReal *U, PetscInt num_cells) {
   PetscFunctionReturn(0);
 }
 
+/// Returns the number of vertices of each cell, or 0 if the cells don't all
+/// have the same number of vertices.
 PetscInt TDyGetNumberOfCellVertices(DM dm) {
   PetscFunctionBegin;
   PetscErrorCode ierr;
-  MPI_Comm comm;
-  ierr = PetscObjectGetComm((PetscObject)dm,&comm); CHKERRQ(ierr);
   PetscInt vStart, vEnd, cStart, cEnd;
   ierr = DMPlexGetDepthStratum (dm,0,&vStart,&vEnd); CHKERRQ(ierr);
   ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
@@ -1633,19 +1633,19 @@ PetscInt TDyGetNumberOfCellVertices(DM dm) {
       if ((closure[i] >= vStart) && (closure[i] < vEnd)) q += 1;
     }
     if(nq == -1) nq = q;
-    if(nq !=  q) SETERRQ(comm,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
     ierr = DMPlexRestoreTransitiveClosure(dm,c,PETSC_TRUE,&closureSize,&closure);
     CHKERRQ(ierr);
+    if(nq !=  q) PetscFunctionReturn(0);
   }
   PetscFunctionReturn(nq);
 }
 
+/// Returns the number of vertices of each face, or 0 if the faces don't all
+/// have the same number of vertices.
 PetscInt TDyGetNumberOfFaceVertices(DM dm) {
   PetscFunctionBegin;
   PetscErrorCode ierr;
-  MPI_Comm       comm;
   PetscInt nq,f,q,i,fStart,fEnd,vStart,vEnd,closureSize,*closure;
-  ierr = PetscObjectGetComm((PetscObject)dm,&comm); CHKERRQ(ierr);
   ierr = DMPlexGetDepthStratum (dm,0,&vStart,&vEnd); CHKERRQ(ierr);
   ierr = DMPlexGetHeightStratum(dm,1,&fStart,&fEnd); CHKERRQ(ierr);
   nq = -1;
@@ -1658,9 +1658,9 @@ PetscInt TDyGetNumberOfFaceVertices(DM dm) {
       if ((closure[i] >= vStart) && (closure[i] < vEnd)) q += 1;
     }
     if(nq == -1) nq = q;
-    if(nq !=  q) SETERRQ(comm,PETSC_ERR_SUP,"Mesh faces must be of uniform type");
     ierr = DMPlexRestoreTransitiveClosure(dm,f,PETSC_TRUE,&closureSize,&closure);
     CHKERRQ(ierr);
+    if(nq !=  q) PetscFunctionReturn(0);
   }
   PetscFunctionReturn(nq);
 }
-- 
2.43.0


From c189e444ada9aaf93c8f13fd0a6c7e1315326a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:27 +0000
Subject: [PATCH 106/106] fix: regression files of MPFA_O_DAE list the
 pressures of the cells

The regression output took every unknown of an MPFA_O_DAE dycore for the pressure of a cell, so the statistics mixed pressures with liquid masses and the cell numbers were those of the unknowns.
---
 src/tdyregression.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 7d7f09c..0331856 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -3,6 +3,13 @@
 #include <private/tdydiscretizationimpl.h>
 #include <tdytimers.h>
 
+// Returns PETSC_TRUE if cells store another unknown besides their pressure: a
+// temperature, a salt concentration, or (MPFA_O_DAE) the mass of liquid.
+static PetscBool HasTwoFields(TDy tdy) {
+  return (PetscBool)(tdy->options.mode != RICHARDS ||
+                     tdy->options.discretization == MPFA_O_DAE);
+}
+
 PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   PetscErrorCode ierr;
   TDyRegression *regression;
@@ -26,7 +33,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
 
-  ndof_per_cell = (tdy->options.mode == RICHARDS) ? 1 : 2;
+  ndof_per_cell = (HasTwoFields(tdy)) ? 2 : 1;
 
   ierr = TDyAlloc(sizeof(TDyRegression), &regression); CHKERRQ(ierr);
 
@@ -145,13 +152,13 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscErrorCode ierr;
   PetscInt c;
   Vec U_pres, U_temp;
-  PetscBool two_fields; // temperature or salt concentration besides pressure
+  PetscBool two_fields;
 
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
 
   reg = tdy->regression;
-  two_fields = (PetscBool)(tdy->options.mode != RICHARDS);
+  two_fields = HasTwoFields(tdy);
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
 
@@ -251,6 +258,8 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
     if (two_fields) {
       if (tdy->options.mode == TH) {
         fprintf(fp,"-- GENERIC: Temperature --\n");
+      } else if (tdy->options.mode == RICHARDS) {
+        fprintf(fp,"-- GENERIC: Liquid Mass --\n");
       } else {
         fprintf(fp,"-- CONCENTRATION: Saline Concentration --\n");
       }
-- 
2.43.0

