/* Helpers of the demonstrations: public interface only. */
#include <tdycore.h>
#include <petsc.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define OK(x) do { PetscErrorCode e_ = (x); if (e_) { fprintf(stderr, "%s failed with %d\n", #x, (int)e_); MPI_Abort(MPI_COMM_WORLD, 2); } } while (0)
static int bad_;
#define EXPECT(c, ...) do { if (!(c)) { fprintf(stderr, "BROKEN: " __VA_ARGS__); fprintf(stderr, "\n"); bad_ = 1; } } while (0)
typedef struct { int n[3]; double L[3]; void (*warp)(double *x); } Box;
static Box box_ = {{2, 2, 2}, {1, 1, 1}, NULL};

static PetscErrorCode box_ctor(MPI_Comm comm, void *ctx, DM *dm) {
  PetscReal lo[3] = {0, 0, 0}, hi[3] = {box_.L[0], box_.L[1], box_.L[2]};
  PetscInt n[3] = {box_.n[0], box_.n[1], box_.n[2]};
  OK(DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, n, lo, hi, NULL, PETSC_TRUE, dm));
  if (box_.warp) {
    Vec c; PetscScalar *a; PetscInt m;
    OK(DMGetCoordinatesLocal(*dm, &c)); OK(VecGetLocalSize(c, &m)); OK(VecGetArray(c, &a));
    for (PetscInt i = 0; i + 2 < m; i += 3) box_.warp(a + i);
    OK(VecRestoreArray(c, &a));
  }
  return 0;
}
/* after this: set functions, then TDySetup */
static TDy make(TDyMode mode, TDyDiscretization disc) {
  TDy t;
  OK(TDyCreate(PETSC_COMM_WORLD, &t)); OK(TDySetMode(t, mode)); OK(TDySetDiscretization(t, disc));
  OK(TDySetDMConstructor(t, NULL, box_ctor)); OK(TDySetFromOptions(t));
  return t;
}
static void defaults(TDy t, double K) {
  OK(TDySetConstantPorosity(t, 0.3)); OK(TDySetConstantIsotropicPermeability(t, K)); OK(TDySetConstantResidualSaturation(t, 0.1));
  OK(TDySetConstantIsotropicThermalConductivity(t, 1.0)); OK(TDySetConstantSoilDensity(t, 2650.0)); OK(TDySetConstantSoilSpecificHeat(t, 1000.0));
}
static SNES solver(TDy t) {
  SNES s;
  OK(TDyCreateVectors(t)); OK(TDyCreateJacobian(t)); OK(SNESCreate(PETSC_COMM_WORLD, &s)); OK(TDySetSNESFunction(s, t)); OK(TDySetSNESJacobian(s, t));
  return s;
}
static Vec gvec(TDy t) { Vec v; DM dm; OK(TDyGetDM(t, &dm)); OK(DMCreateGlobalVector(dm, &v)); return v; }
/* cell centroid of every local row of a global vector with ndof values per cell */
static void centroids(TDy t, int ndof, double *x, double *vol) {
  DM dm; PetscInt c0, c1, k = 0; PetscSection gs;
  OK(TDyGetDM(t, &dm)); OK(DMPlexGetHeightStratum(dm, 0, &c0, &c1)); OK(DMGetGlobalSection(dm, &gs));
  for (PetscInt c = c0; c < c1; c++) {
    PetscInt o; OK(PetscSectionGetOffset(gs, c, &o));
    if (o < 0) continue;
    PetscReal v, cen[3], nn[3]; OK(DMPlexComputeCellGeometryFVM(dm, c, &v, cen, nn));
    for (int d = 0; d < 3; d++) x[3 * k + d] = cen[d];
    if (vol) vol[k] = v;
    k++;
  }
}
/* relative difference of column `row` of the Jacobian and the difference quotient of the residual */
static double jac_error(SNES s, TDy t, Vec u, int col, double h) {
  Vec rp, rm, d, w, e; Mat J, P; PetscReal a, b;
  OK(VecDuplicate(u, &rp)); OK(VecDuplicate(u, &rm)); OK(VecDuplicate(u, &d)); OK(VecDuplicate(u, &w)); OK(VecDuplicate(u, &e));
  OK(SNESGetJacobian(s, &J, &P, NULL, NULL)); OK(SNESComputeFunction(s, u, rp)); OK(SNESComputeJacobian(s, u, J, P));
  OK(VecZeroEntries(e)); OK(VecSetValue(e, col, 1.0, INSERT_VALUES)); OK(VecAssemblyBegin(e)); OK(VecAssemblyEnd(e));
  OK(MatMult(P, e, d));
  OK(VecWAXPY(w, h, e, u)); OK(SNESComputeFunction(s, w, rp)); OK(VecWAXPY(w, -h, e, u)); OK(SNESComputeFunction(s, w, rm));
  OK(VecAXPY(rp, -1.0, rm)); OK(VecScale(rp, 0.5 / h)); OK(VecNorm(rp, NORM_INFINITY, &a)); OK(VecAXPY(rp, -1.0, d)); OK(VecNorm(rp, NORM_INFINITY, &b));
  OK(VecDestroy(&rp)); OK(VecDestroy(&rm)); OK(VecDestroy(&d)); OK(VecDestroy(&w)); OK(VecDestroy(&e));
  return b / a;
}
