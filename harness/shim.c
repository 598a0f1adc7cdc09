/* Test-driver glue compiled next to /repo's sources: error capture, mesh construction from explicit
   arrays, and read access to library data structures by name. */
#include <petsc.h>
#include <petsc/private/dmpleximpl.h>
#include <tdycore.h>
#include <tdytimers.h>
#include <private/tdycoreimpl.h>
#include <private/tdympfaoimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <private/tdywyimpl.h>
#include <private/tdybdmimpl.h>
#include <private/tdymemoryimpl.h>

/* ------------------------------------------------------------------ errors */
static char err_msg[4096];
static int err_code, err_set;
static PetscErrorCode shim_handler(MPI_Comm c, int line, const char *fun, const char *file, PetscErrorCode n,
                                   PetscErrorType p, const char *mess, void *ctx) {
  if (!err_set) {
    err_set = 1; err_code = n;
    const char *b = file ? strrchr(file, '/') : NULL;
    snprintf(err_msg, sizeof err_msg, "%s (%s:%d): %s", fun ? fun : "?", b ? b + 1 : (file ? file : "?"), line, mess ? mess : "");
  }
  return n;
}
int shim_push_handler(void) { return PetscPushErrorHandler(shim_handler, NULL); }
int shim_pop_handler(void) { return PetscPopErrorHandler(); }
void shim_clear_error(void) { err_set = 0; err_code = 0; err_msg[0] = 0; }
int shim_last_error(char *buf, int n) { snprintf(buf, n, "%s", err_msg); return err_code; }
MPI_Comm shim_comm(int which) { return which ? PETSC_COMM_WORLD : PETSC_COMM_SELF; }
int shim_rank(int *rank, int *size) { MPI_Comm_rank(PETSC_COMM_WORLD, rank); return MPI_Comm_size(PETSC_COMM_WORLD, size); }
int shim_sig_off(void) { return PetscPopSignalHandler(); }

/* ------------------------------------------------------------------ mesh construction */
typedef struct { int kind, dim, nc, ncorner, nv; int n[3]; const int *cells; const double *coords; int simplex; } ShimMesh;
static ShimMesh sm;
void shim_set_mesh_cells(int dim, int nc, int ncorner, const int *cells, int nv, const double *coords) {
  sm.kind = 1; sm.dim = dim; sm.nc = nc; sm.ncorner = ncorner; sm.cells = cells; sm.nv = nv; sm.coords = coords;
}
/* box of n cells over the unit lattice; coords[(nx+1)*(ny+1)*(nz+1)*dim] (x fastest) replaces the vertex positions */
void shim_set_mesh_box(int dim, const int *n, int simplex, const double *coords) {
  sm.kind = 2; sm.dim = dim; for (int d = 0; d < dim; d++) sm.n[d] = n[d]; sm.coords = coords; sm.simplex = simplex;
}
static PetscErrorCode remap(DM dm) {
  PetscErrorCode ierr; Vec cv; PetscSection cs; PetscInt vs, ve, v, off, d; PetscScalar *a;
  DM cdm;
  PetscFunctionBegin;
  ierr = DMGetCoordinateDM(dm, &cdm); CHKERRQ(ierr);
  ierr = DMGetCoordinatesLocal(dm, &cv); CHKERRQ(ierr);
  ierr = DMGetLocalSection(cdm, &cs); CHKERRQ(ierr);
  ierr = DMPlexGetDepthStratum(dm, 0, &vs, &ve); CHKERRQ(ierr);
  ierr = VecGetArray(cv, &a); CHKERRQ(ierr);
  for (v = vs; v < ve; v++) {
    ierr = PetscSectionGetOffset(cs, v, &off); CHKERRQ(ierr);
    long idx = 0, mul = 1;
    for (d = 0; d < sm.dim; d++) { long i = lround(a[off + d] * sm.n[d]); idx += i * mul; mul *= sm.n[d] + 1; }
    for (d = 0; d < sm.dim; d++) a[off + d] = sm.coords[idx * sm.dim + d];
  }
  ierr = VecRestoreArray(cv, &a); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
PetscErrorCode shim_mesh_ctor(MPI_Comm comm, void *ctx, DM *dm) {
  PetscErrorCode ierr; int rank;
  PetscFunctionBegin;
  MPI_Comm_rank(comm, &rank);
  if (sm.kind == 1) {
    ierr = DMPlexCreateFromCellListPetsc(comm, sm.dim, rank ? 0 : sm.nc, rank ? 0 : sm.nv, sm.ncorner, PETSC_TRUE, sm.cells, sm.dim, sm.coords, dm); CHKERRQ(ierr);
  } else {
    PetscReal lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
    ierr = DMPlexCreateBoxMesh(comm, sm.dim, sm.simplex ? PETSC_TRUE : PETSC_FALSE, sm.n, lo, hi, NULL, PETSC_TRUE, dm); CHKERRQ(ierr);
    if (sm.coords) { ierr = remap(*dm); CHKERRQ(ierr); }
  }
  PetscFunctionReturn(0);
}
int shim_make_dm(int which, DM *dm) { return shim_mesh_ctor(shim_comm(which), NULL, dm); }
int shim_use_ctor(TDy tdy) { return TDySetDMConstructor(tdy, NULL, shim_mesh_ctor); }

/* ------------------------------------------------------------------ struct access */
#define F(s, x) if (!strcmp(name, #x)) { *out = (void *)(s)->x; return 0; }
#define A(s, x) if (!strcmp(name, #x)) { *out = (void *)&(s)->x; return 0; }
static int is_fvtpf(TDy t) { return t->options.discretization == FV_TPF; }
static TDyMesh *mesh_of(TDy t) { return is_fvtpf(t) ? ((TDyFVTPF *)t->context)->mesh : ((TDyMPFAO *)t->context)->mesh; }
void *shim_meshptr(TDy t) { return mesh_of(t); }
#define COMMON(c) \
  F(c,V) F(c,X) F(c,N) F(c,K) F(c,K0) F(c,porosity) F(c,Kappa) F(c,Kappa0) F(c,rho_soil) F(c,c_soil) F(c,Kr) F(c,dKr_dS) \
  F(c,S) F(c,dS_dP) F(c,d2S_dP2) F(c,dS_dT) F(c,Sr) F(c,P_bnd) F(c,T_bnd) F(c,rho_bnd) F(c,vis_bnd) F(c,h_bnd) F(c,Kr_bnd) \
  F(c,dKr_dS_bnd) F(c,S_bnd) F(c,dS_dP_bnd) F(c,d2S_dP2_bnd) F(c,source_sink) F(c,energy_source_sink) F(c,rho) F(c,drho_dP) \
  F(c,d2rho_dP2) F(c,drho_dT) F(c,vis) F(c,dvis_dP) F(c,d2vis_dP2) F(c,dvis_dT) F(c,h) F(c,dh_dP) F(c,dh_dT) F(c,u) F(c,du_dP) \
  F(c,du_dT) F(c,vel) F(c,vel_count) A(c,gravity) A(c,Pref) A(c,Tref) A(c,ncv) A(c,nfv)
int shim_ctx(TDy t, const char *name, void **out) {
  if (is_fvtpf(t)) { TDyFVTPF *c = (TDyFVTPF *)t->context; COMMON(c) F(c,pressure) }
  else { TDyMPFAO *c = (TDyMPFAO *)t->context; COMMON(c) F(c,m_nacl) F(c,Psi_bnd) F(c,D_saline) F(c,mu_saline) F(c,salinity_source_sink)
    F(c,Trans_mat) F(c,Temp_Trans_mat) F(c,Psi_Trans_mat) F(c,P_vec) F(c,TtimesP_vec) F(c,GravDisVec) F(c,Trans) F(c,subc_Gmatrix) A(c,gmatrix_method) A(c,bc_type) }
  return 1;
}
int shim_mesh(TDy t, const char *name, void **out) {
  TDyMesh *m = mesh_of(t);
  TDyCell *c = &m->cells; TDyFace *f = &m->faces; TDyVertex *v = &m->vertices; TDyEdge *e = &m->edges; TDySubcell *s = &m->subcells;
#define P(st, pre, x) if (!strcmp(name, pre "." #x)) { *out = (void *)(st)->x; return 0; }
  A(m,num_cells) A(m,num_cells_local) A(m,num_faces) A(m,num_edges) A(m,num_vertices) A(m,num_boundary_faces) A(m,num_subcells) F(m,nG2A)
  P(c,"c",id) P(c,"c",global_id) P(c,"c",natural_id) P(c,"c",is_local) P(c,"c",num_vertices) P(c,"c",num_edges) P(c,"c",num_faces)
  P(c,"c",num_neighbors) P(c,"c",num_subcells) P(c,"c",vertex_offset) P(c,"c",edge_offset) P(c,"c",face_offset) P(c,"c",neighbor_offset)
  P(c,"c",vertex_ids) P(c,"c",edge_ids) P(c,"c",face_ids) P(c,"c",neighbor_ids) P(c,"c",centroid) P(c,"c",volume)
  P(f,"f",id) P(f,"f",global_id) P(f,"f",is_local) P(f,"f",is_internal) P(f,"f",num_vertices) P(f,"f",num_edges) P(f,"f",num_cells)
  P(f,"f",vertex_offset) P(f,"f",edge_offset) P(f,"f",cell_offset) P(f,"f",vertex_ids) P(f,"f",edge_ids) P(f,"f",cell_ids) P(f,"f",bc_type)
  P(f,"f",centroid) P(f,"f",normal) P(f,"f",area) P(f,"f",dist_up_dn) P(f,"f",dist_wt_up) P(f,"f",dist) P(f,"f",unit_vec_up_dn) P(f,"f",projected_area)
  P(v,"v",id) P(v,"v",global_id) P(v,"v",is_local) P(v,"v",num_internal_cells) P(v,"v",num_edges) P(v,"v",num_faces) P(v,"v",num_boundary_faces)
  P(v,"v",edge_offset) P(v,"v",face_offset) P(v,"v",internal_cell_offset) P(v,"v",subcell_offset) P(v,"v",boundary_face_offset)
  P(v,"v",edge_ids) P(v,"v",face_ids) P(v,"v",subface_ids) P(v,"v",internal_cell_ids) P(v,"v",subcell_ids) P(v,"v",boundary_face_ids) P(v,"v",coordinate)
  P(e,"e",id) P(e,"e",vertex_ids) P(e,"e",num_cells) P(e,"e",cell_offset) P(e,"e",cell_ids) P(e,"e",is_internal) P(e,"e",centroid) P(e,"e",normal) P(e,"e",length)
  P(s,"s",num_nu_vectors) P(s,"s",nu_vector_offset) P(s,"s",nu_vector) P(s,"s",nu_star_vector) P(s,"s",variable_continuity_coordinates)
  P(s,"s",face_centroid) P(s,"s",num_vertices) P(s,"s",vertex_offset) P(s,"s",vertices_coordinates) P(s,"s",T) P(s,"s",num_faces)
  P(s,"s",face_offset) P(s,"s",face_ids) P(s,"s",face_area) P(s,"s",is_face_up) P(s,"s",face_unknown_idx) P(s,"s",face_flux_idx) P(s,"s",vertex_ids)
  return 1;
}
int shim_tdy(TDy t, const char *name, void **out) {
  F(t,J) F(t,Jpre) F(t,soln) F(t,soln_loc) F(t,soln_prev) F(t,accumulation_prev) F(t,residual) F(t,diag_dm) F(t,diag_vec) F(t,ti)
  F(t,regression) F(t,context) F(t,matprop) F(t,cc) F(t,conditions) A(t,eos) A(t,options) A(t,dtime) A(t,setup_flags) A(t,io) F(t,discretization)
  if (!strcmp(name, "snes")) { *out = t->ti ? (void *)t->ti->snes : NULL; return 0; }
  if (!strcmp(name, "ts")) { *out = t->ti ? (void *)t->ti->ts : NULL; return 0; }
  if (!strcmp(name, "saturation")) { *out = t->cc ? (void *)t->cc->saturation : NULL; return 0; }
  if (!strcmp(name, "rel_perm")) { *out = t->cc ? (void *)t->cc->rel_perm : NULL; return 0; }
  return 1;
}
/* cc points/params: kind 0 saturation, 1 rel perm */
int shim_cc(TDy t, int kind, int type, int *n, int **points, double **params) {
  if (!t->cc) return 1;
  if (kind == 0) { *n = t->cc->saturation->num_points[type]; *points = t->cc->saturation->points[type]; *params = t->cc->saturation->parameters[type]; }
  else { *n = t->cc->rel_perm->num_points[type]; *points = t->cc->rel_perm->points[type]; *params = t->cc->rel_perm->parameters[type]; }
  return 0;
}
#define OPTR(x) if (!strcmp(name, #x)) { *d = (double)o->x; return 0; }
int shim_opt(TDy t, const char *name, double *d, char *s, int ns) {
  TDyOptions *o = &t->options;
  OPTR(gravity_constant) OPTR(mode) OPTR(discretization) OPTR(rho_type) OPTR(mu_type) OPTR(enthalpy_type) OPTR(porosity) OPTR(permeability)
  OPTR(thermal_conductivity) OPTR(residual_saturation) OPTR(soil_density) OPTR(soil_specific_heat) OPTR(saline_diffusivity) OPTR(saline_molecular_weight)
  OPTR(gardner_n) OPTR(vangenuchten_m) OPTR(vangenuchten_alpha) OPTR(mualem_poly_x0) OPTR(mualem_poly_x1) OPTR(mualem_poly_x2) OPTR(mualem_poly_dx)
  OPTR(boundary_pressure) OPTR(boundary_temperature) OPTR(boundary_velocity) OPTR(init_with_random_field) OPTR(init_from_file) OPTR(read_mesh)
  OPTR(read_pflotran_mesh) OPTR(output_mesh) OPTR(regression_testing) OPTR(enable_timers)
  if (!strcmp(name, "init_file")) { snprintf(s, ns, "%s", o->init_file); return 0; }
  if (!strcmp(name, "mesh_file")) { snprintf(s, ns, "%s", o->mesh_file); return 0; }
  return 1;
}
static TDyTimeIntegrator own_ti;
int shim_ti_get(TDy t, double *o) {
  TDyTimeIntegrator ti = t ? t->ti : own_ti; if (!ti) return 1;
  o[0] = ti->dt_init; o[1] = ti->dt_max; o[2] = ti->dt_reduction_factor; o[3] = ti->dt_growth_factor; o[4] = ti->dt; o[5] = ti->dt_save;
  o[6] = ti->time; o[7] = ti->final_time; o[8] = ti->istep; o[9] = ti->time_integration_method; return 0;
}
int shim_eos(TDy t, int *o) { o[0] = t->eos.density_type; o[1] = t->eos.viscosity_type; o[2] = t->eos.enthalpy_type; return 0; }
void *shim_eos_ptr(int d, int v, int h) { static EOS e; e.density_type = d; e.viscosity_type = v; e.enthalpy_type = h; return &e; }
int shim_setup_flags(TDy t) { return (int)t->setup_flags; }

/* dense local rows of a matrix: out[nlocal*ncols] */
int shim_mat_info(Mat m, int *o) {
  PetscInt r, c, s, e; PetscErrorCode ierr;
  ierr = MatGetSize(m, &r, &c); if (ierr) return ierr;
  ierr = MatGetOwnershipRange(m, &s, &e); if (ierr) return ierr;
  o[0] = r; o[1] = c; o[2] = s; o[3] = e; return 0;
}
int shim_mat_dense(Mat m, double *out) {
  int o[4]; int ierr = shim_mat_info(m, o); if (ierr) return ierr;
  for (int r = o[2]; r < o[3]; r++) {
    PetscInt nc; const PetscInt *cols; const PetscScalar *vals;
    ierr = MatGetRow(m, r, &nc, &cols, &vals); if (ierr) return ierr;
    for (int k = 0; k < nc; k++) out[(size_t)(r - o[2]) * o[1] + cols[k]] += vals[k];
    ierr = MatRestoreRow(m, r, &nc, &cols, &vals); if (ierr) return ierr;
  }
  return 0;
}
/* natural ids of the local cells of the library's mesh and the DM's local-to-global map */
int shim_l2g(DM dm, int n, int bs, int *out) {
  ISLocalToGlobalMapping m; const PetscInt *idx; PetscInt nn;
  PetscErrorCode ierr = DMGetLocalToGlobalMapping(dm, &m); if (ierr) return ierr;
  ierr = ISLocalToGlobalMappingGetSize(m, &nn); if (ierr) return ierr;
  ierr = ISLocalToGlobalMappingGetIndices(m, &idx); if (ierr) return ierr;
  for (int i = 0; i < n && i < nn; i++) out[i] = idx[i];
  return ISLocalToGlobalMappingRestoreIndices(m, &idx);
}
int shim_malloc_validate(void) { return PetscMallocValidate(__LINE__, "shim", __FILE__); }
/* geometry and global offsets of the DM's cells (public PETSc calls): goff[c] = first global row of the cell, or -1 if not owned */
int shim_cells(DM dm, int max, int *n, double *cen, double *vol, int *goff) {
  PetscInt cs, ce; PetscErrorCode ierr; PetscSection gs;
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); if (ierr) return ierr;
  ierr = DMGetGlobalSection(dm, &gs); if (ierr) return ierr;
  *n = ce - cs;
  for (PetscInt c = cs; c < ce && c - cs < max; c++) {
    PetscInt off, dof;
    ierr = DMPlexComputeCellGeometryFVM(dm, c, &vol[c - cs], &cen[3 * (c - cs)], NULL); if (ierr) return ierr;
    ierr = PetscSectionGetOffset(gs, c, &off); if (ierr) return ierr;
    ierr = PetscSectionGetDof(gs, c, &dof); if (ierr) return ierr;
    goff[c - cs] = (off < 0 || dof < 0) ? -1 : off;
  }
  return 0;
}

/* smallest number of cells (with ghosts) any process holds */
int shim_min_cells(DM dm) {
  PetscInt cs = 0, ce = 0; int n, m;
  if (DMPlexGetHeightStratum(dm, 0, &cs, &ce)) return -1;
  n = (int)(ce - cs);
  MPI_Allreduce(&n, &m, 1, MPI_INT, MPI_MIN, PetscObjectComm((PetscObject)dm));
  return m;
}

/* the smallest number of cells a process owns of a mesh read from a PFLOTRAN file */
int shim_min_ugrid(TDy t) {
  int n = (int)t->discretization->ugrid->num_cells_local, m;
  MPI_Allreduce(&n, &m, 1, MPI_INT, MPI_MIN, PETSC_COMM_WORLD);
  return m;
}

/* ------------------------------------------------------------------ nonlinear solves under a script
   the library's own SNESSolve calls are linked to this wrapper; script[k]: 0 real solve, 1 accept a made-up solution,
   2 fail leaving a made-up iterate, 3 fail leaving NaN.  Without a script every solve is real. */
PetscErrorCode __real_SNESSolve(SNES, Vec, Vec);
static int *ss_script, ss_n, ss_k, ss_max, ss_len; static double *ss_log; static TDy ss_tdy;
/* log row: dtime, time, istep, script, reason, then local x at entry, previous solution at entry, x at exit */
int shim_script(TDy t, int n, int *script, int max, double *log) {
  ss_tdy = t; ss_script = script; ss_n = n; ss_k = 0; ss_max = max; ss_log = log; ss_len = 0;
  if (t && t->soln) { PetscInt l; VecGetLocalSize(t->soln, &l); ss_len = l; }
  return 0;
}
int shim_script_count(void) { return ss_k; }
static void ss_copy(Vec v, double *o) {
  const PetscScalar *a; PetscInt n, i;
  VecGetLocalSize(v, &n); VecGetArrayRead(v, &a);
  for (i = 0; i < n && i < ss_len; i++) o[i] = a[i];
  VecRestoreArrayRead(v, &a);
}
PetscErrorCode __wrap_SNESSolve(SNES s, Vec b, Vec x) {
  PetscErrorCode ierr; double *row = NULL; int act = 0; SNESConvergedReason why;
  if (!ss_tdy) return __real_SNESSolve(s, b, x);
  if (ss_k >= ss_max) return PETSC_ERR_ARG_OUTOFRANGE + 0 * (ss_k++);
  row = ss_log + (size_t)ss_k * (5 + 3 * ss_len);
  act = ss_k < ss_n ? ss_script[ss_k] : (ss_n ? ss_script[ss_n - 1] : 0);
  row[0] = ss_tdy->dtime; row[1] = ss_tdy->ti->time; row[2] = ss_tdy->ti->istep; row[3] = act;
  ss_copy(x, row + 5); ss_copy(ss_tdy->soln_prev, row + 5 + ss_len);
  ss_k++;
  if (act == 0 || act == 4) {
    ierr = __real_SNESSolve(s, b, x); if (ierr) return ierr;
    if (act == 4) { ierr = VecScale(x, 1.0 + 1e-3 * ss_k); if (ierr) return ierr; ierr = SNESSetConvergedReason(s, SNES_DIVERGED_LINE_SEARCH); if (ierr) return ierr; }
  } else {
    PetscScalar *a; PetscInt n, i;
    VecGetLocalSize(x, &n); VecGetArray(x, &a);
    for (i = 0; i < n; i++) a[i] = act == 3 ? NAN : a[i] * (1.0 + 1e-3 * (1 + (i + ss_k) % 3)) + (act == 2 ? 1e4 : 1.0);
    VecRestoreArray(x, &a);
    ierr = SNESSetConvergedReason(s, act == 1 ? SNES_CONVERGED_FNORM_RELATIVE : (ss_k % 2 ? SNES_DIVERGED_MAX_IT : SNES_DIVERGED_LINEAR_SOLVE)); if (ierr) return ierr;
  }
  SNESGetConvergedReason(s, &why); row[4] = why;
  ss_copy(x, row + 5 + 2 * ss_len);
  return 0;
}
