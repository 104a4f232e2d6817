#include "common.h"
#include "petsc_contract.h"
#include <algorithm>
#include <complex>
PetscLog &petscLog() { static PetscLog l; return l; }
void petscError(const std::string &what) { hpv::ensure(false, "use of PETSc: " + what); }
static void need(bool ok, const char *what) { hpv::ensure(ok, std::string("use of PETSc: ") + what); }
// certainly zero (an arbitrary value counts as an entry)
static bool isZero(double x) { return !__hpv_is_symbolic(x) && x == 0.; }
[[maybe_unused]] static bool isZero(const std::complex<double> &x) { return isZero(x.real()) && isZero(x.imag()); }
// MPI handles the PETSc headers refer to
struct ompi_predefined_communicator_t { char x[1024]; };
extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_self, ompi_mpi_comm_world, ompi_mpi_comm_null;
}
MPI_Comm PETSC_COMM_WORLD = MPI_COMM_NULL;
const char *const KSPConvergedReasons_Shifted[] = {"?", "?", "?", "?", "?", "?", "?", "?", "?", "?", "?", "?", "ITERATING", "?", "?", "RTOL"};
const char *const *KSPConvergedReasons = KSPConvergedReasons_Shifted + 12;
extern "C" {
int MPI_Abort(MPI_Comm, int) { petscError("abort"); std::abort(); }
PetscErrorCode PetscInitialized(PetscBool *b) { *b = PETSC_TRUE; return PetscErrorCode(0); }
PetscErrorCode PetscError(MPI_Comm, int, const char *f, const char *, PetscErrorCode, PetscErrorType, const char *, ...) { petscError(std::string("error reported in ") + (f ? f : "")); return PetscErrorCode(1); }
PetscErrorCode MatCreate(MPI_Comm, Mat *A) { *A = new _p_Mat; ++petscLog().live; return PetscErrorCode(0); }
PetscErrorCode MatCreateSeqAIJ(MPI_Comm, PetscInt r, PetscInt c, PetscInt, const PetscInt *, Mat *A) {
    *A = new _p_Mat;
    ++petscLog().live;
    (*A)->rows = r; (*A)->cols = c; (*A)->sized = (*A)->reserved = (*A)->type = true;
    (*A)->used.resize(r);
    (*A)->room.resize(r, 0);
    return PetscErrorCode(0);
}
PetscErrorCode MatDestroy(Mat *A) { if (*A) { delete *A; --petscLog().live; } *A = nullptr; return PetscErrorCode(0); }
PetscErrorCode MatSetType(Mat A, MatType t) { need(std::string(t) == MATSEQAIJ, "matrix type for one process"); A->type = true; return PetscErrorCode(0); }
PetscErrorCode MatSetSizes(Mat A, PetscInt r, PetscInt c, PetscInt R, PetscInt C) {
    need(!A->sized, "sizes are set once");
    need((R == PETSC_DETERMINE || R == r) && (C == PETSC_DETERMINE || C == c), "consistent sizes");
    A->rows = r; A->cols = c; A->sized = true;
    A->used.resize(r);
    return PetscErrorCode(0);
}
PetscErrorCode MatSeqAIJSetPreallocation(Mat A, PetscInt nz, const PetscInt *n) {
    need(A->sized && A->type, "type and sizes before the space");
    A->room.assign(A->rows, nz);
    if (n) for (long i = 0; i < A->rows; ++i) A->room[i] = n[i];
    A->reserved = true;
    return PetscErrorCode(0);
}
PetscErrorCode MatMPIAIJSetPreallocation(Mat, PetscInt, const PetscInt *, PetscInt, const PetscInt *) { petscError("preallocation for several processes"); return PetscErrorCode(1); }
PetscErrorCode MatSetOption(Mat A, MatOption o, PetscBool b) {
    need(A->reserved, "options after the space");
    if (o == MAT_ROW_ORIENTED) A->rowOriented = b;
    if (o == MAT_IGNORE_ZERO_ENTRIES) A->ignoreZero = b;
    return PetscErrorCode(0);
}
PetscErrorCode MatGetOption(Mat A, MatOption o, PetscBool *b) {
    need(o == MAT_ROW_ORIENTED || o == MAT_IGNORE_ZERO_ENTRIES, "known option");
    *b = PetscBool(o == MAT_ROW_ORIENTED ? A->rowOriented : A->ignoreZero);
    return PetscErrorCode(0);
}
PetscErrorCode MatZeroEntries(Mat A) { for (auto &e : A->a) e.second = 0.; return PetscErrorCode(0); }
PetscErrorCode MatSetValues(Mat A, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *v, InsertMode mode) {
    need(A->reserved, "space before entries");
    A->assembled = false;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        if (r[i] < 0 || c[j] < 0) continue;
        need(r[i] < A->rows && c[j] < A->cols, "entry inside the matrix");
        if (r[i] >= A->rows || c[j] >= A->cols) continue;
        PetscScalar x = A->rowOriented ? v[i * n + j] : v[j * m + i];
        if (A->ignoreZero && mode == ADD_VALUES && isZero(x)) continue;
        A->used[r[i]].insert(c[j]);
        need(int(A->used[r[i]].size()) <= A->room[r[i]], "space was reserved for every entry");
        PetscScalar &e = A->a[{r[i], c[j]}];
        e = mode == ADD_VALUES ? e + x : x;
    }
    return PetscErrorCode(0);
}
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { return PetscErrorCode(0); }
PetscErrorCode MatAssemblyEnd(Mat A, MatAssemblyType t) { if (t == MAT_FINAL_ASSEMBLY) A->assembled = true; return PetscErrorCode(0); }
PetscErrorCode MatScale(Mat A, PetscScalar s) { need(A->assembled, "assembled matrix"); for (auto &e : A->a) e.second = e.second * s; return PetscErrorCode(0); }
PetscErrorCode MatChop(Mat, PetscReal) { return PetscErrorCode(0); }
PetscErrorCode MatView(Mat, PetscViewer) { return PetscErrorCode(0); }
PetscErrorCode MatGetInfo(Mat, MatInfoType, MatInfo *i) { *i = MatInfo(); return PetscErrorCode(0); }
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec *x) { *x = new _p_Vec; ++petscLog().live; (*x)->v.resize(n, 0.); return PetscErrorCode(0); }
PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt n, PetscInt N, Vec *x) { need(N == PETSC_DETERMINE || N == n, "consistent sizes"); *x = new _p_Vec; ++petscLog().live; (*x)->v.resize(n, 0.); return PetscErrorCode(0); }
PetscErrorCode VecDestroy(Vec *x) { if (*x) { need(!(*x)->out, "array returned before the vector is destroyed"); delete *x; --petscLog().live; } *x = nullptr; return PetscErrorCode(0); }
PetscErrorCode VecZeroEntries(Vec x) { for (auto &e : x->v) e = 0.; return PetscErrorCode(0); }
PetscErrorCode VecChop(Vec, PetscReal) { return PetscErrorCode(0); }
PetscErrorCode VecScale(Vec x, PetscScalar s) { for (auto &e : x->v) e = e * s; return PetscErrorCode(0); }
PetscErrorCode VecView(Vec, PetscViewer) { return PetscErrorCode(0); }
PetscErrorCode VecSetValues(Vec x, PetscInt n, const PetscInt *ix, const PetscScalar *v, InsertMode mode) {
    need(x->mode == 0 || x->mode == int(mode), "adding and inserting are not mixed");
    x->mode = int(mode);
    x->assembled = false;
    for (int i = 0; i < n; ++i) {
        if (ix[i] < 0) continue;
        need(ix[i] < int(x->v.size()), "entry inside the vector");
        if (ix[i] >= int(x->v.size())) continue;
        PetscScalar &e = x->v[ix[i]];
        e = mode == ADD_VALUES ? e + v[i] : v[i];
    }
    return PetscErrorCode(0);
}
PetscErrorCode VecAssemblyBegin(Vec) { return PetscErrorCode(0); }
PetscErrorCode VecAssemblyEnd(Vec x) { x->assembled = true; x->mode = 0; return PetscErrorCode(0); }
PetscErrorCode VecGetArray(Vec x, PetscScalar **a) { need(x->assembled && !x->out, "assembled vector"); x->out = true; *a = x->v.data(); return PetscErrorCode(0); }
PetscErrorCode VecRestoreArray(Vec x, PetscScalar **a) { need(x->out, "array was handed out"); x->out = false; *a = nullptr; return PetscErrorCode(0); }
PetscErrorCode VecScatterCreateToAll(Vec x, VecScatter *s, Vec *y) {
    *s = new _p_PetscSF;
    (*s)->x = x;
    (*s)->toAll = true;
    *y = new _p_Vec;
    petscLog().live += 2;
    for (std::size_t i = 0; i < x->v.size(); ++i) (*y)->v.push_back(hpv::real("unset" + str(i)));  // nothing has been copied yet
    return PetscErrorCode(0);
}
PetscErrorCode VecScatterCreate(Vec x, IS ix, Vec y, IS iy, VecScatter *s) {
    *s = new _p_PetscSF;
    ++petscLog().live;
    (*s)->x = x; (*s)->y = y;
    (*s)->ix = ix->ix; (*s)->iy = iy->ix;
    need((*s)->ix.size() == (*s)->iy.size(), "index sets of the same size");
    for (int i : (*s)->ix) need(i >= 0 && i < int(x->v.size()), "index inside the source");
    for (int i : (*s)->iy) need(i >= 0 && i < int(y->v.size()), "index inside the target");
    return PetscErrorCode(0);
}
PetscErrorCode VecScatterBegin(VecScatter s, Vec, Vec, InsertMode, ScatterMode) { s->begun = true; return PetscErrorCode(0); }
PetscErrorCode VecScatterEnd(VecScatter s, Vec x, Vec y, InsertMode mode, ScatterMode dir) {
    need(s->begun && x->assembled, "scatter of an assembled vector");
    need(mode == INSERT_VALUES && dir == SCATTER_FORWARD, "forward insertion");
    for (std::size_t k = 0; k < s->ix.size(); ++k) if (s->ix[k] >= 0 && s->ix[k] < int(x->v.size()) && s->iy[k] >= 0 && s->iy[k] < int(y->v.size())) y->v[s->iy[k]] = x->v[s->ix[k]];
    s->begun = false;
    return PetscErrorCode(0);
}
PetscErrorCode VecScatterDestroy(VecScatter *s) { if (*s) { delete *s; --petscLog().live; } *s = nullptr; return PetscErrorCode(0); }
PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt n, const PetscInt ix[], PetscCopyMode, IS *is) { *is = new _p_IS; ++petscLog().live; (*is)->ix.assign(ix, ix + n); return PetscErrorCode(0); }
PetscErrorCode ISSortRemoveDups(IS is) { auto &v = is->ix; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return PetscErrorCode(0); }
PetscErrorCode ISDestroy(IS *is) { if (*is) { delete *is; --petscLog().live; } *is = nullptr; return PetscErrorCode(0); }
PetscErrorCode PetscViewerASCIIOpen(MPI_Comm, const char[], PetscViewer *v) { *v = nullptr; return PetscErrorCode(0); }
PetscErrorCode PetscViewerPushFormat(PetscViewer, PetscViewerFormat) { return PetscErrorCode(0); }
PetscErrorCode PetscViewerDestroy(PetscViewer *) { return PetscErrorCode(0); }
PetscViewer PETSC_VIEWER_STDOUT_(MPI_Comm) { return nullptr; }
PetscErrorCode KSPCreate(MPI_Comm, KSP *k) { *k = new _p_KSP; return PetscErrorCode(0); }
PetscErrorCode KSPDestroy(KSP *k) { delete *k; *k = nullptr; return PetscErrorCode(0); }
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt) { return PetscErrorCode(0); }
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat P) { k->A = A; k->P = P; return PetscErrorCode(0); }
PetscErrorCode KSPSetFromOptions(KSP) { return PetscErrorCode(0); }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    need(k->A && k->A->assembled && b->assembled && x->assembled, "assembled system");
    need(k->A->rows == k->A->cols && long(b->v.size()) == k->A->rows && b->v.size() == x->v.size(), "square system");
    petscLog().A = k->A->a;
    petscLog().b = b->v;
    for (std::size_t i = 0; i < x->v.size(); ++i) x->v[i] = hpv::real("ksp" + str(petscLog().solves) + "_" + str(i));
    petscLog().x = x->v;
    ++petscLog().solves;
    k->solved = true;
    return PetscErrorCode(0);
}
PetscErrorCode KSPGetConvergedReason(KSP k, KSPConvergedReason *r) { *r = k->solved ? KSP_CONVERGED_RTOL : KSP_CONVERGED_ITERATING; return PetscErrorCode(0); }
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt *n) { *n = 1; return PetscErrorCode(0); }
}
