// Assumed contracts of the PETSc functions used by the kernel (the real PETSc headers are used for
// types and prototypes). Matrices and vectors keep the entries they were given; reading one
// that is not assembled, or putting an entry where no space was reserved, is an error.
#ifndef HPV_PETSC_CONTRACT_H
#define HPV_PETSC_CONTRACT_H
#include <map>
#include <set>
#include <string>
#include <vector>
#include <petscksp.h>
struct _p_Mat {
    long rows = 0, cols = 0;
    std::map<std::pair<int, int>, PetscScalar> a;
    std::vector<std::set<int>> used;
    std::vector<int> room;
    bool sized = false, reserved = false, rowOriented = true, ignoreZero = false, assembled = false, type = false;
};
struct _p_Vec {
    std::vector<PetscScalar> v;
    bool assembled = true;
    int mode = 0;
    bool out = false;  // array handed out
};
struct _p_IS { std::vector<int> ix; };
struct _p_PetscSF { Vec x = nullptr, y = nullptr; std::vector<int> ix, iy; bool toAll = false, begun = false; };
struct _p_KSP { Mat A = nullptr, P = nullptr; bool solved = false; };
struct PetscLog {
    int live = 0;  // objects not yet destroyed
    int solves = 0;
    // what the last KSPSolve was asked for, and what it answered
    std::map<std::pair<int, int>, PetscScalar> A;
    std::vector<PetscScalar> b, x;
};
PetscLog &petscLog();
void petscError(const std::string &what);
#endif
