// Minimal PETSc interface for parallel runs under the model-checking runtime. A
// stand-in of the library: vectors and matrices live as one replica per rank, made
// consistent at assembly; linear systems are solved directly.
#ifndef MCRT_PETSC_H
#define MCRT_PETSC_H
#include <cmath>
#include <cstddef>
#include <mpi.h>
typedef int PetscInt;
typedef int PetscErrorCode;
typedef int PetscMPIInt;
typedef double PetscScalar;
typedef double PetscReal;
typedef int PetscLogStage;
typedef struct mcpet_vec* Vec;
typedef struct mcpet_mat* Mat;
typedef struct mcpet_ksp* KSP;
typedef struct mcpet_ksp* PC;
typedef struct mcpet_is* IS;
typedef struct mcpet_scatter* VecScatter;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef enum { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES } InsertMode;
typedef enum { SCATTER_FORWARD, SCATTER_REVERSE } ScatterMode;
typedef enum { PETSC_COPY_VALUES, PETSC_OWN_POINTER, PETSC_USE_POINTER } PetscCopyMode;
typedef enum { NORM_1, NORM_2, NORM_FROBENIUS, NORM_INFINITY } NormType;
typedef enum { MAT_FLUSH_ASSEMBLY = 1, MAT_FINAL_ASSEMBLY = 0 } MatAssemblyType;
typedef enum { MAT_ROW_ORIENTED, MAT_NEW_NONZERO_LOCATIONS, MAT_NEW_NONZERO_ALLOCATION_ERR, MAT_KEEP_NONZERO_PATTERN, MAT_SYMMETRIC } MatOption;
typedef const char* PCType;
typedef const char* KSPType;
#define PCLU "lu"
#define PCJACOBI "jacobi"
#define PCBJACOBI "bjacobi"
#define PCILU "ilu"
#define PCNONE "none"
#define KSPGMRES "gmres"
#define KSPPREONLY "preonly"
#define PETSC_DECIDE -1
#define PETSC_DETERMINE -1
#define PETSC_DEFAULT -2
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define PETSC_COMM_SELF MPI_COMM_SELF
#define PETSC_NULL NULL
extern "C" {
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*);
PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscLogStageRegister(const char*, PetscLogStage*);
PetscErrorCode PetscLogStagePush(PetscLogStage);
PetscErrorCode PetscLogStagePop(void);

PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt n, PetscInt N, Vec*);
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec*);
PetscErrorCode VecSetBlockSize(Vec, PetscInt);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecZeroEntries(Vec);
PetscErrorCode VecSetValues(Vec, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode VecSetValuesBlocked(Vec, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode VecAssemblyBegin(Vec);
PetscErrorCode VecAssemblyEnd(Vec);
PetscErrorCode VecNorm(Vec, NormType, PetscReal*);
PetscErrorCode VecGetSize(Vec, PetscInt*);
PetscErrorCode VecGetLocalSize(Vec, PetscInt*);
PetscErrorCode VecGetArray(Vec, PetscScalar**);
PetscErrorCode VecRestoreArray(Vec, PetscScalar**);
PetscErrorCode VecDestroy(Vec*);

PetscErrorCode MatCreate(MPI_Comm, Mat*);
PetscErrorCode MatSetSizes(Mat, PetscInt, PetscInt, PetscInt, PetscInt);
PetscErrorCode MatSetUp(Mat);
PetscErrorCode MatCreateBAIJ(MPI_Comm, PetscInt bs, PetscInt m, PetscInt n, PetscInt M, PetscInt N, PetscInt, const PetscInt*, PetscInt,
                             const PetscInt*, Mat*);
PetscErrorCode MatSetOption(Mat, MatOption, PetscBool);
PetscErrorCode MatSetValues(Mat, PetscInt, const PetscInt*, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode MatSetValuesBlocked(Mat, PetscInt, const PetscInt*, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType);
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType);
PetscErrorCode MatZeroEntries(Mat);
PetscErrorCode MatDestroy(Mat*);

PetscErrorCode KSPCreate(MPI_Comm, KSP*);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPSetType(KSP, KSPType);
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt);
PetscErrorCode KSPSetFromOptions(KSP);
PetscErrorCode KSPGetPC(KSP, PC*);
PetscErrorCode PCSetType(PC, PCType);
PetscErrorCode KSPSolve(KSP, Vec, Vec);
PetscErrorCode KSPDestroy(KSP*);

PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt, const PetscInt*, PetscCopyMode, IS*);
PetscErrorCode ISCreateStride(MPI_Comm, PetscInt n, PetscInt first, PetscInt step, IS*);
PetscErrorCode ISCreateBlock(MPI_Comm, PetscInt bs, PetscInt n, const PetscInt*, PetscCopyMode, IS*);
PetscErrorCode ISDestroy(IS*);
PetscErrorCode VecScatterCreate(Vec, IS, Vec, IS, VecScatter*);
PetscErrorCode VecScatterBegin(VecScatter, Vec, Vec, InsertMode, ScatterMode);
PetscErrorCode VecScatterEnd(VecScatter, Vec, Vec, InsertMode, ScatterMode);
PetscErrorCode VecScatterDestroy(VecScatter*);
}
#endif
