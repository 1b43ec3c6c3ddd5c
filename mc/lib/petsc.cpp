// Stand-in of the PETSc calls the parallel program makes. Contributions stay with the
// rank that made them until assembly, when every rank receives all of them and applies
// them in the same order; systems are solved by elimination with partial pivoting.
// Used on one thread of a rank at a time, as PETSc requires.
#include "petscksp.h"
#include "../rt/mcrt.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <string>
#include <vector>
extern "C" void mcrt_allgatherv(const void* p, size_t n, std::vector<std::string>* out);

struct Entry {
    int i, j, mode;
    double v;
};
struct mcpet_vec {
    bool par = false;
    int n = 0, N = 0, start = 0, bs = 1;
    std::vector<double> x;  // whole vector
    std::vector<Entry> pend;
};
struct mcpet_mat {
    int bs = 1, n = 0, N = -1, dnz = -1, onz = -1;
    std::vector<int> first;  // row ranges of the ranks
    bool assembled = false, grow = true, up = false;
    std::vector<double> a;
    std::set<std::pair<int, int>> pattern;  // blocks
    std::vector<Entry> pend;
};
struct mcpet_ksp {
    Mat A = nullptr;
};
struct mcpet_is {
    std::vector<int> i;
};
struct mcpet_scatter {
    std::vector<int> from, to;
    bool par;
};
static bool any_thread_in = false;
namespace {
struct Use {  // the library is not reentrant
    Use() {
        if (any_thread_in)
            mc::misuse("two threads inside the linear algebra library");
        any_thread_in = true;
    }
    ~Use() { any_thread_in = false; }
};
void bad(const std::string& s) { mc::misuse("linear algebra library: " + s); }
std::vector<int> ranges(int n) {
    std::vector<std::string> all;
    mcrt_allgatherv(&n, sizeof n, &all);
    std::vector<int> f{0};
    for (auto& s : all) {
        int k;
        memcpy(&k, s.data(), sizeof k);
        f.push_back(f.back() + k);
    }
    return f;
}
int me() {
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
}
int size() {
    int r;
    MPI_Comm_size(MPI_COMM_WORLD, &r);
    return r;
}
int share(int N) { return N / size() + (me() < N % size()); }
std::vector<Entry> everything(std::vector<Entry>& mine) {
    std::vector<std::string> all;
    mcrt_allgatherv(mine.data(), mine.size() * sizeof(Entry), &all);
    mine.clear();
    std::vector<Entry> r;
    for (auto& s : all) {
        size_t k = r.size();
        r.resize(k + s.size() / sizeof(Entry));
        if (!s.empty())
            memcpy((void*)(r.data() + k), s.data(), s.size());
    }
    int mode = 0;
    for (auto& e : r) {
        if (mode && e.mode != mode)
            bad("values inserted and added without assembly in between");
        mode = e.mode;
    }
    return r;
}
void ready(Vec v) {
    if (!v->pend.empty())
        bad("vector used before it is assembled");
}
}
extern "C" {
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*) { return 0; }
PetscErrorCode PetscFinalize(void) { return 0; }
PetscErrorCode PetscLogStageRegister(const char*, PetscLogStage* s) { static int n = 0; *s = ++n; return 0; }
PetscErrorCode PetscLogStagePush(PetscLogStage) { return 0; }
PetscErrorCode PetscLogStagePop(void) { return 0; }

PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt n, PetscInt N, Vec* out) {
    Use u;
    Vec v  = new mcpet_vec;
    v->par = true;
    if (n == PETSC_DECIDE)
        n = share(N);
    auto f = ranges(n);
    if (N == PETSC_DECIDE)
        N = f.back();
    if (f.back() != N)
        bad("local sizes of a vector do not add up");
    v->n = n, v->N = N, v->start = f[me()];
    v->x.assign(N, 0.);
    *out = v;
    return 0;
}
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec* out) {
    Use u;
    Vec v = new mcpet_vec;
    v->n = v->N = n;
    v->x.assign(n, 0.);
    *out = v;
    return 0;
}
PetscErrorCode VecSetBlockSize(Vec v, PetscInt bs) {
    Use u;
    if (bs < 1 || v->n % bs || v->N % bs)
        bad("block size does not divide the vector");
    v->bs = bs;
    return 0;
}
PetscErrorCode VecSet(Vec v, PetscScalar a) {
    Use u;
    ready(v);
    std::fill(v->x.begin(), v->x.end(), a);
    return 0;
}
PetscErrorCode VecZeroEntries(Vec v) { return VecSet(v, 0.); }
static void vput(Vec v, int bs, int n, const int* ix, const double* y, int mode) {
    for (int k = 0; k < n; ++k)
        for (int b = 0; b < bs; ++b) {
            if (ix[k] < 0)
                continue;
            long i = (long)ix[k] * bs + b;
            if (i >= v->N)
                bad("vector index " + std::to_string(i) + " out of range " + std::to_string(v->N));
            v->pend.push_back({(int)i, 0, mode, y[k * bs + b]});
        }
}
PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt* ix, const PetscScalar* y, InsertMode m) {
    Use u;
    vput(v, 1, n, ix, y, m);
    return 0;
}
PetscErrorCode VecSetValuesBlocked(Vec v, PetscInt n, const PetscInt* ix, const PetscScalar* y, InsertMode m) {
    Use u;
    vput(v, v->bs, n, ix, y, m);
    return 0;
}
PetscErrorCode VecAssemblyBegin(Vec v) {
    Use u;
    std::vector<Entry> e;
    if (v->par)
        e = everything(v->pend);
    else
        e.swap(v->pend);
    for (auto& k : e)
        if (k.mode == ADD_VALUES)
            v->x[k.i] += k.v;
        else
            v->x[k.i] = k.v;
    return 0;
}
PetscErrorCode VecAssemblyEnd(Vec) { return 0; }
PetscErrorCode VecNorm(Vec v, NormType t, PetscReal* r) {
    Use u;
    ready(v);
    double s = 0;
    for (double x : v->x)
        if (t == NORM_1)
            s += std::fabs(x);
        else if (t == NORM_INFINITY)
            s = std::max(s, std::fabs(x));
        else
            s += x * x;
    *r = t == NORM_2 || t == NORM_FROBENIUS ? std::sqrt(s) : s;
    return 0;
}
PetscErrorCode VecGetSize(Vec v, PetscInt* n) { *n = v->N; return 0; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) { *n = v->n; return 0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar** p) {
    Use u;
    ready(v);
    *p = v->x.data() + v->start;
    return 0;
}
PetscErrorCode VecRestoreArray(Vec, PetscScalar** p) { *p = nullptr; return 0; }
PetscErrorCode VecDestroy(Vec* v) {
    Use u;
    delete *v;
    *v = nullptr;
    return 0;
}

PetscErrorCode MatCreate(MPI_Comm, Mat* out) { *out = new mcpet_mat; return 0; }
PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N) {
    Use u;
    if (M != N || m != n)
        bad("matrix is not square");
    A->n = m == PETSC_DECIDE ? share(M) : m;
    A->N = M;
    return 0;
}
static void mup(Mat A) {
    A->first = ranges(A->n);
    if (A->N < 0)
        A->N = A->first.back();
    if (A->first.back() != A->N)
        bad("local sizes of a matrix do not add up");
    A->a.assign((size_t)A->N * A->N, 0.);
    A->up = true;
}
PetscErrorCode MatSetUp(Mat A) {
    Use u;
    mup(A);
    return 0;
}
PetscErrorCode MatCreateBAIJ(MPI_Comm, PetscInt bs, PetscInt m, PetscInt n, PetscInt M, PetscInt N, PetscInt dnz, const PetscInt* d, PetscInt onz,
                             const PetscInt* o, Mat* out) {
    Use u;
    if (M != N || m != n || m % bs || M % bs)
        bad("block matrix sizes");
    Mat A = new mcpet_mat;
    A->bs = bs, A->n = m, A->N = M;
    if (!d)
        A->dnz = dnz;
    if (!o)
        A->onz = onz;
    mup(A);
    *out = A;
    return 0;
}
PetscErrorCode MatSetOption(Mat A, MatOption o, PetscBool b) {
    Use u;
    if (o == MAT_NEW_NONZERO_LOCATIONS)
        A->grow = b;
    else
        bad("matrix option not modelled");
    return 0;
}
static void mput(Mat A, int bs, int m, const int* I, int n, const int* J, const double* v, int mode) {
    if (!A->up)
        bad("matrix is not set up");
    for (int r = 0; r < m * bs; ++r)
        for (int c = 0; c < n * bs; ++c) {
            if (I[r / bs] < 0 || J[c / bs] < 0)
                continue;
            long i = (long)I[r / bs] * bs + r % bs, j = (long)J[c / bs] * bs + c % bs;
            if (i >= A->N || j >= A->N)
                bad("matrix index (" + std::to_string(i) + "," + std::to_string(j) + ") out of range " + std::to_string(A->N));
            A->pend.push_back({(int)i, (int)j, mode, v[(size_t)r * n * bs + c]});
        }
}
PetscErrorCode MatSetValues(Mat A, PetscInt m, const PetscInt* I, PetscInt n, const PetscInt* J, const PetscScalar* v, InsertMode mode) {
    Use u;
    mput(A, 1, m, I, n, J, v, mode);
    return 0;
}
PetscErrorCode MatSetValuesBlocked(Mat A, PetscInt m, const PetscInt* I, PetscInt n, const PetscInt* J, const PetscScalar* v, InsertMode mode) {
    Use u;
    mput(A, A->bs, m, I, n, J, v, mode);
    return 0;
}
PetscErrorCode MatAssemblyBegin(Mat A, MatAssemblyType) {
    Use u;
    for (auto& k : everything(A->pend)) {
        std::pair<int, int> b{k.i / A->bs, k.j / A->bs};
        if (!A->grow && A->assembled && !A->pattern.count(b))
            continue;  // new locations are silently ignored
        A->pattern.insert(b);
        double& a = A->a[(size_t)k.i * A->N + k.j];
        a         = k.mode == ADD_VALUES ? a + k.v : k.v;
    }
    if (A->dnz >= 0) {  // room was reserved for so many blocks per row
        std::vector<int> nd(A->N / A->bs), no(A->N / A->bs);
        for (auto& b : A->pattern) {
            auto owner = [&](int k) { return std::upper_bound(A->first.begin(), A->first.end(), k * A->bs) - A->first.begin(); };
            ++(owner(b.first) == owner(b.second) ? nd : no)[b.first];
        }
        for (size_t k = 0; k < nd.size(); ++k)
            if (nd[k] > A->dnz || no[k] > A->onz)
                bad("more blocks in a matrix row than room was reserved for");
    }
    A->assembled = true;
    return 0;
}
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType) { return 0; }
PetscErrorCode MatZeroEntries(Mat A) {
    Use u;
    std::fill(A->a.begin(), A->a.end(), 0.);
    return 0;
}
PetscErrorCode MatDestroy(Mat* A) {
    Use u;
    delete *A;
    *A = nullptr;
    return 0;
}

PetscErrorCode KSPCreate(MPI_Comm, KSP* k) { *k = new mcpet_ksp; return 0; }
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat) { k->A = A; return 0; }
PetscErrorCode KSPSetType(KSP, KSPType) { return 0; }
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt) { return 0; }
PetscErrorCode KSPSetFromOptions(KSP) { return 0; }
PetscErrorCode KSPGetPC(KSP k, PC* p) { *p = k; return 0; }
PetscErrorCode PCSetType(PC, PCType) { return 0; }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    Use u;
    ready(b);
    Mat M = k->A;
    if (!M->assembled || !M->pend.empty())
        bad("system solved before the matrix is assembled");
    if (M->N != b->N || M->N != x->N)
        bad("sizes of the matrix and the vector differ");
    MPI_Barrier(MPI_COMM_WORLD);
    size_t n = M->N;
    std::vector<double> a = M->a, y = b->x;
    for (size_t c = 0; c < n; ++c) {
        size_t p = c;
        for (size_t r = c; r < n; ++r)
            if (std::fabs(a[r * n + c]) > std::fabs(a[p * n + c]))
                p = r;
        if (p != c) {
            std::swap_ranges(a.begin() + p * n, a.begin() + (p + 1) * n, a.begin() + c * n);
            std::swap(y[p], y[c]);
        }
        for (size_t r = c + 1; r < n; ++r) {
            double f = a[r * n + c] / a[c * n + c];
            if (f == 0)
                continue;
            for (size_t j = c; j < n; ++j)
                a[r * n + j] -= f * a[c * n + j];
            y[r] -= f * y[c];
        }
    }
    for (size_t c = n; c-- > 0;) {
        for (size_t j = c + 1; j < n; ++j)
            y[c] -= a[c * n + j] * y[j];
        y[c] /= a[c * n + c];
    }
    x->x = y;
    return 0;
}
PetscErrorCode KSPDestroy(KSP* k) {
    Use u;
    delete *k;
    *k = nullptr;
    return 0;
}

PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt n, const PetscInt* i, PetscCopyMode, IS* out) {
    *out      = new mcpet_is;
    (*out)->i = std::vector<int>(i, i + n);
    return 0;
}
PetscErrorCode ISCreateStride(MPI_Comm, PetscInt n, PetscInt first, PetscInt step, IS* out) {
    *out = new mcpet_is;
    for (int k = 0; k < n; ++k)
        (*out)->i.push_back(first + k * step);
    return 0;
}
PetscErrorCode ISCreateBlock(MPI_Comm, PetscInt bs, PetscInt n, const PetscInt* i, PetscCopyMode, IS* out) {
    *out = new mcpet_is;
    for (int k = 0; k < n; ++k)
        for (int b = 0; b < bs; ++b)
            (*out)->i.push_back(i[k] * bs + b);
    return 0;
}
PetscErrorCode ISDestroy(IS* i) {
    delete *i;
    *i = nullptr;
    return 0;
}
PetscErrorCode VecScatterCreate(Vec x, IS from, Vec y, IS to, VecScatter* out) {
    Use u;
    if (from->i.size() != to->i.size())
        bad("index sets of a scatter differ in size");
    for (int k : from->i)
        if (k < 0 || k >= x->N)
            bad("scatter index out of range");
    for (int k : to->i)
        if (k < 0 || k >= y->N)
            bad("scatter index out of range");
    if (y->par)
        bad("scatter into a distributed vector not modelled");
    *out = new mcpet_scatter{from->i, to->i, x->par};
    return 0;
}
PetscErrorCode VecScatterBegin(VecScatter s, Vec x, Vec y, InsertMode m, ScatterMode d) {
    Use u;
    ready(x);
    if (d != SCATTER_FORWARD)
        bad("reverse scatter not modelled");
    if (s->par)
        MPI_Barrier(MPI_COMM_WORLD);
    for (size_t k = 0; k < s->from.size(); ++k)
        if (m == ADD_VALUES)
            y->x.at(s->to[k]) += x->x.at(s->from[k]);
        else
            y->x.at(s->to[k]) = x->x.at(s->from[k]);
    return 0;
}
PetscErrorCode VecScatterEnd(VecScatter, Vec, Vec, InsertMode, ScatterMode) { return 0; }
PetscErrorCode VecScatterDestroy(VecScatter* s) {
    Use u;
    delete *s;
    *s = nullptr;
    return 0;
}
}
