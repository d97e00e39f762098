// A stand-in for the parts of libROM that scaleupROM uses (libROM is not installed here), and
// for mfem::MUMPSSolver (this MFEM is built without MUMPS).  It is part of the harness: it gives
// the interfaces their documented meaning in the plainest way (gather everything on every rank,
// LAPACK, active-set NNLS) so that scaleupROM's own code around them can be run.
#ifndef STANDIN_LIBROM_H
#define STANDIN_LIBROM_H

#include "mfem.hpp"
#include "hdf5.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>

extern "C"
{
void dgesvd_(const char *, const char *, const int *, const int *, double *, const int *, double *,
             double *, const int *, double *, const int *, double *, const int *, int *);
void dgetrf_(const int *, const int *, double *, const int *, int *, int *);
void dgetrs_(const char *, const int *, const int *, const double *, const int *, const int *,
             double *, const int *, int *);
void dgels_(const char *, const int *, const int *, const int *, double *, const int *, double *,
            const int *, double *, const int *, int *);
}

namespace CAROM
{

inline void standin_fail(const char *what)
{
   fprintf(stderr, "libROM stand-in: %s\n", what);
   fflush(stderr);
   abort();
}
#define STANDIN_VERIFY(x) do { if (!(x)) CAROM::standin_fail(#x); } while (0)

inline int split_dimension(const int dim, const MPI_Comm &comm = MPI_COMM_WORLD)
{
   int rank, n;
   MPI_Comm_size(comm, &n);
   MPI_Comm_rank(comm, &rank);
   int local = dim / n;
   if (dim % n > rank) local++;
   return local;
}

inline int get_global_offsets(const int local_dim, std::vector<int> &offsets,
                              const MPI_Comm &comm = MPI_COMM_WORLD)
{
   int n;
   MPI_Comm_size(comm, &n);
   offsets.assign(n + 1, 0);
   MPI_Allgather(&local_dim, 1, MPI_INT, offsets.data(), 1, MPI_INT, comm);
   int sum = 0;
   for (int k = 0; k < n; k++) { int d = offsets[k]; offsets[k] = sum; sum += d; }
   offsets[n] = sum;
   return sum;
}

// Entries of all ranks one after another (every rank's share is contiguous).
inline std::vector<double> standin_gather(const double *x, int n)
{
   std::vector<int> off, cnt;
   int tot = get_global_offsets(n, off);
   for (size_t k = 0; k + 1 < off.size(); k++) cnt.push_back(off[k + 1] - off[k]);
   std::vector<double> all(tot);
   MPI_Allgatherv(const_cast<double *>(x), n, MPI_DOUBLE, all.data(), cnt.data(), off.data(),
                  MPI_DOUBLE, MPI_COMM_WORLD);
   return all;
}

class Vector
{
   std::vector<double> d;
   bool dist;
public:
   Vector() : dist(false) { }
   // libROM leaves new entries uninitialised: poison them.
   Vector(int dim, bool distributed) : d(dim, NAN), dist(distributed) { }
   Vector(double *v, int dim, bool distributed, bool = true) : d(v, v + dim), dist(distributed) { }
   bool distributed() const { return dist; }
   int dim() const { return (int) d.size(); }
   void setSize(int n) { d.assign(n, NAN); }
   const double &item(int i) const { STANDIN_VERIFY(i >= 0 && i < dim()); return d[i]; }
   double &item(int i) { STANDIN_VERIFY(i >= 0 && i < dim()); return d[i]; }
   const double &operator()(int i) const { return item(i); }
   double &operator()(int i) { return item(i); }
   double *getData() const { return const_cast<double *>(d.data()); }
   Vector &operator=(double a) { std::fill(d.begin(), d.end(), a); return *this; }
   Vector &operator+=(const Vector &o)
   { STANDIN_VERIFY(dim() == o.dim()); for (int i = 0; i < dim(); i++) d[i] += o.d[i]; return *this; }
   Vector &operator-=(const Vector &o)
   { STANDIN_VERIFY(dim() == o.dim()); for (int i = 0; i < dim(); i++) d[i] -= o.d[i]; return *this; }
   double inner_product(const Vector &o) const
   {
      STANDIN_VERIFY(dim() == o.dim() && dist == o.dist);
      double s = 0.0, t;
      for (int i = 0; i < dim(); i++) s += d[i] * o.d[i];
      if (!dist) return s;
      MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
      return t;
   }
   double norm() const { return std::sqrt(inner_product(*this)); }
   void gather() { STANDIN_VERIFY(dist); d = standin_gather(d.data(), dim()); dist = false; }
   void distribute(int local)
   {
      STANDIN_VERIFY(!dist);
      std::vector<int> off;
      int tot = get_global_offsets(local, off), rank;
      STANDIN_VERIFY(tot == dim());
      MPI_Comm_rank(MPI_COMM_WORLD, &rank);
      d = std::vector<double>(d.begin() + off[rank], d.begin() + off[rank] + local);
      dist = true;
   }
};

class Matrix
{
   std::vector<double> d;  // row-major
   int nr, nc;
   bool dist;
public:
   Matrix() : nr(0), nc(0), dist(false) { }
   Matrix(int rows, int cols, bool distributed, bool = false)
      : d((size_t) rows * cols, NAN), nr(rows), nc(cols), dist(distributed) { }
   Matrix(double *m, int rows, int cols, bool distributed, bool = true)
      : d(m, m + (size_t) rows * cols), nr(rows), nc(cols), dist(distributed) { }
   bool distributed() const { return dist; }
   int numRows() const { return nr; }
   int numColumns() const { return nc; }
   int numDistributedRows() const
   {
      int t = nr;
      if (dist) MPI_Allreduce(const_cast<int *>(&nr), &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
      return t;
   }
   void setSize(int rows, int cols) { nr = rows; nc = cols; d.assign((size_t) rows * cols, NAN); }
   const double &item(int i, int j) const
   { STANDIN_VERIFY(i >= 0 && i < nr && j >= 0 && j < nc); return d[(size_t) i * nc + j]; }
   double &item(int i, int j)
   { STANDIN_VERIFY(i >= 0 && i < nr && j >= 0 && j < nc); return d[(size_t) i * nc + j]; }
   const double &operator()(int i, int j) const { return item(i, j); }
   double &operator()(int i, int j) { return item(i, j); }
   double *getData() const { return const_cast<double *>(d.data()); }
   Matrix &operator=(double a) { std::fill(d.begin(), d.end(), a); return *this; }
   void gather()
   {
      STANDIN_VERIFY(dist);
      int tot = numDistributedRows();
      d = standin_gather(d.data(), (int) d.size());
      nr = tot;
      dist = false;
   }
   void distribute(int local)
   {
      STANDIN_VERIFY(!dist);
      std::vector<int> off;
      int tot = get_global_offsets(local, off), rank;
      STANDIN_VERIFY(tot == nr);
      MPI_Comm_rank(MPI_COMM_WORLD, &rank);
      d = std::vector<double>(d.begin() + (size_t) off[rank] * nc,
                              d.begin() + (size_t) (off[rank] + local) * nc);
      nr = local;
      dist = true;
   }
   void mult(const Vector &x, Vector &y) const
   {
      STANDIN_VERIFY(!x.distributed() && x.dim() == nc);
      y = Vector(nr, dist);
      for (int i = 0; i < nr; i++)
      {
         y(i) = 0.0;
         for (int j = 0; j < nc; j++) y(i) += item(i, j) * x(j);
      }
   }
   // this^T * x, the sum over all ranks when the rows are distributed
   void transposeMult(const Vector &x, Vector &y) const
   {
      STANDIN_VERIFY(x.dim() == nr && x.distributed() == dist && !y.distributed());
      std::vector<double> s(nc, 0.0), t(nc, 0.0);
      for (int i = 0; i < nr; i++)
         for (int j = 0; j < nc; j++) s[j] += item(i, j) * x(i);
      if (dist) MPI_Allreduce(s.data(), t.data(), nc, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
      else t = s;
      y = Vector(t.data(), nc, false);
   }
   void transposeMult(const Matrix &B, Matrix &C) const
   {
      STANDIN_VERIFY(B.nr == nr && B.dist == dist && !C.dist);
      std::vector<double> s((size_t) nc * B.nc, 0.0), t(s);
      for (int i = 0; i < nr; i++)
         for (int j = 0; j < nc; j++)
            for (int k = 0; k < B.nc; k++) s[(size_t) j * B.nc + k] += item(i, j) * B.item(i, k);
      if (dist) MPI_Allreduce(s.data(), t.data(), (int) s.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
      else t = s;
      C = Matrix(t.data(), nc, B.nc, false);
   }
   std::unique_ptr<Matrix> getFirstNColumns(int n) const
   {
      STANDIN_VERIFY(n > 0 && n <= nc);
      std::unique_ptr<Matrix> m(new Matrix(nr, n, dist));
      for (int i = 0; i < nr; i++)
         for (int j = 0; j < n; j++) m->item(i, j) = item(i, j);
      return m;
   }
};

struct Database
{
   enum class formats { HDF5, CSV, HDF5_MPIO };
};

// One file per database; keys are one-dimensional data sets.
class HDFDatabase
{
   hid_t f;
   template <class T> void put(const std::string &k, hid_t type, const T *x, int n)
   {
      hsize_t dim = n;
      hid_t s = H5Screate_simple(1, &dim, NULL);
      hid_t ds = H5Dcreate2(f, k.c_str(), type, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      STANDIN_VERIFY(ds >= 0);
      STANDIN_VERIFY(n == 0 || H5Dwrite(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, x) >= 0);
      H5Dclose(ds);
      H5Sclose(s);
   }
   int len(const std::string &k)
   {
      hid_t ds = H5Dopen2(f, k.c_str(), H5P_DEFAULT);
      STANDIN_VERIFY(ds >= 0);
      hid_t s = H5Dget_space(ds);
      int n = (int) H5Sget_simple_extent_npoints(s);
      H5Sclose(s);
      H5Dclose(ds);
      return n;
   }
   template <class T> void get(const std::string &k, hid_t type, T *x, int n)
   {
      if (n == 0) return;
      STANDIN_VERIFY(len(k) == n);
      hid_t ds = H5Dopen2(f, k.c_str(), H5P_DEFAULT);
      STANDIN_VERIFY(ds >= 0);
      STANDIN_VERIFY(H5Dread(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, x) >= 0);
      H5Dclose(ds);
   }
public:
   HDFDatabase() : f(-1) { }
   ~HDFDatabase() { if (f >= 0) H5Fclose(f); }
   bool create(const std::string &n)
   { f = H5Fcreate(n.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); return f >= 0; }
   bool open(const std::string &n, const std::string &type)
   {
      f = H5Fopen(n.c_str(), type == "r" ? H5F_ACC_RDONLY : H5F_ACC_RDWR, H5P_DEFAULT);
      return f >= 0;
   }
   bool close() { bool ok = (f >= 0) && H5Fclose(f) >= 0; f = -1; return ok; }
   void putInteger(const std::string &k, int x) { put(k, H5T_NATIVE_INT, &x, 1); }
   void putIntegerArray(const std::string &k, const int *x, int n) { put(k, H5T_NATIVE_INT, x, n); }
   void putDoubleArray(const std::string &k, const double *x, int n) { put(k, H5T_NATIVE_DOUBLE, x, n); }
   int getDoubleArraySize(const std::string &k) { return len(k); }
   void getInteger(const std::string &k, int &x) { get(k, H5T_NATIVE_INT, &x, 1); }
   void getIntegerArray(const std::string &k, int *x, int n) { get(k, H5T_NATIVE_INT, x, n); }
   void getDoubleArray(const std::string &k, double *x, int n) { get(k, H5T_NATIVE_DOUBLE, x, n); }
};

// A matrix with distributed rows in `<file>.000000`, under "<kind>", "<kind>_num_rows", "<kind>_num_cols".
inline void standin_write(const std::string &file, const std::string &kind, const Matrix &m,
                          const std::vector<double> *sv = NULL)
{
   Matrix all(m);
   if (all.distributed()) all.gather();
   int rank;
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   if (rank == 0)
   {
      HDFDatabase db;
      STANDIN_VERIFY(db.create(file + ".000000"));
      db.putInteger(kind + "_num_rows", all.numRows());
      db.putInteger(kind + "_num_cols", all.numColumns());
      db.putDoubleArray(kind, all.getData(), all.numRows() * all.numColumns());
      if (sv) db.putDoubleArray("singular_value", sv->data(), (int) sv->size());
      db.close();
   }
   MPI_Barrier(MPI_COMM_WORLD);
}

inline Matrix standin_read(const std::string &file, const std::string &kind, int local_rows)
{
   int rank, n[2];
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   std::vector<double> x;
   if (rank == 0)
   {
      HDFDatabase db;
      STANDIN_VERIFY(db.open(file + ".000000", "r"));
      db.getInteger(kind + "_num_rows", n[0]);
      db.getInteger(kind + "_num_cols", n[1]);
      x.resize((size_t) n[0] * n[1]);
      db.getDoubleArray(kind, x.data(), (int) x.size());
      db.close();
   }
   MPI_Bcast(n, 2, MPI_INT, 0, MPI_COMM_WORLD);
   x.resize((size_t) n[0] * n[1]);
   MPI_Bcast(x.data(), (int) x.size(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
   Matrix m(x.data(), n[0], n[1], false);
   m.distribute(local_rows < 0 ? n[0] : local_rows);
   return m;
}

class Options
{
public:
   int dim, max_num_samples, samples_per_time_interval;
   bool update_right_SV, write_snapshots;
   bool static_svd_preserve_snapshot = false;
   Options(int d, int m, int s = -1, bool u = false, bool w = false)
      : dim(d), max_num_samples(m), samples_per_time_interval(s), update_right_SV(u), write_snapshots(w)
   { STANDIN_VERIFY(d > 0 && m > 0); }
};

class BasisGenerator
{
   Options opt;
   std::string base;
   std::vector<std::vector<double>> cols;  // this rank's rows of each sample
   std::shared_ptr<Vector> sv;
   std::shared_ptr<Matrix> basis_;
   bool done;
public:
   BasisGenerator(Options o, bool, const std::string &name = "",
                  Database::formats = Database::formats::HDF5)
      : opt(o), base(name), done(false) { }
   int getNumSamples() const { return (int) cols.size(); }
   bool takeSample(double *u, bool = true)
   {
      STANDIN_VERIFY(u != NULL);
      Vector v(u, opt.dim, true);
      if (v.norm() == 0.0) return false;
      STANDIN_VERIFY(getNumSamples() < opt.max_num_samples);
      cols.push_back(std::vector<double>(u, u + opt.dim));
      return true;
   }
   std::shared_ptr<const Matrix> getSnapshotMatrix()
   {
      STANDIN_VERIFY(!done || opt.static_svd_preserve_snapshot);
      std::shared_ptr<Matrix> m(new Matrix(opt.dim, getNumSamples(), true));
      for (int j = 0; j < getNumSamples(); j++)
         for (int i = 0; i < opt.dim; i++) (*m)(i, j) = cols[j][i];
      return m;
   }
   void writeSnapshot() { standin_write(base + "_snapshot", "snapshot_matrix", *getSnapshotMatrix()); }
   void loadSamples(const std::string &name, const std::string &kind = "snapshot",
                    int cutoff = (int) 1e9, Database::formats = Database::formats::HDF5)
   {
      STANDIN_VERIFY(kind == "snapshot");
      Matrix m = standin_read(name, "snapshot_matrix", opt.dim);
      std::vector<double> u(opt.dim);
      for (int j = 0; j < std::min(cutoff, m.numColumns()); j++)
      {
         for (int i = 0; i < opt.dim; i++) u[i] = m(i, j);
         takeSample(u.data());
      }
   }
   void endSamples(const std::string & = "basis")
   {
      STANDIN_VERIFY(getNumSamples() > 0);
      Matrix a(*getSnapshotMatrix());
      int local = a.numRows();
      a.gather();
      int m = a.numRows(), n = a.numColumns(), k = std::min(m, n), info, lwork = 10 * (m + n) + 64;
      std::vector<double> A((size_t) m * n), s(k), U((size_t) m * k), VT((size_t) k * n), w(lwork);
      for (int i = 0; i < m; i++)
         for (int j = 0; j < n; j++) A[(size_t) j * m + i] = a(i, j);
      dgesvd_("S", "S", &m, &n, A.data(), &m, s.data(), U.data(), &m, VT.data(), &k, w.data(), &lwork, &info);
      STANDIN_VERIFY(info == 0);
      Matrix basis(m, k, false);
      for (int i = 0; i < m; i++)
         for (int j = 0; j < k; j++) basis(i, j) = U[(size_t) j * m + i];
      basis.distribute(local);
      sv.reset(new Vector(s.data(), k, false));
      basis_.reset(new Matrix(basis));
      done = true;
      if (base != "") standin_write(base, "spatial_basis", basis, &s);
   }
   std::shared_ptr<const Matrix> getSpatialBasis() { if (!done) endSamples(); return basis_; }
   std::shared_ptr<const Vector> getSingularValues() { STANDIN_VERIFY(sv.get()); return sv; }
};

class BasisReader
{
   std::string base;
   int local;
public:
   BasisReader(const std::string &name, Database::formats = Database::formats::HDF5, const int dim = -1)
      : base(name), local(dim) { }
   std::unique_ptr<Matrix> getSpatialBasis()
   { return std::unique_ptr<Matrix>(new Matrix(standin_read(base, "spatial_basis", local))); }
   std::unique_ptr<Matrix> getSpatialBasis(int n) { return getSpatialBasis()->getFirstNColumns(n); }
};

enum class NNLS_termination { L2, LINF };

// Non-negative x with lb <= Gt^T x <= ub, as sparse as the greedy active-set method makes it.
class NNLSSolver
{
   NNLS_termination crit;
public:
   NNLSSolver(double = 1.0e-14, int = 0, int = 0, int = 2, double = 1.0e-4, double = 1.0e-14,
              int = 100000, int = 100000, const NNLS_termination c = NNLS_termination::L2)
      : crit(c) { }
   void solve_parallel_with_scalapack(const Matrix &matTrans, const Vector &lb, const Vector &ub, Vector &soln)
   {
      STANDIN_VERIFY(matTrans.distributed() && !lb.distributed() && !ub.distributed() && soln.distributed());
      STANDIN_VERIFY(matTrans.numRows() == soln.dim());
      Matrix g(matTrans);
      g.gather();
      int n = g.numRows(), m = g.numColumns(), one = 1, info;
      STANDIN_VERIFY(lb.dim() == m && ub.dim() == m);
      std::vector<double> b(m), gap(m), x(n, 0.0), r;
      for (int i = 0; i < m; i++) { b[i] = 0.5 * (lb(i) + ub(i)); gap[i] = 0.5 * (ub(i) - lb(i)); }
      std::vector<bool> in(n, false), bad(n, false);
      double bn = 0.0, gn = 0.0;
      for (int i = 0; i < m; i++) { bn += b[i] * b[i]; gn += gap[i] * gap[i]; }
      bn = std::sqrt(bn);
      gn = std::max(std::sqrt(gn), 1.0e-14 * bn);
      for (int it = 0; it < 10 * n + 10; it++)
      {
         r = b;
         for (int i = 0; i < n; i++)
            if (x[i] != 0.0) for (int j = 0; j < m; j++) r[j] -= x[i] * g(i, j);
         double rn = 0.0;
         bool within = true;
         for (int j = 0; j < m; j++)
         {
            rn += r[j] * r[j];
            if (std::abs(r[j]) > std::max(gap[j], 1.0e-14 * bn)) within = false;
         }
         if (crit == NNLS_termination::L2 ? std::sqrt(rn) <= gn : within) break;
         int best = -1;
         double mu = 1.0e-14 * bn;
         for (int i = 0; i < n; i++)
         {
            if (in[i] || bad[i]) continue;
            double w = 0.0;
            for (int j = 0; j < m; j++) w += g(i, j) * r[j];
            if (w > mu) { mu = w; best = i; }
         }
         if (best < 0) break;
         in[best] = true;
         for (;;)
         {
            std::vector<int> P;
            for (int i = 0; i < n; i++) if (in[i]) P.push_back(i);
            int p = (int) P.size(), mx = std::max(m, p), lwork = 64 * (m + p) + 64;
            std::vector<double> A((size_t) m * p), z(mx, 0.0), w(lwork);
            for (int k = 0; k < p; k++) for (int j = 0; j < m; j++) A[(size_t) k * m + j] = g(P[k], j);
            for (int j = 0; j < m; j++) z[j] = b[j];
            dgels_("N", &m, &p, &one, A.data(), &m, z.data(), &mx, w.data(), &lwork, &info);
            if (info != 0) { in[best] = false; bad[best] = true; break; }
            double alpha = 1.0;
            int drop = -1;
            for (int k = 0; k < p; k++)
               if (z[k] <= 0.0 && x[P[k]] - z[k] > 0.0)
               {
                  double a = x[P[k]] / (x[P[k]] - z[k]);
                  if (a < alpha || drop < 0) { alpha = std::min(a, 1.0); drop = P[k]; }
               }
            for (int k = 0; k < p; k++) x[P[k]] += alpha * (z[k] - x[P[k]]);
            if (drop < 0) { std::fill(bad.begin(), bad.end(), false); break; }
            x[drop] = 0.0;
            in[drop] = false;
            if (drop == best) bad[best] = true;
            for (int k = 0; k < p; k++) if (x[P[k]] <= 0.0) { x[P[k]] = 0.0; in[P[k]] = false; }
         }
      }
      std::vector<int> off;
      int rank;
      get_global_offsets(soln.dim(), off);
      MPI_Comm_rank(MPI_COMM_WORLD, &rank);
      for (int i = 0; i < soln.dim(); i++) soln(i) = x[off[rank] + i];
   }
};

}  // namespace CAROM

namespace mfem
{
#ifndef MFEM_USE_MUMPS
// Dense LU of a matrix that lives on one process.
class MUMPSSolver : public Solver
{
   std::vector<double> lu;
   std::vector<int> piv;
   int n = 0;
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_POSITIVE_DEFINITE = 1, SYMMETRIC_INDEFINITE = 2 };
   MUMPSSolver(MPI_Comm = MPI_COMM_SELF) : type(UNSYMMETRIC) { }
   void SetPrintLevel(int) { }
   void SetMatrixSymType(MatType t) { type = t; }
   void SetOperator(const Operator &op) override
   {
      const HypreParMatrix *A = dynamic_cast<const HypreParMatrix *>(&op);
      STANDIN_VERIFY(A != NULL);
      SparseMatrix S;
      A->GetDiag(S);
      n = S.Height();
      height = width = n;
      STANDIN_VERIFY(S.Width() == n);
      // MUMPS takes the lower triangle alone for symmetric types.
      const int *I = S.GetI(), *J = S.GetJ();
      const double *D = S.GetData();
      lu.assign((size_t) n * n, 0.0);
      piv.assign(n, 0);
      for (int i = 0; i < n; i++)
         for (int k = I[i]; k < I[i + 1]; k++)
         {
            if (type == UNSYMMETRIC) { lu[(size_t) J[k] * n + i] += D[k]; continue; }
            if (J[k] > i) continue;
            lu[(size_t) J[k] * n + i] += D[k];
            if (J[k] < i) lu[(size_t) i * n + J[k]] += D[k];
         }
      int info;
      dgetrf_(&n, &n, lu.data(), &n, piv.data(), &info);
      STANDIN_VERIFY(info == 0);
   }
   void Mult(const Vector &x, Vector &y) const override
   {
      STANDIN_VERIFY(x.Size() == n && y.Size() == n);
      y = x;
      int one = 1, info;
      dgetrs_("N", &n, &one, lu.data(), &n, piv.data(), y.GetData(), &n, &info);
      STANDIN_VERIFY(info == 0);
   }
private:
   MatType type;
};
#endif
}

#endif
