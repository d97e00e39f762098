// Exact content of numerical objects, as JSON {"dims":[..],"x":[".."]}, and random objects.
#ifndef VERIF_CONTENT_HPP
#define VERIF_CONTENT_HPP
#include "mfem.hpp"
#include <map>
#include "linalg_utils.hpp"
#include "hdf5_utils.hpp"
#include "trace.hpp"
using namespace mfem;
using namespace std;
using namespace vt;

inline string tok(double v) { char b[64]; if (v != v) return "nan"; snprintf(b, 64, "%a", v); return b; }
inline string tok(int v) { return to_string(v); }
inline string tok(bool v) { return v ? "T" : "F"; }
struct Content
{
   vector<long> dims; vector<string> x;
   string json() const { vector<string> r; for (auto &s : x) r.push_back(q(s)); return "{\"dims\":" + jint(dims) + ",\"x\":" + jarr(r) + "}"; }
};
template<class T> Content content(const Array<T> &a) { Content c; c.dims = {a.Size()}; for (int i = 0; i < a.Size(); i++) c.x.push_back(tok(a[i])); return c; }
template<class T> Content content(const Array2D<T> &a)
{ Content c; c.dims = {a.NumRows(), a.NumCols()}; for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) c.x.push_back(tok(a(i, j))); return c; }
inline Content content(const Vector &a) { Content c; c.dims = {a.Size()}; for (int i = 0; i < a.Size(); i++) c.x.push_back(tok(a(i))); return c; }
inline Content content(const DenseMatrix &a)
{ Content c; c.dims = {a.NumRows(), a.NumCols()}; for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) c.x.push_back(tok(a(i, j))); return c; }
inline Content content(const DenseTensor &a)
{
   Content c; c.dims = {a.SizeI(), a.SizeJ(), a.SizeK()};
   for (int i = 0; i < a.SizeI(); i++) for (int j = 0; j < a.SizeJ(); j++) for (int k = 0; k < a.SizeK(); k++) c.x.push_back(tok(a(i, j, k)));
   return c;
}
// A sparse matrix is its size and its nonzero entries in row-major order: storage order and explicit zeros do not matter.
inline void entries(const SparseMatrix &a, vector<string> &x)
{
   for (int i = 0; i < a.Height(); i++)
   {
      map<int, double> row;
      for (int k = a.GetI()[i]; k < a.GetI()[i + 1]; k++) row[a.GetJ()[k]] += a.GetData()[k];
      for (auto &e : row) if (e.second != 0.0) x.push_back(to_string(i) + "," + to_string(e.first) + ":" + tok(e.second));
   }
}
inline Content content(const SparseMatrix &a) { Content c; c.dims = {a.Height(), a.Width()}; entries(a, c.x); return c; }
inline Content content(const MatrixBlocks &a)
{
   Content c; c.dims = {a.nrows, a.ncols, a.blocks.NumRows(), a.blocks.NumCols()};
   for (int i = 0; i < a.blocks.NumRows(); i++)
      for (int j = 0; j < a.blocks.NumCols(); j++)
      {
         vector<string> x;
         const SparseMatrix *b = a.blocks(i, j);
         if (b) entries(*b, x);
         if (x.empty()) continue;                 // an absent block and a zero block are the same
         c.x.push_back("B" + to_string(i) + "," + to_string(j) + " " + to_string(b->Height()) + "x" + to_string(b->Width()));
         c.x.insert(c.x.end(), x.begin(), x.end());
      }
   return c;
}
inline Content content(BlockMatrix &a)
{
   Content c; c.dims = {a.NumRowBlocks(), a.NumColBlocks()};
   for (int i = 0; i < a.RowOffsets().Size(); i++) c.dims.push_back(a.RowOffsets()[i]);
   for (int i = 0; i < a.ColOffsets().Size(); i++) c.dims.push_back(a.ColOffsets()[i]);
   for (int i = 0; i < a.NumRowBlocks(); i++)
      for (int j = 0; j < a.NumColBlocks(); j++)
      {
         if (a.IsZeroBlock(i, j)) continue;
         vector<string> x;
         entries(a.GetBlock(i, j), x);
         if (x.empty()) continue;
         c.x.push_back("B" + to_string(i) + "," + to_string(j));
         c.x.insert(c.x.end(), x.begin(), x.end());
      }
   return c;
}
inline Content content(const Array<SampleInfo> &a)
{
   Content c; c.dims = {a.Size()};
   for (int i = 0; i < a.Size(); i++) { c.x.push_back(tok(a[i].el)); c.x.push_back(tok(a[i].qp)); c.x.push_back(tok(a[i].qw)); }
   return c;
}

// random objects
inline double rdouble(Rng &r)
{
   switch (r.in(0, 11))
   {
      case 0: return 0.0;
      case 1: return 1.0 / 3.0;
      case 2: return -1e300;
      case 3: return 5e-324;
      case 4: return 1e-17;
      default: return (r.in(-1000000, 1000000) + r.in(0, 1000000) * 1e-6) / (double) (1 << r.in(0, 20));
   }
}
inline void fill(Rng &r, int &v) { v = r.in(0, 5) == 0 ? (r.flip() ? 2147483647 : -2147483647) : r.in(-1000, 100000); }
inline void fill(Rng &r, double &v) { v = rdouble(r); }
inline void fill(Rng &r, bool &v) { v = r.flip(); }
inline int rsize(Rng &r, int lo) { int k = r.in(0, 9); return max(lo, k < 5 ? r.in(lo, 4) : k < 9 ? r.in(4, 12) : r.in(12, 40)); }
template<class T> void randomize(Rng &r, Array<T> &a, int lo = 0) { a.SetSize(rsize(r, lo)); for (int i = 0; i < a.Size(); i++) fill(r, a[i]); }
template<class T> void randomize(Rng &r, Array2D<T> &a)
{ int m = rsize(r, 1), n = rsize(r, 1); a.SetSize(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) fill(r, a(i, j)); }
inline void randomize(Rng &r, Vector &a) { a.SetSize(rsize(r, 1)); for (int i = 0; i < a.Size(); i++) fill(r, a(i)); }
inline void randomize(Rng &r, DenseMatrix &a)
{ int m = rsize(r, 1), n = rsize(r, 1); a.SetSize(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) fill(r, a(i, j)); }
inline void randomize(Rng &r, DenseTensor &a)
{
   int m = r.in(1, 5), n = r.in(1, 5), p = r.in(1, 5); a.SetSize(m, n, p);
   for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int k = 0; k < p; k++) fill(r, a(i, j, k));
}
inline SparseMatrix *rsparse(Rng &r, int m, int n)
{
   SparseMatrix *s = new SparseMatrix(m, n);
   int density = r.in(0, 6);
   for (int i = 0; i < m; i++)
   {
      if (r.in(0, 4) == 0) continue;              // empty rows
      vector<int> cols; for (int j = 0; j < n; j++) cols.push_back(j);
      for (int j = n - 1; j > 0; j--) swap(cols[j], cols[r.in(0, j)]);   // columns in any order
      for (int j : cols) if (r.in(0, 6) < density) { double v = rdouble(r); s->Set(i, j, v); }
   }
   s->Finalize(0);
   return s;
}
inline void randomize(Rng &r, MatrixBlocks &a)
{
   int m = r.in(1, 4), n = r.in(1, 4);
   a.SetSize(m, n);
   vector<int> h, w;
   for (int i = 0; i < m; i++) h.push_back(r.in(1, 5));
   for (int j = 0; j < n; j++) w.push_back(r.in(1, 5));
   for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (r.in(0, 3)) a.blocks(i, j) = rsparse(r, h[i], w[j]);
}
inline void randomize(Rng &r, Array<SampleInfo> &a)
{ a.SetSize(rsize(r, 0)); for (int i = 0; i < a.Size(); i++) { a[i].el = r.in(0, 5000); a[i].qp = r.in(0, 60); a[i].qw = rdouble(r); } }
// Leaves an object of the same kind, with as many entries or blocks as before where possible, but another shape or
// other entries: the worst thing the target of a read can hold.
template<class T> void morph(Rng &r, Array<T> &a) { if (r.flip() && a.Size()) a.SetSize(a.Size() - 1 + 2 * r.in(0, 1)); for (int i = 0; i < a.Size(); i++) fill(r, a[i]); }
template<class T> void morph(Rng &r, Array2D<T> &a)
{ int m = a.NumRows(), n = a.NumCols(), k = r.in(0, 2); if (k == 1) a.SetSize(n, m); if (k == 2) a.SetSize(m * n, 1); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) fill(r, a(i, j)); }
inline void morph(Rng &r, Vector &a) { for (int i = 0; i < a.Size(); i++) fill(r, a(i)); }
inline void morph(Rng &r, DenseMatrix &a)
{ int m = a.NumRows(), n = a.NumCols(), k = r.in(0, 2); if (k == 1) a.SetSize(n, m); if (k == 2) a.SetSize(m * n, 1); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) fill(r, a(i, j)); }
inline void morph(Rng &r, DenseTensor &a)
{
   int d[3] = {a.SizeI(), a.SizeJ(), a.SizeK()};
   for (int k = r.in(0, 4); k > 0; k--) swap(d[r.in(0, 2)], d[r.in(0, 2)]);
   a.SetSize(d[0], d[1], d[2]);
   for (int i = 0; i < d[0]; i++) for (int j = 0; j < d[1]; j++) for (int k = 0; k < d[2]; k++) fill(r, a(i, j, k));
}
inline void morph(Rng &r, MatrixBlocks &a)
{
   int m = a.nrows, n = a.ncols;
   if (r.in(0, 2) == 0) swap(m, n);
   a.SetSize(m, n);
   for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (r.in(0, 5)) a.blocks(i, j) = rsparse(r, r.in(1, 5), r.in(1, 5));
}
inline void morph(Rng &r, Array<SampleInfo> &a) { for (int i = 0; i < a.Size(); i++) { a[i].el++; a[i].qp = 99; a[i].qw = -1; } }
inline string rstring(Rng &r)
{
   static const char *al = "abcXYZ019_-./: =\xc3\xa9";
   int n = r.in(0, 4); n = n == 0 ? 0 : n == 1 ? r.in(1, 15) : n == 2 ? r.in(15, 17) : r.in(18, 300);
   string s; for (int i = 0; i < n; i++) s += al[r.in(0, 15)];
   return s;
}
#endif
