// Integer-valued numerical objects and their JSON.
#ifndef VERIF_NUM_HPP
#define VERIF_NUM_HPP
#include "mfem.hpp"
#include "linalg_utils.hpp"
#include "trace.hpp"
#include <map>
using namespace mfem;
using namespace std;
using namespace vt;

// integer value of v, or BIG when it is not one
inline long iv(double v, double tol = 1e-6) { long r = fx(v); return r == BIG || std::fabs(v - (double) r) > tol ? BIG : r; }
inline string J(const Vector &v) { vector<long> r; for (int i = 0; i < v.Size(); i++) r.push_back(iv(v(i))); return jint(r); }
inline string J(const DenseMatrix &m)
{ vector<string> r; for (int i = 0; i < m.NumRows(); i++) { vector<long> x; for (int j = 0; j < m.NumCols(); j++) x.push_back(iv(m(i, j))); r.push_back(jint(x)); } return jarr(r); }
inline string J(const DenseTensor &t)
{
   vector<string> r;
   for (int i = 0; i < t.SizeI(); i++)
   {
      vector<string> a;
      for (int j = 0; j < t.SizeJ(); j++) { vector<long> x; for (int k = 0; k < t.SizeK(); k++) x.push_back(iv(t(i, j, k))); a.push_back(jint(x)); }
      r.push_back(jarr(a));
   }
   return jarr(r);
}
inline DenseMatrix dense(const SparseMatrix &s)
{
   DenseMatrix d(s.Height(), s.Width()); d = 0.0;
   Array<int> c; Vector v;
   for (int i = 0; i < s.Height(); i++) { s.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) d(i, c[k]) += v(k); }
   return d;
}
inline string J(const Array<int> &a, int add = 0) { vector<long> r; for (int i = 0; i < a.Size(); i++) r.push_back(a[i] + add); return jint(r); }
inline void rnd(Rng &r, Vector &v, int n, int m = 9) { v.SetSize(n); for (int i = 0; i < n; i++) v(i) = r.in(-m, m); }
inline void rnd(Rng &r, DenseMatrix &v, int n, int k, int m = 9) { v.SetSize(n, k); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) v(i, j) = r.in(-m, m); }
inline void rnd(Rng &r, DenseTensor &v, int a, int b, int c, int m = 9)
{ v.SetSize(a, b, c); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) v(i, j, k) = r.in(-m, m); }
inline void rnd(Rng &r, Array<int> &v, int n, int hi) { v.SetSize(n); for (int i = 0; i < n; i++) v[i] = r.in(0, hi - 1); }
inline SparseMatrix *sparse(Rng &r, int m, int n, int mag = 9, bool finalize = true, int density = 3)
{
   SparseMatrix *s = new SparseMatrix(m, n);
   for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (r.in(0, 4) < density) s->Set(i, j, r.in(-mag, mag));
   if (finalize) s->Finalize();
   return s;
}
#endif
