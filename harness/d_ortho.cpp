// Orthonormalisation of integer columns (each scaled by a power of two).  argv: scenario file
#include "num.hpp"
#include "yaml-cpp/yaml.h"
static const double S = 4000.0;
static string fixed(const DenseMatrix &m)
{ vector<string> r; for (int i = 0; i < m.NumRows(); i++) { vector<long> x; for (int j = 0; j < m.NumCols(); j++) x.push_back(fx(m(i, j), S)); r.push_back(jint(x)); } return jarr(r); }
// smallest distance of a column from the span of those before it (and of B)
static double distance(const DenseMatrix &A, const DenseMatrix &B)
{
   vector<vector<double>> q; double worst = 1e9; int n = A.NumRows();
   for (int c = 0; c < B.NumCols() + A.NumCols(); c++)
   {
      vector<double> v(n); for (int i = 0; i < n; i++) v[i] = c < B.NumCols() ? B(i, c) : A(i, c - B.NumCols());
      for (int rep = 0; rep < 2; rep++) for (auto &u : q) { double d = 0; for (int i = 0; i < n; i++) d += u[i] * v[i]; for (int i = 0; i < n; i++) v[i] -= d * u[i]; }
      double s = 0; for (double x : v) s += x * x; s = sqrt(s); worst = min(worst, s);
      for (double &x : v) x /= s > 0 ? s : 1; q.push_back(v);
   }
   return worst;
}
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line); Rng r(s["seed"].as<int>() + 1);
      int n = 1 + s["a"].as<int>(), kb = s["f"].as<int>() % 2 ? r.in(1, 2) : 0, m = 3; if (kb >= n) kb = n - 1;
      int k = min(n - kb, s["b"].as<int>()), spread = s["c"].as<int>() > 3 ? (s["seed"].as<int>() % 3 ? 30 : 200) : 0;
      DenseMatrix A, B(n, kb), b0; B = 0.0;
      if (kb)
      {  // orthogonal, not normalised
         int i = r.in(0, n - 2), j = r.in(i + 1, n - 1); double x = r.in(1, 2), y = r.in(-2, 2);
         B(i, 0) = x; B(j, 0) = y; if (kb > 1) { B(i, 1) = -y; B(j, 1) = x; if (n > 2 && r.flip()) { int w = r.in(0, n - 1); if (w != i && w != j) { for (int z = 0; z < n; z++) B(z, 1) = 0; B(w, 1) = r.flip() ? 2 : -1; } } }
      }
      int tries = 0;
      do { rnd(r, A, n, k, m); } while (distance(A, B) < 0.4 && ++tries < 2000);
      if (tries >= 2000) harness_error("no independent columns");
      emit(Ev("Begin"));
      DenseMatrix Q(A); b0 = B;
      vector<long> ex;
      for (int c = 0; c < k; c++) { int e = spread ? r.in(-spread, spread) : 0; ex.push_back(e); for (int i = 0; i < n; i++) Q(i, c) = ldexp(Q(i, c), e); }
      if (kb)
      {
         double sc = spread ? ldexp(1.0, r.in(-spread, spread)) : 1.0;
         DenseMatrix B1(B); B1 *= sc;
         Orthonormalize(B1, Q);
         B1 *= 1.0 / sc; B1 -= b0;
         emit(Ev("Against").raw("A", J(A)).raw("B", J(B)).raw("Q", fixed(Q)).i("m", m).ai("ex", ex).b("kept", B1.MaxMaxNorm() == 0.0));
      }
      else { modifiedGramSchmidt(Q); emit(Ev("Self").raw("A", J(A)).raw("Q", fixed(Q)).i("m", m).ai("ex", ex)); }
   }
   return 0;
}
