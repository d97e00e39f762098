// One CGOptimizer used for a sequence of systems.  argv: scenario file
#include "num.hpp"
#include "fork.hpp"
#include "yaml-cpp/yaml.h"
#include <functional>
static const double SC = 1e6, XS = 1e3;
// F(x) = A x (+ x^3 / 16 added to the first rows); reports every point at which the derivative is asked for
struct Sys : public Operator
{
   DenseMatrix A; bool cubic, sp; Vector b;
   mutable DenseMatrix D; mutable SparseMatrix *S = NULL;
   std::function<void(const Vector &)> at;
   Sys(const DenseMatrix &a, bool c, bool s) : Operator(a.NumRows(), a.NumCols()), A(a), cubic(c), sp(s) {}
   ~Sys() { delete S; }
   void F(const Vector &x, Vector &y) const { A.Mult(x, y); if (cubic) for (int i = 0; i < x.Size(); i++) y(i) += x(i) * x(i) * x(i) / 16.0; }
   void Mult(const Vector &x, Vector &y) const override { F(x, y); }
   Operator &GetGradient(const Vector &x) const override
   {
      D = A; if (cubic) for (int i = 0; i < x.Size(); i++) D(i, i) += 3.0 * x(i) * x(i) / 16.0;
      if (at) at(x);
      if (!sp) return D;
      delete S; S = new SparseMatrix(D.NumRows(), D.NumCols());
      for (int i = 0; i < D.NumRows(); i++) for (int j = 0; j < D.NumCols(); j++) if (D(i, j)) S->Set(i, j, D(i, j));
      S->Finalize(); return *S;
   }
   double res(const Vector &x) const { Vector y(height); F(x, y); y -= b; return y.Norml2(); }
};
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      emit(Ev("Begin"));
      CGOptimizer opt; opt.SetPrintLevel(-1);
      for (size_t k = 0; k < s.size(); k++)
      {
         YAML::Node t = s[k]; Rng r(t["seed"].as<int>() + 3);
         int n = t["n"].as<int>(), m = n + t["more"].as<int>(), max = t["max"].as<int>(), rhs = t["rhs"].as<int>(), start = t["start"].as<int>();
         bool cubic = t["cubic"].as<bool>();
         // well-conditioned: a dominant positive diagonal, small entries elsewhere
         DenseMatrix A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = i == j ? 4 + r.in(0, 2) : r.in(-1, 1);
         Sys F(A, cubic, t["sparse"].as<bool>());
         Vector xe(n), b(m), x(n); for (int i = 0; i < n; i++) xe(i) = r.in(-3, 3);
         if (rhs == 0) for (int i = 0; i < n; i++) xe(i) = 0.0;
         F.F(xe, b); bool consistent = true;
         if (rhs == 2) for (int i = n; i < m; i++) { b(i) += 1 + r.in(0, 3); consistent = false; }
         F.b = b;
         for (int i = 0; i < n; i++) x(i) = start == 0 ? 0.0 : start == 1 ? xe(i) : r.in(-4, 4);
         double rel = pow(10.0, -t["rel"].as<int>()), ab = pow(10.0, -t["abs"].as<int>());
         opt.SetOperator(F); opt.SetRelTol(rel); opt.SetAbsTol(ab); opt.SetMaxIter(max);
         double r0 = F.res(x), unit = r0 > 0 ? r0 : 1.0;
         bool enough = max >= 100;
         vector<string> rows; for (int i = 0; i < m; i++) { vector<long> v; for (int j = 0; j < n; j++) v.push_back(iv(A(i, j))); rows.push_back(jint(v)); }
         vector<long> bi; if (!cubic) for (int i = 0; i < m; i++) bi.push_back(iv(b(i)));
         emit(Ev("Start").raw("sys", string("{\"max\":") + to_string(max) + ",\"linear\":" + (cubic ? "false" : "true") + ",\"enough\":" + (enough ? "true" : "false") +
              ",\"solvable\":" + (consistent && enough ? "true" : "false") + ",\"tol\":" + to_string((long) (60 * XS / 1000 + 0.02 * XS)) + ",\"A\":" + jarr(rows) + ",\"b\":" + jint(bi) + "}"));
         F.at = [&](const Vector &y) { emit(Ev("Iterate").i("q", fx(F.res(y) / unit, SC))); };
         opt.Mult(b, x); F.at = nullptr;
         double q = F.res(x); vector<long> xi; for (int i = 0; i < n; i++) xi.push_back(fx(x(i), XS));
         bool meets = q <= 1.001 * ab || q <= 1.001 * rel * r0, below = q <= 0.999 * ab || q <= 0.999 * rel * r0;
         emit(Ev("Finish").i("q", fx(q / unit, SC)).ai("x", xi).b("conv", opt.GetConverged()).b("meets", meets).b("below", below));
      }
   }
   return 0;
}
