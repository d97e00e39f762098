// Block smoothers on integer block matrices whose diagonal blocks have integer inverses.  argv: scenario file
#include "num.hpp"
#include "block_smoother.hpp"
#include "yaml-cpp/yaml.h"
// a product of elementary integer matrices and its inverse
static void unimodular(Rng &r, int n, DenseMatrix &d, DenseMatrix &di)
{
   d.SetSize(n); di.SetSize(n); d = 0.0; di = 0.0;
   for (int i = 0; i < n; i++) d(i, i) = di(i, i) = 1.0;
   for (int k = 0; k < 2 * n; k++)
   {
      int i = r.in(0, n - 1), j = r.in(0, n - 1); double f = r.flip() ? 1 : -1;
      if (i == j) { for (int c = 0; c < n; c++) { d(i, c) = -d(i, c); di(c, i) = -di(c, i); } continue; }
      for (int c = 0; c < n; c++) { d(i, c) += f * d(j, c); di(c, j) -= f * di(c, i); }   // d := E d, di := di E^-1
   }
}
struct Sys
{
   Array<int> off; BlockMatrix *B; vector<DenseMatrix> D; string json, inv;
   Sys(Rng &r, int nb, int maxn) 
   {
      off.SetSize(nb + 1); off[0] = 0; D.resize(nb);
      vector<int> sz; for (int i = 0; i < nb; i++) { sz.push_back(r.in(1, maxn)); off[i + 1] = off[i] + sz[i]; }
      B = new BlockMatrix(off); B->owns_blocks = 1;
      vector<string> rows, invs;
      for (int i = 0; i < nb; i++)
      {
         vector<string> row;
         for (int j = 0; j < nb; j++)
         {
            DenseMatrix m(sz[i], sz[j]);
            if (i == j) unimodular(r, sz[i], m, D[i]);
            else { if (r.in(0, 3) == 0) { row.push_back("[]"); continue; } m = 0.0; for (int a = 0; a < sz[i]; a++) for (int b = 0; b < sz[j]; b++) if (r.in(0, 2) == 0) m(a, b) = r.flip() ? 1 : -1; }
            SparseMatrix *s = new SparseMatrix(sz[i], sz[j]);
            for (int a = 0; a < sz[i]; a++) for (int b = 0; b < sz[j]; b++) if (m(a, b) != 0.0) s->Set(a, b, m(a, b));
            s->Finalize(); B->SetBlock(i, j, s); row.push_back(J(m));
         }
         rows.push_back(jarr(row)); invs.push_back(J(D[i]));
      }
      json = jarr(rows); inv = jarr(invs);
   }
   ~Sys() { delete B; }
};
static string blocks(const Vector &v, const Array<int> &off)
{ vector<string> r; for (int i = 0; i + 1 < off.Size(); i++) { vector<long> x; for (int k = off[i]; k < off[i + 1]; k++) x.push_back(iv(v(k), 1e-3)); r.push_back(jint(x)); } return jarr(r); }
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      Rng r(s["seed"].as<int>() + 1);
      int nb = s["a"].as<int>(), maxn = min(3, s["b"].as<int>()), how = s["c"].as<int>(), its = 1 + s["d"].as<int>() % 2, type = s["e"].as<int>() % 3;
      bool same = s["f"].as<int>() % 2;
      emit(Ev("Begin"));
      Sys s1(r, nb, maxn), s2(r, same ? nb : r.in(1, 4), maxn);
      BlockGSSmoother *gs = NULL; BlockDSmoother *js = NULL;
      auto bind = [&](Sys &S)
      {  // through the constructor, or through SetOperator of an existing one
         if (!gs)
         {
            if (how % 2) { gs = new BlockGSSmoother(*S.B, type, its); js = new BlockDSmoother(*S.B); }
            else { gs = new BlockGSSmoother(type, its); js = new BlockDSmoother(); gs->SetOperator(*S.B); js->SetOperator(*S.B); }
         }
         else { gs->SetOperator(*S.B); js->SetOperator(*S.B); }
         emit(Ev("Set").raw("A", S.json).raw("D", S.inv).i("n", S.off.Last()).i("height", gs->Height()).i("width", js->Width()));
      };
      auto use = [&](Sys &S)
      {
         int n = S.off.Last();
         Vector b, y0, y, b0; rnd(r, b, n, 3); rnd(r, y0, n, 3); b0 = b;
         auto out = [&](const char *e) { Vector d(b); d -= b0; return Ev(e).raw("b", blocks(b, S.off)).raw("y0", blocks(y0, S.off)).raw("y", blocks(y, S.off)).b("kept", d.Norml2() == 0.0); };
         gs->iterative_mode = r.flip();
         y = y0; gs->Mult(b, y); emit(out("GS").b("iter", gs->iterative_mode).i("type", type).i("its", its));
         y = y0; gs->BlockGaussSeidelForw(b, y); emit(out("Forw"));
         y = y0; gs->BlockGaussSeidelBack(b, y); emit(out("Back"));
         js->iterative_mode = false; y = y0; js->Mult(b, y); emit(out("Jac"));
      };
      bind(s1); use(s1);
      if (how > 2) { bind(s2); use(s2); bind(s1); use(s1); }
      delete gs; delete js;
   }
   return 0;
}
