// Histories over MatrixBlocks and AddToBlockMatrix.  argv: scenario file
#include "num.hpp"
#include "yaml-cpp/yaml.h"
static string js(MatrixBlocks &m)
{
   vector<string> b;
   for (int i = 0; i < m.nrows; i++) for (int j = 0; j < m.ncols; j++)
      if (m(i, j)) b.push_back("{\"i\":" + to_string(i + 1) + ",\"j\":" + to_string(j + 1) + ",\"v\":" + J(dense(*m(i, j))) + "}");
   return "{\"m\":" + to_string(m.nrows) + ",\"n\":" + to_string(m.ncols) + ",\"b\":" + jarr(b) + "}";
}
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      Rng r0(s[0]["seed"].as<int>());
      int nr = r0.in(1, 4), nc = r0.in(1, 4);
      vector<long> rs, cs; Array<int> ro(nr + 1), co(nc + 1); ro[0] = co[0] = 0;
      // block sizes repeat so that several positions fit a block
      for (int i = 0; i < nr; i++) { rs.push_back(1 + r0.in(0, 1)); ro[i + 1] = ro[i] + rs[i]; }
      for (int i = 0; i < nc; i++) { cs.push_back(1 + r0.in(0, 1)); co[i + 1] = co[i] + cs[i]; }
      BlockMatrix B(ro, co); B.owns_blocks = 1;
      MatrixBlocks c[3];
      // sizes of each collection's block rows and columns
      vector<long> h[3], w[3];
      emit(Ev("Begin").ai("rs", rs).ai("cs", cs));
      auto all = [&]() { return "{\"0\":" + js(c[0]) + ",\"1\":" + js(c[1]) + ",\"2\":" + js(c[2]) + "}"; };
      auto shape = [&](int o, int m, int n, Rng &r) { h[o].clear(); w[o].clear(); for (int i = 0; i < m; i++) h[o].push_back(rs[r.in(0, nr - 1)]); for (int j = 0; j < n; j++) w[o].push_back(cs[r.in(0, nc - 1)]); };
      for (size_t k = 0; k < s.size(); k++)
      {
         string op = s[k]["op"].as<string>(); int o = s[k]["o"].as<int>(), p = s[k]["p"].as<int>(), i = s[k]["i"].as<int>(), j = s[k]["j"].as<int>();
         Rng r(s[k]["seed"].as<int>() + 7);
         MatrixBlocks &M = c[o];
         if (op == "resize") { int m = r.in(0, 9) ? r.in(1, 3) : 0, n = m ? r.in(1, 3) : 0; shape(o, m, n, r); M.SetSize(m, n); emit(Ev("resize").s("o", to_string(o)).i("m", m).i("n", n).raw("all", all())); }
         else if (op == "arr" || op == "twin")
         {  // takes over the blocks of a grid of pointers
            for (int a = 0; a < M.nrows; a++) for (int b = 0; b < M.ncols; b++) { delete M(a, b); M(a, b) = NULL; }
            int m = r.in(1, 3), n = r.in(1, 3);
            if (op == "twin" && c[p].nrows) { m = c[p].nrows; n = c[p].ncols; }      // as many blocks as another collection, which then receives it
            shape(o, m, n, r);
            Array2D<SparseMatrix *> g(m, n); vector<string> bs;
            for (int a = 0; a < m; a++) for (int b = 0; b < n; b++)
            {
               g(a, b) = r.in(0, 2) ? sparse(r, h[o][a], w[o][b], 5) : NULL;
               if (g(a, b)) bs.push_back("{\"i\":" + to_string(a + 1) + ",\"j\":" + to_string(b + 1) + ",\"v\":" + J(dense(*g(a, b))) + "}");
            }
            M = g;
            emit(Ev("arr").s("o", to_string(o)).i("m", m).i("n", n).raw("b", jarr(bs)).raw("all", all()));
            if (op == "twin" && p != o)
            { c[p] = M; vector<long> hh = h[o], ww = w[o]; h[p] = hh; w[p] = ww; emit(Ev("copy").s("o", to_string(p)).s("p", to_string(o)).raw("all", all())); }
         }
         else if (op == "copy" || op == "self")
         { if (op == "self") p = o; M = c[p]; vector<long> hh = h[p], ww = w[p]; h[o] = hh; w[o] = ww; emit(Ev("copy").s("o", to_string(o)).s("p", to_string(p)).raw("all", all())); }
         else if (M.nrows == 0) continue;
         else if (op.substr(0, 3) == "set")
         {
            i %= M.nrows; j %= M.ncols; delete M(i, j); M(i, j) = sparse(r, h[o][i], w[o][j], 5, r.flip());
            emit(Ev("set").s("o", to_string(o)).i("i", i + 1).i("j", j + 1).raw("v", J(dense(*M(i, j)))).raw("all", all()));
         }
         else if (op == "scale")
         {
            i %= M.nrows; j %= M.ncols; if (!M(i, j)) continue;
            int f = r.flip() ? 2 : -1; *M(i, j) *= f;
            emit(Ev("scale").s("o", to_string(o)).i("i", i + 1).i("j", j + 1).i("w", f).raw("all", all()));
         }
         else if (op == "drop") { i %= M.nrows; j %= M.ncols; delete M(i, j); M(i, j) = NULL; emit(Ev("drop").s("o", to_string(o)).i("i", i + 1).i("j", j + 1).raw("all", all())); }
         else if (op.substr(0, 3) == "add")
         {
            Array<int> ri(M.nrows), ci(M.ncols); bool ok = true;
            for (int a = 0; a < M.nrows; a++) { vector<int> f; for (int t = 0; t < nr; t++) if (rs[t] == h[o][a]) f.push_back(t); ok = ok && f.size(); if (ok) ri[a] = f[r.in(0, f.size() - 1)]; }
            for (int a = 0; a < M.ncols; a++) { vector<int> f; for (int t = 0; t < nc; t++) if (cs[t] == w[o][a]) f.push_back(t); ok = ok && f.size(); if (ok) ci[a] = f[r.in(0, f.size() - 1)]; }
            if (!ok) continue;
            AddToBlockMatrix(ri, ci, M, B);
            DenseMatrix F(ro[nr], co[nc]); F = 0.0;
            for (int a = 0; a < nr; a++) for (int b = 0; b < nc; b++) if (!B.IsZeroBlock(a, b)) F.CopyMN(dense(B.GetBlock(a, b)), ro[a], co[b]);
            emit(Ev("add").s("o", to_string(o)).raw("ri", J(ri, 1)).raw("ci", J(ci, 1)).raw("full", J(F)).raw("all", all()));
         }
      }
   }
   return 0;
}
