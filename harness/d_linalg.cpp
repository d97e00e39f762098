// Kernels of linalg_utils on integer data.  argv: scenario file
#include "num.hpp"
#include "yaml-cpp/yaml.h"
static DenseMatrix readDense(const char *fn, int m, int n)
{ DenseMatrix z(m, n); z = 1e9; ifstream f(fn); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) f >> z(i, j); string rest; if (f >> rest) z = 1e9; return z; }
static DenseMatrix readTriplets(const char *fn, int m, int n)
{ DenseMatrix z(m, n); z = 0.0; ifstream g(fn); stringstream f; string ln; while (getline(g, ln)) if (ln[0] != '%') f << ln << "\n"; int i, j; double v; while (f >> i >> j >> v) { if (i < 1 || j < 1 || i > m || j > n) { z = 1e9; break; } z(i - 1, j - 1) += v; } return z; }
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      string op = s["op"].as<string>();
      int a = s["a"].as<int>(), b = s["b"].as<int>(), c = s["c"].as<int>(), d = s["d"].as<int>(), e = s["e"].as<int>(), f = s["f"].as<int>();
      Rng r(s["seed"].as<int>() + 1);
      double w = r.in(-5, 5);
      emit(Ev("Begin"));
      Ev ev("Op"); ev.s("op", op).i("w", (long) w);
      DenseMatrix M, R, A, P, Z, Z0; DenseTensor T; Vector x, y, z, y0; Array<int> rows, prows;
      vector<string> before, after;
      auto snap = [&]() { return J(M) + J(R) + J(A) + J(P) + J(T) + J(x) + J(z) + J(rows) + J(prows); };
      string s0; SparseMatrix *sp = NULL;
      if (op == "MultSub") { rnd(r, M, a, b); rnd(r, rows, c, a); rnd(r, x, b); if (d > 2) rnd(r, y, d); s0 = snap(); MultSubMatrix(M, rows, x, y); }
      else if (op == "MultTSub" || op == "AddMultTSub")
      {
         rnd(r, M, a, b); rnd(r, rows, c, a); rnd(r, x, c); rnd(r, y0, b); y = y0; s0 = snap();
         if (op == "MultTSub") MultTransposeSubMatrix(M, rows, x, y); else AddMultTransposeSubMatrix(M, rows, x, y);
      }
      else if (op == "SubRAPd" || op == "SubRAPs")
      {
         bool same = r.flip(), samerows = same && r.flip();   // the same basis (and rows) on both sides, as the reduced forms use it
         if (same) { c = a; d = b; } if (samerows) f = e;
         rnd(r, R, a, b); rnd(r, P, c, d); if (same) P = R; rnd(r, rows, e, a); rnd(r, prows, f, c); if (samerows) prows = rows; rnd(r, A, e, f); s0 = snap();
         const DenseMatrix &Pr = same ? R : P; const Array<int> &pr = samerows ? rows : prows;
         if (op == "SubRAPd") { rnd(r, Z0, b, d); Z = Z0; AddSubMatrixRtAP(R, rows, A, Pr, pr, Z); }
         else { sp = sparse(r, b, d, 9, false); Z0 = dense(*sp); AddSubMatrixRtAP(R, rows, A, Pr, pr, *sp); sp->Finalize(); Z = dense(*sp); }
      }
      else if (op.find("RAP") != string::npos)
      {
         bool same = r.flip(); if (same) { c = a; d = b; }      // one basis on both sides
         rnd(r, R, a, b); rnd(r, P, c, d); if (same) P = R;
         DenseMatrix &Q = same ? R : P;
         SparseMatrix *As = NULL;
         if (e % 2) { As = sparse(r, a, c); A = dense(*As); } else rnd(r, A, a, c);
         s0 = snap();
         const Operator &O = As ? (const Operator &) *As : (const Operator &) A;
         if (op == "RAP") { if (f > 2) rnd(r, Z, f, 2); RtAP(R, O, Q, Z); }
         else if (op == "RAPd") { DenseMatrix *q = DenseRtAP(R, O, Q); Z = *q; delete q; }
         else if (op == "RAPs") { sp = SparseRtAP(R, O, Q); Z = dense(*sp); }
         else if (op == "AddRAPd") { rnd(r, Z0, b, d); Z = Z0; if (f == 1) { w = 1; AddwRtAP(R, O, Q, Z); } else AddwRtAP(R, O, Q, Z, w); }
         else { sp = sparse(r, b, d, 9, false); Z0 = dense(*sp); if (f == 1) { w = 1; AddwRtAP(R, O, Q, *sp); } else AddwRtAP(R, O, Q, *sp, w); sp->Finalize(); Z = dense(*sp); }
         if (As && J(dense(*As)) != J(A)) s0 = "changed";
         delete As;
         ev = Ev("Op"); ev.s("op", op).i("w", (long) w);
      }
      else if (op == "Contract" || op == "AddContract")
      {
         rnd(r, T, a, b, c); rnd(r, x, a); rnd(r, z, b); rnd(r, y0, c); y = y0; if (d == 1 && op == "Contract") y.SetSize(c + 2); s0 = snap();
         if (op == "Contract") TensorContract(T, x, z, y); else TensorAddScaledContract(T, w, x, z, y);
      }
      else if (op == "TMult") { rnd(r, T, a, b, c); rnd(r, x, c); rnd(r, Z, a, b); s0 = snap(); TensorMult(T, x, Z); }
      else if (op == "TOnJ") { rnd(r, T, a, b, c); rnd(r, x, b); rnd(r, Z0, a, c); Z = Z0; s0 = snap(); TensorAddMultOnJ(T, x, Z); }
      else if (op == "TT0" || op == "TTs0")
      { rnd(r, T, a, b, c); rnd(r, x, a); rnd(r, Z0, c, b); Z = Z0; s0 = snap(); if (op == "TT0") TensorAddMultTranspose(T, x, 0, Z); else TensorAddScaledMultTranspose(T, w, x, 0, Z); }
      else if (op == "TT1" || op == "TTs1")
      { rnd(r, T, a, b, c); rnd(r, x, b); rnd(r, Z0, c, a); Z = Z0; s0 = snap(); if (op == "TT1") TensorAddMultTranspose(T, x, 1, Z); else TensorAddScaledMultTranspose(T, w, x, 1, Z); }
      else if (op == "Basis")
      {
         rnd(r, M, a + 1, b); rnd(r, rows, c, a + 1);
         Array<int> enc(rows); vector<long> js;
         for (int i = 0; i < c; i++) { bool neg = d == 1 && r.flip(); if (neg) enc[i] = -1 - rows[i]; js.push_back(neg ? -(rows[i] + 1) : rows[i] + 1); }
         int col = r.in(0, b - 1); s0 = snap();
         GetBasisElement(M, col, enc, y);
         ev.i("col", col + 1).b("kept", snap() == s0).raw("rows", jint(js)).raw("M", J(M)).raw("y", J(y));
         emit(ev); continue;
      }
      else if (op == "PrintD") { rnd(r, M, a, b, 99999); s0 = snap(); PrintMatrix(M, "m.txt"); Z = readDense("m.txt", a, b); }
      else if (op == "PrintV") { rnd(r, M, a, 1, 99999); Vector v; M.GetColumn(0, v); s0 = snap(); PrintVector(v, "m.txt"); Z = readDense("m.txt", a, 1); }
      else if (op == "PrintS") { sp = sparse(r, a, b, 99); M = dense(*sp); s0 = snap(); PrintMatrix(*sp, "m.txt"); Z = readTriplets("m.txt", a, b); }
      else if (op == "PrintB")
      {
         Array<int> ro(3), co(3); ro[0] = co[0] = 0; ro[1] = a; ro[2] = a + b; co[1] = c; co[2] = c + d;
         BlockMatrix B(ro, co); B.owns_blocks = 1;
         M.SetSize(a + b, c + d); M = 0.0;
         for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (r.in(0, 3)) { SparseMatrix *q = sparse(r, ro[i + 1] - ro[i], co[j + 1] - co[j]); B.SetBlock(i, j, q); M.CopyMN(dense(*q), ro[i], co[j]); }
         s0 = snap(); PrintMatrix(B, "m.txt"); Z = readTriplets("m.txt", a + b, c + d);
      }
      else harness_error("op");
      ev.b("kept", snap() == s0).raw("M", J(M)).raw("R", J(R)).raw("A", J(A)).raw("P", J(P)).raw("T", J(T)).raw("x", J(x)).raw("z", J(z)).raw("y0", J(y0)).raw("y", J(y)).raw("Z0", J(Z0)).raw("Z", J(Z))
         .raw("rows", J(rows, 1)).raw("prows", J(prows, 1));
      emit(ev);
      delete sp;
   }
   return 0;
}
