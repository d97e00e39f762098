// The reduced-order model handler: bases, projections, operators, solves.
//   d_romhandler <scenarios> <dir>
#include "vtu.hpp"
#include "rom_handler.hpp"
#include "num.hpp"
#include "fork.hpp"
#include "faketopo.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <set>

static const vector<string> NAMES = {"part", "part-2", "p"};
static const vector<vector<string>> VARS = {{"solution"}, {"vel", "pres"}};

static int nv; static bool sep; static string order_;
static vector<int> types; static vector<vector<int>> dims;
static int slots() { return sep ? nv : 1; }
static int nsub() { return types.size(); }
static int nblocks() { return nsub() * slots(); }
static int nrefs() { return dims.size() * slots(); }
static int refdim(int r) { int k = r / slots(); if (sep) return dims[k][r % nv]; int s = 0; for (int x : dims[k]) s += x; return s; }

static unique_ptr<FakeTopology> topo;
static unique_ptr<MFEMROMHandler> h;
static vector<DenseMatrix> files;
static vector<pair<int, DenseMatrix>> appended;
static Array<int> offs;

static string tagname(int r) { return NAMES[r / slots()] + (sep ? "_" + VARS[nv - 1][r % nv] : ""); }
static string Jb(const BlockVector &v) { vector<string> r; for (int b = 0; b < v.NumBlocks(); b++) r.push_back(J(v.GetBlock(b))); return jarr(r); }
static string jstr(const vector<string> &v) { return jarr(v); }

// column j of a basis: 1 in row j, zero above, so that columns stay independent
static DenseMatrix columns(Rng &g, int rows, int from, int n)
{
   DenseMatrix m(rows, n); m = 0.0;
   for (int j = 0; j < n; j++)
   {
      m(from + j, j) = g.flip() ? 1 : -1;
      for (int i = from + j + 1; i < rows; i++) m(i, j) = g.in(-1, 1);
   }
   return m;
}
static int domref(int b) { int m, v; h->GetDomainAndVariableIndex(b, m, v); return types[m] * slots() + (sep ? v : 0); }
static int fomof(int b) { int m, v; h->GetDomainAndVariableIndex(b, m, v); return m * slots() + (sep ? v : 0); }
static int domdim(int b) { return refdim(domref(b)); }

static string bases()
{
   vector<string> r;
   for (int k = 0; k < nrefs(); k++) { DenseMatrix *m; h->GetReferenceBasis(k, m); r.push_back(J(*m)); }
   return jarr(r);
}
static string dombases()
{
   vector<string> r;
   for (int b = 0; b < nblocks(); b++) { DenseMatrix *m; h->GetDomainBasis(b, m); r.push_back(J(*m)); }
   return jarr(r);
}
static void open()
{
   h.reset(new MFEMROMHandler(topo.get(), offs, VARS[nv - 1], sep));
}
static YAML::Node numtags;
static int defnum;
static string jtags(const map<int, int> &t) { vector<string> r; for (auto &x : t) r.push_back("{\"r\":" + to_string(x.first + 1) + ",\"n\":" + to_string(x.second) + "}"); return jarr(r); }
static map<int, int> tagn, tagsup;
static int supdef;

static void meta()
{
   vector<long> nums, ref, whole, back; vector<string> index, place;
   for (int r = 0; r < nrefs(); r++) nums.push_back(h->GetRefNumBasis(r));
   for (int m = 0; m < nsub(); m++)
   {
      vector<long> x; for (int v = 0; v < slots(); v++) x.push_back(h->GetBlockIndex(m, v));
      index.push_back(jint(x));
      ref.push_back(h->GetRefIndexForSubdomain(m));
   }
   for (int b = 0; b < nblocks(); b++)
   {
      int m, v; h->GetDomainAndVariableIndex(b, m, v);
      place.push_back(jint({m, v}));
      back.push_back(h->GetBlockIndex(m, v));
   }
   if (!sep) for (int m = 0; m < nsub(); m++) whole.push_back(h->GetBlockIndex(m));
   const Array<int> &o = *h->GetBlockOffsets();
   emit(Ev("Meta").i("default", defnum).raw("tags", jtags(tagn)).raw("nums", jint(nums)).ai("offsets", o, o.Size()).raw("index", jstr(index))
        .raw("place", jstr(place)).raw("back", jint(back)).raw("whole", jint(whole)).raw("ref", jint(ref)));
}
static void load()
{
   h->LoadReducedBasis();
   h->LoadReducedBasis();
   vector<string> f; vector<long> names;
   for (auto &m : files) f.push_back(J(m));
   for (int r = 0; r < nrefs(); r++)
   {
      long k = -1;
      for (int s = 0; s < nrefs(); s++) if (h->GetRefBasisTag(r).print() == tagname(s)) k = s;
      names.push_back(k);
   }
   emit(Ev("Load").i("default", defnum).raw("tags", jtags(tagn)).raw("files", jarr(f)).raw("basis", bases()).raw("dom", dombases()).raw("names", jint(names)));
}
static void append(int r, const DenseMatrix &m)
{
   h->AppendReferenceBasis(r, m);
   vector<long> nums; for (int k = 0; k < nrefs(); k++) nums.push_back(h->GetRefNumBasis(k));
   const Array<int> &o = *h->GetBlockOffsets();
   emit(Ev("Append").i("r", r + 1).raw("cols", J(m)).raw("basis", bases()).raw("dom", dombases()).raw("nums", jint(nums)).ai("offsets", o, o.Size()).b("loaded", h->OperatorLoaded()));
}
static Operator *anyop(Rng &g, int n, int m)
{
   int k = g.in(0, 3);
   if (k == 0) return NULL;
   if (k == 1) { DenseMatrix *d = new DenseMatrix; rnd(g, *d, n, m, 4); return d; }
   return sparse(g, n, m, 4);
}
static string Jo(const Operator *o)
{
   if (!o) return "[]";
   if (const SparseMatrix *s = dynamic_cast<const SparseMatrix *>(o)) return J(dense(*s));
   return J(*dynamic_cast<const DenseMatrix *>(o));
}
static string Jarr(const Array2D<Operator *> &a)
{
   vector<string> r;
   for (int i = 0; i < a.NumRows(); i++) { vector<string> x; for (int j = 0; j < a.NumCols(); j++) x.push_back(Jo(a(i, j))); r.push_back(jarr(x)); }
   return jarr(r);
}
static string Jarr(const Array2D<SparseMatrix *> &a)
{
   vector<string> r;
   for (int i = 0; i < a.NumRows(); i++) { vector<string> x; for (int j = 0; j < a.NumCols(); j++) x.push_back(J(dense(*a(i, j)))); r.push_back(jarr(x)); }
   return jarr(r);
}
static string mono() { return J(dense(*h->GetOperator())); }
static void randvec(Rng &g, Vector &v) { for (int i = 0; i < v.Size(); i++) v(i) = g.in(-4, 4); }

static void vec(Rng &g)
{
   vector<string> refs, doms;
   for (int r = 0; r < nrefs(); r++)
   {
      Vector x, p(h->GetRefNumBasis(r)), u(refdim(r)); rnd(g, x, refdim(r), 4); p = -77.0; u = -77.0;
      h->ProjectToRefBasis(r, x, p); h->LiftUpFromRefBasis(r, p, u);
      refs.push_back("{\"r\":" + to_string(r + 1) + ",\"x\":" + J(x) + ",\"p\":" + J(p) + ",\"u\":" + J(u) + "}");
   }
   const Array<int> &o = *h->GetBlockOffsets();
   for (int b = 0; b < nblocks(); b++)
   {
      Vector x, p(o[b + 1] - o[b]), u(domdim(b)); rnd(g, x, domdim(b), 4); p = -77.0; u = -77.0;
      h->ProjectToDomainBasis(b, x, p); h->LiftUpFromDomainBasis(b, p, u);
      doms.push_back("{\"b\":" + to_string(b + 1) + ",\"x\":" + J(x) + ",\"p\":" + J(p) + ",\"u\":" + J(u) + "}");
   }
   Array<int> fo(nblocks() + 1); fo[0] = 0;
   for (int m = 0, k = 0; m < nsub(); m++) for (int v = 0; v < slots(); v++, k++) fo[k + 1] = fo[k] + refdim(types[m] * slots() + v);
   BlockVector x(fo), u(fo); randvec(g, x); u = -77.0;
   BlockVector *red = g.flip() ? NULL : new BlockVector(fo);
   h->ProjectGlobalToDomainBasis(&x, red);
   string first = Jb(*red);
   h->ProjectGlobalToDomainBasis(&x, red);
   h->LiftUpGlobal(*red, u);
   emit(Ev("Vec").raw("refs", jarr(refs)).raw("doms", jarr(doms)).raw("x", Jb(x)).raw("red", first).raw("red2", Jb(*red)).raw("lift", Jb(u)));
   delete red;
}

static void group(Rng &g, Array2D<SparseMatrix *> &out)
{
   vector<string> kinds = {"refs", "comp", "itf", "doms", "sub", "subs", "all", "single", "singled"};
   if (sep) kinds.push_back("var");
   string op = kinds[g.in(0, kinds.size() - 1)];
   Array<int> a(1), b(1), ri, rj;   // zero-based reference indices of rows and columns
   int S = slots();
   auto sub = [&](int m, Array<int> &r) { for (int v = 0; v < S; v++) r.Append(types[m] * S + v); };
   auto comp = [&](int c, Array<int> &r) { for (int v = 0; v < S; v++) r.Append(c * S + v); };
   if (op == "single") { a[0] = g.in(0, nrefs() - 1); b[0] = g.in(0, nrefs() - 1); ri = a; rj = b; }
   else if (op == "singled") { a[0] = g.in(0, nblocks() - 1); b[0] = g.in(0, nblocks() - 1); ri.Append(domref(a[0])); rj.Append(domref(b[0])); }
   else if (op == "refs") { rnd(g, a, g.in(1, 3), nrefs()); rnd(g, b, g.in(1, 3), nrefs()); ri = a; rj = b; }
   else if (op == "doms") { rnd(g, a, g.in(1, 3), nblocks()); rnd(g, b, g.in(1, 3), nblocks()); for (int x : a) ri.Append(domref(x)); for (int x : b) rj.Append(domref(x)); }
   else if (op == "comp") { a[0] = b[0] = g.in(0, dims.size() - 1); comp(a[0], ri); rj = ri; }
   else if (op == "itf") { a[0] = g.in(0, dims.size() - 1); b[0] = g.in(0, dims.size() - 1); comp(a[0], ri); comp(b[0], ri); rj = ri; }
   else if (op == "sub") { a[0] = b[0] = g.in(0, nsub() - 1); sub(a[0], ri); rj = ri; }
   else if (op == "subs") { a[0] = g.in(0, nsub() - 1); b[0] = g.in(0, nsub() - 1); sub(a[0], ri); sub(b[0], ri); rj = ri; }
   else if (op == "var") { a[0] = g.in(0, nv - 1); b[0] = g.in(0, nv - 1); for (int t : types) { ri.Append(t * nv + a[0]); rj.Append(t * nv + b[0]); } }
   else { a[0] = b[0] = 0; for (int k = 0; k < nblocks(); k++) ri.Append(domref(k)); rj = ri; }
   Array2D<Operator *> mats(ri.Size(), rj.Size());
   for (int i = 0; i < ri.Size(); i++) for (int j = 0; j < rj.Size(); j++) mats(i, j) = anyop(g, refdim(ri[i]), refdim(rj[j]));
   string got, name = op;
   if (op == "single" || op == "singled")
   {
      SparseMatrix *m = op == "single" ? h->ProjectToRefBasis(a[0], b[0], mats(0, 0)) : h->ProjectToDomainBasis(a[0], b[0], mats(0, 0));
      got = jarr({jarr({J(dense(*m))})});
      name = op == "single" ? "refs" : "doms";
      delete m;
   }
   else
   {
      if (op == "refs") h->ProjectToRefBasis(a, b, mats, out);
      else if (op == "doms") h->ProjectToDomainBasis(a, b, mats, out);
      else if (op == "comp") h->ProjectComponentToRefBasis(a[0], mats, out);
      else if (op == "itf") h->ProjectInterfaceToRefBasis(a[0], b[0], mats, out);
      else if (op == "sub") h->ProjectComponentToDomainBasis(a[0], mats, out);
      else if (op == "subs") h->ProjectInterfaceToDomainBasis(a[0], b[0], mats, out);
      else if (op == "var") h->ProjectVariableToDomainBasis(a[0], b[0], mats, out);
      else h->ProjectGlobalToDomainBasis(mats, out);
      got = Jarr(out);
   }
   emit(Ev("Group").s("op", name).raw("a", J(a, 1)).raw("b", J(b, 1)).raw("mats", Jarr(mats)).raw("out", got));
   for (int i = 0; i < ri.Size(); i++) for (int j = 0; j < rj.Size(); j++) delete mats(i, j);
}

// positive definite over all full-order unknowns; symmetric or not; some blocks missing
static void oper(Rng &g, bool symmetric)
{
   int n = nblocks();
   vector<int> off(1, 0);
   for (int b = 0; b < n; b++) off.push_back(off.back() + domdim(b));
   int N = off.back();
   DenseMatrix A(N); A = 0.0;
   Array2D<int> have(n, n); have = 1;
   for (int b = 0; b < n; b++) for (int e = 0; e < b; e++) { have(b, e) = g.in(0, 2); have(e, b) = symmetric ? have(b, e) : g.in(0, 2); }
   for (int b = 0; b < n; b++)
      for (int e = 0; e < n; e++)
         for (int i = off[b]; have(b, e) && i < off[b + 1]; i++)
            for (int j = off[e]; j < off[e + 1]; j++)
               if (i != j && (!symmetric || i > j) && g.in(0, 3) == 0) { A(i, j) = g.flip() ? 1 : -1; if (symmetric) A(j, i) = A(i, j); }
   for (int i = 0; i < N; i++)
   {
      double s = 2;
      for (int j = 0; j < N; j++) if (j != i) s += abs(A(i, j)) + (symmetric ? 0 : abs(A(j, i)));
      A(i, i) = s;
   }
   Array2D<Operator *> mats(n, n);
   for (int b = 0; b < n; b++)
      for (int e = 0; e < n; e++)
      {
         mats(b, e) = NULL;
         if (!have(b, e)) continue;
         SparseMatrix *s = new SparseMatrix(off[b + 1] - off[b], off[e + 1] - off[e]);
         for (int i = off[b]; i < off[b + 1]; i++) for (int j = off[e]; j < off[e + 1]; j++) if (A(i, j) != 0.0) s->Set(i - off[b], j - off[e], A(i, j));
         s->Finalize();
         mats(b, e) = s;
      }
   h->ProjectOperatorOnReducedBasis(mats);
   emit(Ev("Oper").raw("mats", Jarr(mats)).raw("mono", mono()).b("loaded", h->OperatorLoaded()));
   for (int b = 0; b < n; b++) for (int e = 0; e < n; e++) delete mats(b, e);
}

static string numbers(const string &file)
{
   ifstream in(file); vector<long> v; double x;
   while (in >> x) v.push_back(iv(x));
   return jint(v);
}
static string matrix(const string &file, bool mm, int n)
{
   ifstream in(file); string line; DenseMatrix m(n); m = 0.0;
   bool head = mm;
   while (getline(in, line))
   {
      if (line.empty() || line[0] == '%') continue;
      istringstream s(line); double a, b, v;
      s >> a >> b >> v;
      if (head) { if (a != n || b != n) m = 1e5; head = false; continue; }
      if (a < 1 || b < 1 || a > n || b > n) { m = 1e5; continue; }
      m((int) a - 1, (int) b - 1) += v;
   }
   return J(m);
}

static void solve(Rng &g, const string &dir)
{
   const Array<int> &ro = *h->GetBlockOffsets();
   // a right-hand side whose reduced solution is integer: A V y
   SparseMatrix *M = h->GetOperator();
   Vector y, want(M->Height()); rnd(g, y, M->Width(), 3);
   M->Mult(y, want);
   // full-order vector with that projection: basis columns have a leading one (or minus one), solve downwards
   Array<int> fo(nblocks() + 1); fo[0] = 0;
   for (int m = 0, k = 0; m < nsub(); m++) for (int v = 0; v < slots(); v++, k++) fo[k + 1] = fo[k] + refdim(types[m] * slots() + v);
   BlockVector x(fo), u(fo); x = 0.0; u = -77.0;
   for (int b = 0; b < nblocks(); b++)
   {
      DenseMatrix *B; h->GetDomainBasis(b, B);
      Vector &xb = x.GetBlock(fomof(b));
      for (int i = B->NumCols(); i < xb.Size(); i++) xb(i) = g.in(-3, 3);
      for (int j = B->NumCols() - 1; j >= 0; j--)
      {
         double s = want(ro[b] + j);
         for (int i = j + 1; i < xb.Size(); i++) s -= (*B)(i, j) * xb(i);
         xb(j) = s / (*B)(j, j);
      }
   }
   h->ProjectRHSOnReducedBasis(&x);
   string rhs = Jb(*h->GetReducedRHS());
   h->Solve(&u);
   string sol = J(*h->GetReducedSolution());
   emit(Ev("Solve").raw("x", Jb(x)).raw("rhs", rhs).raw("sol", sol).raw("u", Jb(u)));
   string type = g.flip() ? "mm" : "matlab", pre = dir + "/system";
   h->SaveRomSystem(pre, type);
   h->SaveReducedRHS(dir + "/rhs.txt"); h->SaveReducedSolution(dir + "/sol.txt");
   emit(Ev("Files").raw("rhs", numbers(pre + "_rhs.txt")).raw("sol", numbers(pre + "_sol.txt")).raw("rhs2", numbers(dir + "/rhs.txt")).raw("sol2", numbers(dir + "/sol.txt"))
        .raw("want", sol).raw("mat", matrix(pre + "_mat." + type, type == "mm", M->Height())));
}

class Cubic : public Operator
{
   const SparseMatrix &A; bool hypre; HYPRE_BigInt starts[2];
   mutable unique_ptr<SparseMatrix> jac; mutable unique_ptr<HypreParMatrix> par;
public:
   Cubic(const SparseMatrix &a, bool h_) : Operator(a.Height()), A(a), hypre(h_) { starts[0] = 0; starts[1] = a.Height(); }
   void Mult(const Vector &x, Vector &y) const override { A.Mult(x, y); for (int i = 0; i < x.Size(); i++) y(i) += x(i) * x(i) * x(i); }
   Operator &GetGradient(const Vector &x) const override
   {
      SparseMatrix D(A.Height());
      for (int i = 0; i < x.Size(); i++) D.Set(i, i, 3 * x(i) * x(i));
      D.Finalize();
      jac.reset(Add(A, D));
      if (!hypre) return *jac;
      par.reset(new HypreParMatrix(MPI_COMM_SELF, starts[1], (HYPRE_BigInt *) starts, jac.get()));
      return *par;
   }
};

static void nonlin(Rng &g, YAML::Node conf, bool direct, bool symmetric)
{
   SparseMatrix *M = h->GetOperator();
   int n = M->Height();
   Array<int> fo(nblocks() + 1); fo[0] = 0;
   for (int m = 0, k = 0; m < nsub(); m++) for (int v = 0; v < slots(); v++, k++) fo[k + 1] = fo[k] + refdim(types[m] * slots() + v);
   BlockVector u(fo), zero(fo); zero = 0.0;
   randvec(g, u);
   string u0 = Jb(u);
   h->ProjectRHSOnReducedBasis(&zero);
   Vector y; rnd(g, y, n, 2);
   Cubic F(*M, direct);
   F.Mult(y, *h->GetReducedRHS());
   bool restart = g.flip(), gs = !direct && g.flip();
   int steps = g.in(0, 2) ? 60 : 0;
   string how = steps && symmetric && g.in(0, 2) == 0 ? "cg" : "newton";
   if (how == "cg") steps = 3000;
   conf["solver"]["use_restart"] = restart;
   conf["solver"]["max_iter"] = steps;
   conf["model_reduction"]["nonlinear_solver_type"] = how;
   conf["model_reduction"]["preconditioner"] = gs ? "gs" : "none";
   config.dict_ = conf;
   string rhs = J(*h->GetReducedRHS());
   GSSmoother prec;
   h->NonlinearSolve(F, &u, gs ? &prec : NULL);
   // the initial perturbation is small, not zero
   vector<long> sol; Vector &s = *h->GetReducedSolution();
   vector<string> ub;
   for (int i = 0; i < n; i++) sol.push_back(iv(s(i), 1e-3));
   for (int b = 0; b < u.NumBlocks(); b++) { vector<long> t; for (int i = 0; i < u.BlockSize(b); i++) t.push_back(iv(u.GetBlock(b)(i), 2e-2)); ub.push_back(jint(t)); }
   emit(Ev("Nonlin").i("steps", steps).b("restart", restart).raw("u0", u0).raw("rhs", rhs).raw("sol", jint(sol)).raw("u", jarr(ub)));
}

static void vis(const string &dir, YAML::Node conf)
{
   // continuous linear elements on five segments have six values, piecewise constants five
   Mesh mesh = Mesh::MakeCartesian1D(5), mesh6 = Mesh::MakeCartesian1D(6);
   H1_FECollection h1(1, 1); L2_FECollection l2(0, 1), l21(1, 1);
   vector<unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> fes;
   for (int t : types)
      for (int v = 0; v < nv; v++)
      {
         own.emplace_back(new FiniteElementSpace(&mesh, dims[t][v] == 6 ? (FiniteElementCollection *) &h1 : &l2));
         fes.Append(own.back().get());
      }
   static int count = 0;
   string pre = dir + "/vis" + to_string(count++);
   conf["basis"]["visualization"]["prefix"] = pre;
   config.dict_ = conf;
   h->SaveBasisVisualization(fes, VARS[nv - 1]);
   vector<string> all;
   for (int r = 0; r < nrefs(); r++)
   {
      ifstream in(pre + "_" + to_string(r) + "/Cycle000000/proc000000.vtu");
      string line, name; vector<string> fields;
      while (getline(in, line))
      {
         size_t p = line.find("Name=\"");
         if (p != string::npos) { name = line.substr(p + 6); name = name.substr(0, name.find('"')); continue; }
         for (size_t v = 0; v < VARS[nv - 1].size(); v++)
         {
            string head = VARS[nv - 1][v] + "_basis_";
            if (name.compare(0, head.size(), head) || line.find('<') != string::npos) continue;
            vector<long> vals; for (double x : decode(line)) vals.push_back(iv(x));
            fields.push_back("{\"v\":" + to_string(v + 1) + ",\"k\":" + to_string(atoi(name.c_str() + head.size()) + 1) + ",\"vals\":" + jint(vals) + "}");
            name = "";
         }
      }
      all.push_back(jarr(fields));
   }
   emit(Ev("Vis").raw("fields", jarr(all)));
}

static void scenario(YAML::Node s, int num, const string &dir)
{
   Rng g(num * 7919 + 13);
   YAML::Node cf = s["c"];
   nv = cf["nv"].as<int>(); sep = cf["sep"].as<bool>(); order_ = cf["order"].as<string>();
   types.clear(); dims.clear(); files.clear(); appended.clear(); tagn.clear(); tagsup.clear();
   for (auto x : cf["types"]) types.push_back(x.as<int>() - 1);
   for (auto x : cf["dims"]) { dims.push_back({}); for (auto y : x) dims.back().push_back(y.as<int>()); }
   defnum = cf["num"].as<int>();
   vector<string> tj, dj;
   for (auto &d : dims) dj.push_back(jint(vector<long>(d.begin(), d.end())));
   vector<long> t1; for (int t : types) t1.push_back(t + 1);
   emit(Ev("Begin").i("nv", nv).b("sep", sep).s("order", order_).raw("types", jint(t1)).raw("dims", jarr(dj)).i("num", num));
   // configuration
   YAML::Node conf = YAML::Load("{basis: {visualization: {enabled: true}}, model_reduction: {save_operator: {level: global, prefix: op}}, solver: {max_iter: 5000, relative_tolerance: 1.0e-13, absolute_tolerance: 1.0e-13, jacobian: {relative_tolerance: 1.0e-13, absolute_tolerance: 1.0e-13}}}");
   conf["basis"]["prefix"] = dir + "/basis";
   if (defnum > 0) conf["basis"]["number_of_basis"] = defnum;
   supdef = g.flip() ? g.in(1, 4) : -1;
   if (supdef > 0) conf["basis"]["number_of_supremizer"] = supdef;
   if (order_ != "domain" || g.flip()) conf["model_reduction"]["ordering"] = order_;
   YAML::Node tags = YAML::Load("[{name: other, number_of_basis: 4}, {name: part_vel_, number_of_basis: 5}]");
   vector<int> at; for (int r = 0; r < nrefs(); r++) at.push_back(r);
   for (int k = at.size() - 1; k > 0; k--) swap(at[k], at[g.in(0, k)]);
   for (int r : at)
   {
      int n = cf["tag"][r].as<int>();
      if (defnum <= 0 && n == 0) n = 1;
      YAML::Node e; e["name"] = tagname(r);
      bool use = false;
      if (n) { tagn[r] = n; e["number_of_basis"] = n; use = true; }
      if (sep && nv == 2 && g.in(0, 2) == 0) { tagsup[r] = g.in(1, 4); e["number_of_supremizer"] = tagsup[r]; use = use || defnum > 0; }
      if (use) tags.push_back(e); else tagsup.erase(r);
   }
   conf["basis"]["tags"] = tags;
   string ls = cf["ls"].as<string>(), pr = cf["pr"].as<string>(), mt = cf["mt"].as<string>();
   if (ls == "minres" && (pr == "block_gs" || pr == "gs")) pr = "block_jacobi";
   if (ls == "direct") conf["model_reduction"]["linear_system_type"] = mt;
   if (ls != "cg" || g.flip()) conf["model_reduction"]["linear_solver_type"] = ls;
   if (ls != "direct" && (pr != "none" || g.flip())) conf["model_reduction"]["preconditioner"] = pr;
   const bool symmetric = ls != "direct" || mt != "us";
   config.dict_ = YAML::Clone(conf);
   // files: more columns than asked for
   for (int r = 0; r < nrefs(); r++)
   {
      int n = tagn.count(r) ? tagn[r] : defnum, w = min(n + cf["full"].as<int>() - 1, refdim(r));
      files.push_back(columns(g, refdim(r), 0, w));
      CAROM::Matrix m(refdim(r), w, true);
      for (int i = 0; i < refdim(r); i++) for (int j = 0; j < w; j++) m(i, j) = files.back()(i, j);
      CAROM::standin_write(dir + "/basis_" + tagname(r), "spatial_basis", m);
   }
   topo.reset(new FakeTopology(vector<int>(t1.begin(), t1.end()), {}, vector<string>(NAMES.begin(), NAMES.begin() + dims.size())));
   offs.SetSize(1); offs[0] = 0;
   for (int t : types) for (int d : dims[t]) offs.Append(offs.Last() + d);
   open();
   meta();
   Array2D<SparseMatrix *> out;
   for (auto o : s["ops"])
   {
      string op = o["op"].as<string>();
      if (op == "early")
      {
         int k = g.in(0, 3);
         bool ok = survives([&]() {
            if (k == 0) { Vector x(refdim(0)), p(h->GetRefNumBasis(0)); x = 0.0; h->ProjectToRefBasis(0, x, p); }
            if (k == 1) { Vector x(domdim(0)), p((*h->GetBlockOffsets())[1]); p = 0.0; h->LiftUpFromDomainBasis(0, p, x); }
            if (k == 2) { SparseMatrix *A = sparse(g, domdim(0), domdim(0)); h->ProjectToDomainBasis(0, 0, A); }
            if (k == 3) h->GetOperator(); });
         emit(Ev("Early").b("ok", ok));
      }
      else if (op == "load") load();
      else if (op == "vec") vec(g);
      else if (op == "group") group(g, out);
      else if (op == "oper") oper(g, symmetric);
      else if (op == "solve") solve(g, dir);
      else if (op == "nonlin") { nonlin(g, YAML::Clone(conf), ls == "direct", symmetric); config.dict_ = YAML::Clone(conf); }
      else if (op == "save") { h->SaveOperator(dir + "/op.h5"); emit(Ev("Save")); }
      else if (op == "loadop")
      {
         bool ok = survives([&]() { h->LoadOperatorFromFile(dir + "/op.h5"); });
         if (!ok) { emit(Ev("NoFit").b("ok", ok)); continue; }
         h->LoadOperatorFromFile(dir + "/op.h5");
         emit(Ev("LoadOp").raw("mono", mono()).b("loaded", h->OperatorLoaded()));
      }
      else if (op == "append")
      {
         int r = o["r"].as<int>() - 1, n = h->GetRefNumBasis(r);
         if (n >= refdim(r)) harness_error("basis too wide");
         DenseMatrix m = columns(g, refdim(r), n, g.in(1, min(2, refdim(r) - n)));
         if (appended.size() && m.NumCols() > 1) m = columns(g, refdim(r), n, 1);
         if (m.NumCols() > 1 && n + 2 >= refdim(r)) m = columns(g, refdim(r), n, 1);
         if (g.in(0, 3) == 0)
         { DenseMatrix bad(refdim(r) + 1, 1); bad = 1.0; bool ok = survives([&]() { h->AppendReferenceBasis(r, bad); }); emit(Ev("BadAppend").b("ok", ok)); }
         appended.push_back({r, m});
         append(r, m);
      }
      else if (op == "reopen")
      {
         emit(Ev("Reopen"));
         h.reset();
         open();
         meta();
         load();
         if (o["again"].as<bool>()) for (auto &a : appended) append(a.first, a.second);
         else appended.clear();
      }
      else if (op == "vis" && dims[0][0] == 6) { vis(dir, YAML::Clone(conf)); config.dict_ = YAML::Clone(conf); }
      else if (op == "sup")
      {
         if (!sep || nv != 2) continue;
         Array<int> a, b;
         h->ParseSupremizerInput(a, b);
         map<int, int> t; for (auto &x : tagsup) if (x.first % 2) t[x.first] = x.second;
         emit(Ev("Sup").i("default", supdef).raw("tags", jtags(t)).ai("ref", a, a.Size()).ai("sub", b, b.Size()));
      }
   }
   for (int i = 0; i < out.NumRows(); i++) for (int j = 0; j < out.NumCols(); j++) delete out(i, j);
   h.reset();
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   tf();
   ifstream in(argv[1]); string line; int num = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      num++;
      string dir = string(argv[2]) + "/" + to_string(num);
      mkdir(dir.c_str(), 0755);
      scenario(YAML::Load(line), num, dir);
   }
   MPI_Finalize();
   return 0;
}
