// Reduced-order models at every building level, against exact solutions and the full model.
//   d_reduced <scenarios> <dir>
#include "polyprob.hpp"
#include "fork.hpp"
#include <sys/stat.h>
#include <unistd.h>

static string js(const YAML::Node &n)
{
   if (n.IsSequence()) { vector<string> r; for (auto x : n) r.push_back(js(x)); return jarr(r); }
   if (n.IsMap()) { string r; for (auto x : n) r += (r.empty() ? "" : ",") + q(x.first.as<string>()) + ":" + js(x.second); return "{" + r + "}"; }
   string s = n.as<string>(); char *e = NULL; strtol(s.c_str(), &e, 10);
   return s == "true" || s == "false" || (s.size() && !*e) ? s : q(s);
}
static DenseMatrix randoms(Rng &r, int n, int k) { DenseMatrix m(n, k); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) m(i, j) = r.in(-1000, 1000) / 1000.0; return m; }
static void orthonormal(DenseMatrix &m)
{
   for (int j = 0; j < m.Width(); j++)
   {
      Vector x; m.GetColumnReference(j, x);
      for (int pass = 0; pass < 2; pass++)
         for (int k = 0; k < j; k++) { Vector y; m.GetColumnReference(k, y); x.Add(-(x * y), y); }
      double s = x.Norml2();
      if (s < 1e-8) harness_error("dependent basis");
      x /= s;
   }
}
static YAML::Node S; static vector<int> labels, at; static bool comp, full, sep; static int num;
static Field other[8];
// data of problem k; boundary data of another problem on some labels when rough
static void choose(int k, bool rough)
{
   YAML::Node P = S["Ps"][k];
   U_ = field(P["u"]); W_ = field(P["w"]); SRC = field(S["srcs"][k]); Q_ = Field{poly(P["q"])};
   TYPES = {""}; for (auto t : S["c"]["types"][k]) TYPES.push_back(t.as<string>());
   Field V = field(S["Ps"][1 - k]["u"]);
   for (int l = 1; l < 8; l++) BC[l] = rough && l % 2 ? V : U_;
   if (pde == "linelast")
      for (size_t s = 0; s < at.size(); s++) if (TYPES[at[s]] == "neumann") BC[at[s]] = field(S["fluxes"][k][s]);
}
static MultiBlockSolver *fresh()
{
   MultiBlockSolver *s = pde == "poisson" ? (MultiBlockSolver *) new PoissonSolver : pde == "linelast" ? (MultiBlockSolver *) new LinElastSolver : pde == "stokes" ? (MultiBlockSolver *) new StokesSolver
                       : pde == "ns" ? (MultiBlockSolver *) new SteadyNSSolver : (MultiBlockSolver *) new AdvDiffSolver;
   s->InitVariables();
   return s;
}
static vector<unique_ptr<Problem>> probs;
static void setup(MultiBlockSolver *s, Rng &r)
{
   if (pde == "advdiff") dynamic_cast<AdvDiffSolver *>(s)->SetFlowAtSubdomain(flowV);
   probs.emplace_back(new Problem(r, labels, pde == "poisson" || pde == "advdiff"));
   s->SetParameterizedProblem(probs.back().get());
}
static void level(const string &l)
{
   config.SetOption<string>("model_reduction/save_operator/level", l);
   config.SetOption<string>("model_reduction/save_operator/prefix", "op_" + l);
}
static void build(const string &l, Rng r)
{
   unique_ptr<MultiBlockSolver> s(fresh());
   s->InitROMHandler();
   setup(s.get(), r);
   s->BuildOperators(); s->SetupBCOperators();
   s->LoadReducedBasis();
   if (s->IsNonlinear()) s->AllocateROMNlinElems();
   if (l == "global") { s->Assemble(); s->ProjectOperatorOnReducedBasis(); s->SaveROMOperator("op_global.h5"); }
   else
   {
      if (!comp) mfem_error("not for submeshes");
      s->BuildROMLinElems(); s->SaveROMLinElems("op_component.h5");
      if (s->IsNonlinear()) { s->BuildROMTensorElems(); s->SaveROMNlinElems("op_component"); }
   }
}
static double norm(const SparseMatrix &m) { double a = 0; for (int i = 0; i < m.NumNonZeroElems(); i++) a = max(a, fabs(m.GetData()[i])); return a; }
static void run(const string &l, Rng r, Ev &e)
{
   sol.reset(fresh());
   MultiBlockSolver *s = sol.get();
   s->InitROMHandler();
   setup(s, r);
   s->BuildRHSOperators(); s->SetupRHSBCOperators(); s->AssembleRHS();
   s->LoadReducedBasis();
   if (s->IsNonlinear()) s->AllocateROMNlinElems();
   if (l == "component")
   {
      s->LoadROMLinElems("op_component.h5"); s->AssembleROMMat();
      if (s->IsNonlinear()) { s->LoadROMNlinElems("op_component"); s->AssembleROMNlinOper(); }
   }
   else if (l == "global") s->LoadROMOperatorFromFile("op_global.h5");
   else { s->BuildDomainOperators(); s->SetupDomainBCOperators(); s->AssembleOperator(); s->ProjectOperatorOnReducedBasis(); }
   s->ProjectRHSOnReducedBasis();
   s->SolveROM();
   SparseMatrix M(*s->GetROMHandler()->GetOperator());
   unique_ptr<BlockVector> u(s->GetSolutionCopy());
   e.raw("pts", points(r));
   // the full model in the same session
   s->BuildDomainOperators(); s->SetupDomainBCOperators(); s->AssembleOperator();
   bool conv = s->Solve();
   vector<long> er;
   for (int v = 0; v < NV; v++)
   {
      double d = 0.0, z = 1.0; bool fin = true;
      for (int m = 0; m < NS; m++)
      {
         const Vector &x = u->GetBlock(m * NV + v), &y = s->GetSolution()->GetBlock(m * NV + v);
         for (int i = 0; i < x.Size(); i++) { fin = fin && std::isfinite(x(i)); d = max(d, fabs(x(i) - y(i))); z = max(z, fabs(y(i))); }
      }
      er.push_back(fin && d / z < 100 ? fx(d / z, 1e6) : 999999999);
   }
   // the operator projected from the full one
   s->ProjectOperatorOnReducedBasis();
   SparseMatrix &T = *s->GetROMHandler()->GetOperator();
   bool same = M.Height() == T.Height() && M.Width() == T.Width();
   if (same) { unique_ptr<SparseMatrix> D(Add(1.0, M, -1.0, T)); same = norm(*D) < 1e-10 * norm(T); }
   e.b("conv", conv).ai("err", er).b("same", same).i("size", T.Height());
   s->CopySolution(u.get());
}

static void scenario(const YAML::Node &n)
{
   S = n;
   Rng r(num * 7 + n["c"]["seed"].as<int>() * 31);
   const YAML::Node P = n["Ps"][0], c = n["c"];
   pde = P["pde"].as<string>(); dim = P["dim"].as<int>();
   LAM = P["a"].as<double>(); MU = P["b"].as<double>(); shift = 0.0; unit = 1.0;
   at = c["attr"].as<vector<int>>(); labels = at;
   comp = n["lay"].as<string>() == "comp"; full = c["full"].as<bool>(); sep = c["sep"].as<bool>();
   config = InputParser();
   int nsub; bool rel = false;
   if (comp)
   {
      YAML::Node y; for (auto k : {"seed", "nc", "n", "gx", "gy", "gz", "simplex", "turn"}) y[k] = c[k];
      y["dim"] = dim; y["ref"] = 0; y["whole"] = flowp(); y["uniform"] = pde == "ns";
      int g = c["gx"].as<int>() * c["gy"].as<int>(); if (c["nc"].as<int>() > g) y["nc"] = g;
      unique_ptr<CompScenario> cs(makeScenario(y));
      cs->tilt = 0;
      LEN = {(int) cs->size * c["gx"].as<int>(), (int) cs->size * c["gy"].as<int>(), (int) cs->size};
      for (auto &b : cs->bdrs) { int s = globalSide(*cs, b.m, b.s); b.gattr = s < 0 ? 7 : at[s]; }
      for (auto &u : cs->uses) rel = rel || cs->place[u.m1].q != cs->place[u.m2].q;
      labels.clear(); for (auto &b : cs->bdrs) labels.push_back(b.gattr);
      writeConfig(*cs, randomLayout(r, *cs), "cfg");
      nsub = cs->type.size();
   }
   else
   {
      unique_ptr<Mesh> m(rect(r, c));
      ofstream o("box.mesh"); o.precision(17); m->Print(o); o.close();
      config.SetOption<string>("mesh/filename", "box.mesh");
      config.SetOption<string>("mesh/type", "submesh");
      nsub = m->attributes.Max();
   }
   sort(labels.begin(), labels.end()); labels.erase(unique(labels.begin(), labels.end()), labels.end());
   config.SetOption<string>("parameterized_problem/name", "p");
   config.SetOption<int>("discretization/order", n["order"].as<int>());
   config.SetOption<bool>("discretization/full-discrete-galerkin", n["dg"].as<bool>());
   config.SetOption<bool>("solver/direct_solve", true);
   config.SetOption<bool>("solver/use_amg", false);
   config.SetOption<double>("solver/relative_tolerance", pde == "ns" ? 1e-12 : 1e-13);
   config.SetOption<double>("solver/absolute_tolerance", 1e-12);
   config.SetOption<int>("solver/max_iter", pde == "ns" ? 60 : 20000);
   config.SetOption<bool>("model_reduction/separate_variable_basis", sep);
   if (flowp()) config.SetOption<double>("stokes/nu", LAM);
   if (pde == "ns") { config.SetOption<double>("navier-stokes/zeta", MU); config.SetOption<string>("navier-stokes/operator-type", "base"); config.SetOption<string>("model_reduction/nonlinear_handling", "tensor"); }
   if (pde == "advdiff") config.SetOption<double>("adv-diff/peclet_number", LAM);
   function_factory::flow_problem::nu = LAM;
   function_factory::advdiff_problem::analytic_flow = true;
   choose(0, false);
   sol.reset(fresh());
   NV = sol->GetNumVar(); NS = sol->GetNumSubdomains();
   // ---- bases
   config.SetOption<bool>("main/use_rom", true);
   config.SetOption<string>("basis/prefix", "b/x");
   mkdir("b", 0755);
   if (c["ordering"].as<string>() == "variable" || r.flip()) config.SetOption<string>("model_reduction/ordering", c["ordering"].as<string>());
   string ls = c["ls"].as<string>(), ty = c["type"].as<string>();
   config.SetOption<string>("model_reduction/linear_solver_type", ls);
   if (ls == "direct") config.SetOption<string>("model_reduction/linear_system_type", ty);
   TopologyHandler *th = sol->GetTopologyHandler();
   vector<string> vars = flowp() ? vector<string>{"vel", "pres"} : vector<string>{"solution"};
   YAML::Node tags;
   int slots = sep ? NV : 1; map<int, long> sizes;
   bool sup = false;
   for (int k : shuffled(r, th->GetNumComponents()))
   {
      int m0 = 0; while (th->GetMeshType(m0) != k) m0++;
      for (int v = 0; v < slots; v++)
      {
         FiniteElementSpace *fes = sol->GetGridFunction(m0 * NV + v)->FESpace();
         int D = fes->GetVSize();
         if (!sep) for (int w = 1; w < NV; w++) D += sol->GetGridFunction(m0 * NV + w)->FESpace()->GetVSize();
         int use; DenseMatrix B;
         if (full) { use = D; B = randoms(r, D, D); }
         else
         {  // all polynomials, mixed, and something else
            vector<vector<int>> ex; int o = n["order"].as<int>();
            for (int i = 0; i <= o; i++) for (int j = 0; i + j <= o; j++) for (int l = 0; i + j + l <= (dim == 3 ? o : i + j); l++) ex.push_back({i, j, l});
            int vd = fes->GetVDim(), np = ex.size() * vd;
            DenseMatrix X(D, np), M = randoms(r, np, np); orthonormal(M);
            for (int a = 0; a < np; a++)
            {
               Poly p = {{1.0, ex[a / vd]}}; int cpt = a % vd;
               VectorFunctionCoefficient f(vd, [&](const Vector &x, Vector &y) { y = 0.0; y(cpt) = eval(p, x); });
               FunctionCoefficient g([&](const Vector &x) { return eval(p, x); });
               GridFunction gf(fes);
               if (vd > 1) gf.ProjectCoefficient(f); else gf.ProjectCoefficient(g);
               for (int i = 0; i < D; i++) X(i, a) = gf(i);
            }
            if (np > D) harness_error("space too small");
            use = min(D, np + r.in(0, 2));
            B = randoms(r, D, min(D, use + r.in(0, 2)));
            // the polynomials are spread over the columns in use
            DenseMatrix Y(D, np); Mult(X, M, Y);
            vector<int> pos = shuffled(r, use);
            for (int a = 0; a < np; a++) for (int i = 0; i < D; i++) B(i, pos[a]) = Y(i, a);
         }
         orthonormal(B);
         int keep = use, ns = 0;
         if (full && sep && flowp() && v == 0)
         {
            FiniteElementSpace *pf = sol->GetGridFunction(m0 * NV + 1)->FESpace();
            ns = min(pf->GetVSize(), D - 1); keep = D - ns; sup = true;
            DenseMatrix Z(D, D - keep + r.in(0, 1)); Z = 0.5;
            for (int j = keep; j < D; j++) for (int i = 0; i < D; i++) Z(i, j - keep) = B(i, j);
            hid_t f = H5Fcreate(("b/x_" + th->GetComponentName(k) + "_sup.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            hdf5_utils::WriteDataset(f, "supremizer_basis", Z);
            H5Fclose(f);
            DenseMatrix C(D, keep + r.in(0, 1)); C = 0.25;
            for (int j = 0; j < keep; j++) for (int i = 0; i < D; i++) C(i, j) = B(i, j);
            B = C;
         }
         string tag = th->GetComponentName(k) + (sep ? "_" + vars[v] : string(""));
         CAROM::Matrix m(D, B.Width(), true);
         for (int i = 0; i < D; i++) for (int j = 0; j < B.Width(); j++) m(i, j) = B(i, j);
         CAROM::standin_write("b/x_" + tag, "spatial_basis", m);
         YAML::Node t; t["name"] = tag; t["number_of_basis"] = keep;
         if (sup && v == 1) { int d = sol->GetGridFunction(m0 * NV)->FESpace()->GetVSize(); if (d - 1 < D) t["number_of_supremizer"] = d - 1; }
         tags.push_back(t);
         sizes[k] += use;
      }
   }
   config.dict_["basis"]["tags"] = tags;
   long size = 0; for (int m = 0; m < NS; m++) size += sizes[th->GetMeshType(m)];
   sol.reset();
   emit(Ev("Begin").raw("Ps", js(n["Ps"])).raw("types", js(c["types"])).b("comp", comp).b("full", full).b("sep", sep).i("nsub", NS).i("nsubs", nsub).i("nvar", NV).b("rel", rel).i("size", size));
   bool have_g = false, have_c = false;
   for (auto o : n["ops"])
   {
      string op = o["op"].as<string>(), l = o["level"].as<string>(); int k = o["k"].as<int>();
      bool rough = full && o["rough"].as<bool>(); int ds = r.in(1, 99999);
      level(l); choose(k, rough);
      if (op == "build")
      {
         bool may = l == "global" || (comp && pde != "advdiff");
         bool ok = may;
         if (!may) ok = survives([&]() { build(l, Rng(ds)); }); else build(l, Rng(ds));
         emit(Ev("Build").s("level", l).i("k", k + 1).b("ok", ok));
         if (ok) (l == "global" ? have_g : have_c) = true;
      }
      else
      {
         bool may = l == "none" || (l == "global" ? have_g : have_c);
         Ev e("Run"); e.s("op", pde + "-" + l).s("level", l).i("k", k + 1).b("rough", rough);
         if (!may) { Ev d("x"); e.b("ok", survives([&]() { run(l, Rng(ds), d); })); }
         else { e.b("ok", true); run(l, Rng(ds), e); }
         emit(e);
         sol.reset();
      }
   }
   probs.clear();
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   tf();
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      num++;
      string dir = string(argv[2]) + "/" + to_string(num);
      mkdir(dir.c_str(), 0755);
      if (chdir(dir.c_str())) harness_error("chdir");
      scenario(YAML::Load(line));
   }
   MPI_Finalize();
   return 0;
}
