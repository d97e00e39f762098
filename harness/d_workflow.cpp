// The stages of the driver: sample generation, training, building, single runs.
//   d_workflow <scenarios> <dir>
#include "polyprob.hpp"
#include "fork.hpp"
#include "flowcoef.hpp"
#include "cfgdump.hpp"
#include "main_workflow.hpp"
#include <sys/stat.h>
#include <unistd.h>

static YAML::Node S; static int num;
static string prob, name; static double X[3];   // parameters of the reference problem
// the data of the reference problems, written independently
static double tau(double a) { return sin(2.0 * M_PI * a); }
static double sum(const Vector &x) { double s = 0; for (int d = 0; d < x.Size(); d++) s += x(d); return s; }
static double rRhs(const Vector &x, double) { return prob == "poisson0" ? tau(X[0] / 2 * sum(x) + X[1] / 4) : tau(0.5 * x(0) + X[0] / 4); }
static double rBdr(const Vector &x, double) { return tau(X[2] / 2 * x(0) + X[1] / 4); }
static double rLam(const Vector &, double) { return X[1]; }
static double rMu(const Vector &, double) { return X[2]; }
static void rDisp(const Vector &x, double, Vector &y) { y = 0.0; y(y.Size() - 1) = -0.2 * x(0) * X[0]; }
static void rIn(const Vector &x, double, Vector &y) { y.SetSize(2); y = 0.0; double c = (x(1) - 0.5); y(0) = X[0] * (1.0 - 4.0 * c * c); }
static double rConc(const Vector &x, double) { return X[1] + X[2] * sin(2.0 * M_PI * (0.5 * x(0) + 0.25 * x(1) + 0.125)); }
static void rStream(const Vector &, double, Vector &y) { y.SetSize(2); y(0) = X[0]; y(1) = 0.0; }
static void rForce(const Vector &x, double, Vector &y) { y.SetSize(2); y(0) = X[0]; y(1) = X[1]; }
struct Ref : public PoissonProblem
{
   void put(int l, BoundaryType t, function_factory::GeneralScalarFunction *s, function_factory::GeneralVectorFunction *v)
   { battr.Append(l); bdr_type.Append(t); scalar_bdr_ptr.Append(s); vector_bdr_ptr.Append(v); }
   Ref()
   {
      battr.SetSize(0); bdr_type.SetSize(0); scalar_bdr_ptr.SetSize(0); vector_bdr_ptr.SetSize(0); general_scalar_ptr.SetSize(0); general_vector_ptr.SetSize(0);
      scalar_rhs_ptr = NULL; vector_rhs_ptr = NULL;
      BoundaryType Z = BoundaryType::ZERO, D = BoundaryType::DIRICHLET, N = BoundaryType::NEUMANN;
      if (prob == "poisson0") { scalar_rhs_ptr = rRhs; put(-1, Z, NULL, NULL); }
      else if (prob == "poisson_component") { scalar_rhs_ptr = rRhs; put(-1, D, rBdr, NULL); }
      else if (prob == "linelast_disp") { put(1, D, NULL, rDisp); put(2, D, NULL, rDisp); put(3, Z, NULL, NULL); general_scalar_ptr.Append(rLam); general_scalar_ptr.Append(rMu); general_vector_ptr.Append(NULL); }
      else if (prob == "advdiff") for (int l = 1; l < 6; l++) put(l, l == 3 || l == 4 ? D : N, l == 3 || l == 4 ? rConc : NULL, NULL);
      else if (prob == "force_driven_corner" || prob == "nsf") { vector_rhs_ptr = rForce; for (int l = 1; l < 6; l++) put(l, l == 3 || l == 4 ? N : Z, NULL, NULL); }
      else for (int l = 1; l < 6; l++) put(l, l == 2 ? N : l == 4 ? D : Z, NULL, l == 4 ? rIn : NULL);
   }
};
static MultiBlockSolver *fresh()
{
   MultiBlockSolver *s = pde == "poisson" ? (MultiBlockSolver *) new PoissonSolver : pde == "linelast" ? (MultiBlockSolver *) new LinElastSolver : pde == "advdiff" ? (MultiBlockSolver *) new AdvDiffSolver : pde == "stokes" ? (MultiBlockSolver *) new StokesSolver : (MultiBlockSolver *) new SteadyNSSolver;
   s->InitVariables();
   return s;
}
static vector<vector<int>> cands; static vector<unique_ptr<BlockVector>> refs;
static double scale(int i);
static double nuOf(const vector<int> &x) { return prob == "force_driven_corner" || prob == "nsf" ? x[2] * scale(2) : x[1] * scale(1); }
static void reference(const vector<int> &x)
{
   for (int i = 0; i < 3; i++) X[i] = x[i];
   if (flowp()) { config.SetOption<double>("stokes/nu", nuOf(x)); function_factory::flow_problem::nu = nuOf(x); }
   unique_ptr<MultiBlockSolver> s(fresh());
   Ref ref;
   if (pde == "advdiff") { function_factory::advdiff_problem::analytic_flow = true; dynamic_cast<AdvDiffSolver *>(s.get())->SetFlowAtSubdomain(rStream); }
   s->SetParameterizedProblem(&ref);
   s->BuildOperators(); s->SetupBCOperators(); s->Assemble();
   if (!s->Solve()) harness_error("reference");
   // (in a vector with the block offsets of a solver that stays)
   unique_ptr<BlockVector> u(s->GetSolutionCopy());
   refs.emplace_back(sol->GetSolutionCopy());
   for (int b = 0; b < u->NumBlocks(); b++) refs.back()->GetBlock(b) = u->GetBlock(b);
   if (flowp()) config.SetOption<double>("stokes/nu", 77.0);
}
// relative distance of two solutions (largest over the variables), by quadrature of its own
static double distance(const BlockVector &a, const BlockVector &b)
{
   double worst = 0;
   for (int v = 0; v < NV; v++)
   {
      double d = 0, z = 0;
      for (int m = 0; m < NS; m++)
      {
         FiniteElementSpace *fes = sol->GetGridFunction(m * NV + v)->FESpace();
         Vector av(const_cast<BlockVector &>(a).GetBlock(m * NV + v)), bv(const_cast<BlockVector &>(b).GetBlock(m * NV + v)), loc, val, w;
         GridFunction ga(fes, av), gb(fes, bv);
         for (int e = 0; e < fes->GetNE(); e++)
         {
            ElementTransformation *T = fes->GetElementTransformation(e);
            const IntegrationRule &ir = IntRules.Get(fes->GetFE(e)->GetGeomType(), 2 * fes->GetFE(e)->GetOrder() + 5);
            for (int i = 0; i < ir.GetNPoints(); i++)
            {
               const IntegrationPoint &ip = ir.IntPoint(i); T->SetIntPoint(&ip);
               if (fes->GetVDim() == 1) { val.SetSize(1); w.SetSize(1); val(0) = ga.GetValue(*T, ip); w(0) = gb.GetValue(*T, ip); } else { ga.GetVectorValue(*T, ip, val); gb.GetVectorValue(*T, ip, w); }
               z += ip.weight * T->Weight() * (w * w); w -= val; d += ip.weight * T->Weight() * (w * w);
            }
         }
      }
      worst = max(worst, sqrt(d / z));
   }
   return worst;
}
// the candidates whose solution a file holds
static string match(const string &file)
{
   vector<long> r;
   FILE *f = fopen(file.c_str(), "r");
   if (f)
   {
      fclose(f);
      sol->LoadSolution(file);
      BlockVector *u = sol->GetSolution();
      for (size_t k = 0; k < refs.size(); k++)
      {
         bool ok = true;
         for (int v = 0; v < NV; v++)
         {
            double d = 0, z = 0;
            for (int m = 0; m < NS; m++)
            { const Vector &a = u->GetBlock(m * NV + v), &b = refs[k]->GetBlock(m * NV + v); for (int i = 0; i < a.Size(); i++) { double e = fabs(a(i) - b(i)); if (!(e <= d)) d = e; z = max(z, fabs(b(i))); } }
            ok = ok && d <= 1e-5 * z;
         }
         if (ok) r.push_back(k + 1);
      }
   }
   return jint(r);
}
static string comp0(int k) { return sol->GetTopologyHandler()->GetComponentName(k); }
static string par(int i)
{
   static const map<string, vector<string>> K = {{"poisson0", {"k", "offset", ""}}, {"poisson_component", {"offset", "bdr_offset", "bdr_k0"}}, {"linelast_disp", {"rdisp_f", "lambda", "mu"}}, {"advdiff", {"u0_x", "q0", "dq"}}, {"channel_flow", {"U", "nu", ""}}, {"ns", {"U", "nu", ""}}, {"force_driven_corner", {"fx", "fy", "nu"}}, {"nsf", {"fx", "fy", "nu"}}};
   return K.at(prob)[i];
}
static double scale(int i) { return prob == "poisson0" ? (i == 0 ? 0.5 : 0.25) : prob == "poisson_component" ? (i == 2 ? 0.5 : 0.25) : (prob == "ns" && i == 1) || (prob == "nsf" && i == 2) ? 20.0 : 1.0; }  // (slow flow: solutions are unique)
static void params(const vector<int> &x)
{
   YAML::Node n;
   for (int i = 0; i < 3; i++) if (par(i) != "") n[par(i)] = x[i] * scale(i);
   if (prob == "poisson_component") n["k0"] = 0.5;
   if (prob == "advdiff") { n["du_x"] = 0.0; n["du_y"] = 0.0; n["qk_x"] = 0.5; n["qk_y"] = 0.25; n["qoffset"] = 0.125; }
   config.dict_["single_run"] = YAML::Node();
   config.dict_["single_run"][name] = n;
}
static bool sep, comp; static vector<string> vars;
static vector<string> tags()
{
   vector<string> r;
   for (int k = 0; k < sol->GetTopologyHandler()->GetNumComponents(); k++)
      if (!sep) r.push_back(comp0(k)); else for (auto &v : vars) r.push_back(comp0(k) + "_" + v);
   return r;
}
static int rankOf(const string &file, int &cols)
{
   CAROM::Matrix m = CAROM::standin_read(file, "snapshot_matrix", -1);
   cols = m.numColumns();
   vector<Vector> B;
   for (int j = 0; j < m.numColumns(); j++)
   {
      Vector x(m.numRows()); for (int i = 0; i < x.Size(); i++) x(i) = m(i, j);
      double z = x.Norml2();
      for (int p = 0; p < 2; p++) for (auto &b : B) x.Add(-(x * b), b);
      if (x.Norml2() > 1e-7 * z) { x /= x.Norml2(); B.push_back(x); }
   }
   return B.size();
}
static bool there(const string &f) { struct stat st; return stat(f.c_str(), &st) == 0; }

static void scenario(const YAML::Node &n)
{
   S = n;
   const YAML::Node c = n["c"];
   Rng r(num * 7 + c["seed"].as<int>() * 31);
   prob = c["prob"].as<string>(); name = prob == "ns" ? "channel_flow" : prob == "nsf" ? "force_driven_corner" : prob == "advdiff" ? "advdiff_flow_past_array" : prob;
   pde = prob.substr(0, 7) == "poisson" ? "poisson" : prob == "linelast_disp" ? "linelast" : prob == "advdiff" ? "advdiff" : prob == "ns" || prob == "nsf" ? "ns" : "stokes";
   dim = 2; comp = c["comp"].as<bool>(); sep = c["sep"].as<bool>();
   bool lf = c["lf"] && c["lf"].as<bool>(), eqp = c["eqp"] && c["eqp"].as<bool>();
   vars = flowp() ? vector<string>{"vel", "pres"} : vector<string>{"solution"};
   vector<int> at = {4, 2, 1, 3};                  // low x, high x, low y, high y
   for (int p = c["perm"].as<int>() % 24, i = 3; i > 0; p /= i + 1, i--) swap(at[i], at[p % (i + 1)]);
   config = InputParser();
   YAML::Node unused;
   if (comp)
   {
      YAML::Node y; for (auto k : {"seed", "nc", "gx", "gy", "simplex"}) y[k] = c[k];
      y["n"] = 1 + (flowp() ? 1 : c["seed"].as<int>() % 2); y["gz"] = 1; y["dim"] = 2; y["ref"] = 0; y["whole"] = true; y["uniform"] = true; y["turn"] = false;
      int g = c["gx"].as<int>() * c["gy"].as<int>(); if (c["nc"].as<int>() > g) y["nc"] = g;
      unique_ptr<CompScenario> cs(makeScenario(y));
      cs->tilt = 0;
      LEN = {(int) cs->size * c["gx"].as<int>(), (int) cs->size * c["gy"].as<int>()};
      for (auto &b : cs->bdrs) { int s = globalSide(*cs, b.m, b.s); b.gattr = s < 0 ? 5 : at[s]; }
      writeConfig(*cs, randomLayout(r, *cs), "cfg");
      // only components in use are listed (every one of them is trained)
      YAML::Node l; for (auto q : config.dict_["mesh"]["component-wise"]["components"]) if (q["name"].as<string>() != "never-used") l.push_back(q);
      config.dict_["mesh"]["component-wise"]["components"] = l;
   }
   else
   {
      YAML::Node y; for (auto k : {"nx", "ny", "ns", "style", "simplex"}) y[k] = c[k];
      if (flowp()) { y["nx"] = 2 + c["nx"].as<int>() % 2; y["ny"] = 2; }
      y["nz"] = 1; y["dist"] = false; y["curv"] = 0; for (int a : at) y["attr"].push_back(a);
      unique_ptr<Mesh> m(rect(r, y));
      ofstream o("box.mesh"); o.precision(17); m->Print(o); o.close();
      config.SetOption<string>("mesh/filename", "box.mesh");
      config.SetOption<string>("mesh/type", "submesh");
   }
   config.SetOption<string>("main/solver", pde == "ns" ? "steady-ns" : pde == "advdiff" ? "adv-diff" : pde);
   if (pde == "advdiff")
   {
      config.SetOption<double>("adv-diff/peclet_number", r.flip() ? 2.0 : 0.5);
      if (r.flip()) { config.SetOption<bool>("adv-diff/save_flow", true); config.SetOption<string>("adv-diff/flow_file", "flow.h5"); }
   }
   config.SetOption<string>("parameterized_problem/name", name);
   config.SetOption<int>("discretization/order", c["order"].as<int>());
   config.SetOption<bool>("discretization/full-discrete-galerkin", c["dg"].as<bool>());
   config.SetOption<bool>("solver/direct_solve", true);
   config.SetOption<bool>("solver/use_amg", false);
   config.SetOption<double>("solver/relative_tolerance", pde == "ns" ? 1e-12 : 1e-13);
   config.SetOption<double>("solver/absolute_tolerance", 1e-12);
   config.SetOption<int>("solver/max_iter", pde == "ns" ? 60 : 20000);
   config.SetOption<bool>("model_reduction/separate_variable_basis", sep);
   if (pde == "ns") { config.SetOption<double>("navier-stokes/zeta", 1.0); config.SetOption<string>("navier-stokes/operator-type", lf ? "lf" : "base"); config.SetOption<string>("model_reduction/nonlinear_handling", eqp ? "eqp" : "tensor"); }
   if (eqp)
   {
      config.SetOption<bool>("model_reduction/eqp/precompute", c["pre"].as<bool>());
      config.SetOption<string>("model_reduction/eqp/criterion", c["crit"].as<string>());
      if (r.flip()) config.SetOption<double>("model_reduction/eqp/relative_tolerance", 1e-9);
      else { config.SetOption<double>("model_reduction/eqp/relative_tolerance", 1e-9); config.SetOption<double>("model_reduction/eqp/interface/relative_tolerance", 1e-10); }
      config.SetOption<string>("model_reduction/eqp/save_coords", "coords.h5");
   }
   config.SetOption<bool>("main/use_rom", false);
   cands.clear(); refs.clear();
   for (auto x : n["cands"]) cands.push_back(x.as<vector<int>>());
   sol.reset(fresh());
   NV = sol->GetNumVar(); NS = sol->GetNumSubdomains();
   for (auto &x : cands) reference(x);
   // snapshots that vanish are not taken by the sampler
   for (auto &u : refs) for (int b = 0; b < u->NumBlocks(); b++) if (!(u->GetBlock(b).Normlinf() > 1e-12)) { sol.reset(); return; }
   int cnt = n["n"].as<int>(), off = c["off"].as<int>(); bool rnd = c["rand"].as<bool>();
   // ---- options of the stages
   config.SetOption<bool>("save_solution/enabled", true);
   bool own = r.flip(); if (own) config.SetOption<string>("save_solution/file_path/prefix", "state");
   string solname = own ? "state" : "solution";
   mkdir("smp", 0755); mkdir("b", 0755);
   config.SetOption<string>("sample_generation/file_path/directory", "./smp");
   bool pre = r.flip(); if (pre) config.SetOption<string>("sample_generation/file_path/prefix", "snap");
   string sprefix = string("./smp/") + (pre ? "snap" : name) + "_sample";
   if (off) config.SetOption<int>("sample_generation/file_path/offset", off);
   if (rnd) { config.SetOption<string>("sample_generation/type", "random"); config.SetOption<int>("sample_generation/random_sample_generator/number_of_samples", cnt); }
   YAML::Node pl;
   vector<int> base = c["base"].as<vector<int>>();
   for (auto w : c["sw"])
   {
      YAML::Node q; int p = w["p"].as<int>() - 1; double lo = w["lo"].as<int>() * scale(p), hi = (w["lo"].as<int>() + w["step"].as<int>() * (w["n"].as<int>() - 1)) * scale(p);
      if (rnd) lo = hi = base[p] * scale(p);
      q["key"] = "single_run/" + name + "/" + par(p); q["type"] = "double"; q["sample_size"] = w["n"].as<int>(); q["minimum"] = lo; q["maximum"] = hi;
      pl.push_back(q);
   }
   config.dict_["sample_generation"]["parameters"] = pl;
   config.SetOption<string>("basis/prefix", "b/basis");
   config.SetOption<int>("basis/number_of_basis", 1);
   string ls = c["ls"].as<string>();
   config.SetOption<string>("model_reduction/linear_solver_type", ls);
   if (ls == "direct") config.SetOption<string>("model_reduction/linear_system_type", pde == "ns" || pde == "advdiff" ? "us" : "sid");
   config.SetOption<string>("model_reduction/ordering", c["ordering"].as<string>());
   vector<string> names; vector<long> types;
   for (int k = 0; k < sol->GetTopologyHandler()->GetNumComponents(); k++) names.push_back(comp0(k));
   for (int m = 0; m < NS; m++) types.push_back(sol->GetTopologyHandler()->GetMeshType(m));
   vector<string> T = tags();
   emit(Ev("Begin").raw("c", "{\"prob\":" + q(prob) + "}").s("prob", prob).raw("cands", [&]() { vector<string> o; for (auto &x : cands) o.push_back(jint(vector<long>(x.begin(), x.end()))); return jarr(o); }())
        .i("n", cnt).b("comp", comp).b("sep", sep).b("eqp", eqp).b("lf", lf).b("dg", c["dg"].as<bool>()).b("ports", sol->GetTopologyHandler()->GetNumRefPorts() > 0).i("nvar", NV).i("nsub", NS).ai("types", types));
   bool gen = false, train = false, bg = false, bc = false, points = false;
   auto level = [&](const string &l) { config.SetOption<string>("model_reduction/save_operator/level", l); config.SetOption<string>("model_reduction/save_operator/prefix", "op_" + l); };
   for (auto o : n["ops"])
   {
      string op = o["op"].as<string>();
      if (op == "gen")
      {
         config.SetOption<bool>("main/use_rom", r.flip());
         params(base);
         string before = dump(config);
         GenerateSamples(MPI_COMM_WORLD);
         bool same = dump(config) == before;
         gen = true;
         vector<string> f; for (int k = 0; k < cnt; k++) f.push_back(match("smp/sample" + to_string(k + off) + "_" + solname + ".h5"));
         vector<long> cols; for (auto &t : T) { int k = -1; if (there(sprefix + "_" + t + "_snapshot.000000")) rankOf(sprefix + "_" + t + "_snapshot", k); cols.push_back(k); }
         emit(Ev("Gen").raw("files", jarr(f)).b("same", same).ai("cols", cols).b("beyond", there("smp/sample" + to_string(cnt + off) + "_" + solname + ".h5") || (off && there("smp/sample" + to_string(off - 1) + "_" + solname + ".h5"))));
      }
      else if (op == "train")
      {
         config.SetOption<bool>("main/use_rom", true);
         string mode = o["mode"].as<string>(); int how = o["files"].as<int>();
         config.SetOption<string>("sample_collection/mode", mode);
         YAML::Node tl;
         for (size_t t = T.size(); t-- > 0;)
         {
            YAML::Node q; q["name"] = T[t]; int k; q["number_of_basis"] = gen ? rankOf(sprefix + "_" + T[t] + "_snapshot", k) : 1;
            if (how == 2 && mode == "basis") q["snapshot_files"].push_back(sprefix + "_" + T[t] + "_snapshot");
            tl.push_back(q);
         }
         config.dict_["basis"]["tags"] = tl;
         bool ok = gen;
         if (ok) TrainROM(MPI_COMM_WORLD); else ok = survives([&]() { TrainROM(MPI_COMM_WORLD); });
         bool orth = true;
         if (ok)
         {
            unlink("op_global.h5"); unlink("op_component.h5"); unlink("op_component.eqp.h5"); bg = bc = points = false; train = true;
            for (size_t t = 0; t < T.size(); t++)
            {  // columns in use, and supremizers, are orthonormal
               CAROM::Matrix m = CAROM::standin_read("b/basis_" + T[t], "spatial_basis", -1);
               int k = tl[T.size() - 1 - t]["number_of_basis"].as<int>();
               DenseMatrix Q, P; bool sup = sep && flowp() && t % 2 == 0;
               if (sup) { hid_t f = H5Fopen(("b/basis_" + comp0(t / 2) + "_sup.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { orth = false; break; } hdf5_utils::ReadDataset(f, "supremizer_basis", P); H5Fclose(f); }
               Q.SetSize(m.numRows(), k + P.Width());
               if (m.numColumns() < k || (sup && P.Height() != Q.Height())) { orth = false; break; }
               for (int i = 0; i < Q.Height(); i++) { for (int j = 0; j < k; j++) Q(i, j) = m(i, j); for (int j = 0; j < P.Width(); j++) Q(i, k + j) = P(i, j); }
               DenseMatrix G(Q.Width()); MultAtB(Q, Q, G);
               for (int i = 0; i < G.Height(); i++) for (int j = 0; j < G.Width(); j++) if (!(fabs(G(i, j) - (i == j)) < 1e-8)) orth = false;
               if (sup && P.Width() != tl[T.size() - 2 - t]["number_of_basis"].as<int>()) orth = false;
            }
         }
         emit(Ev("Train").s("mode", mode).b("ok", ok).b("orth", orth));
      }
      else if (op == "eqp")
      {
         config.SetOption<bool>("main/use_rom", true);
         string mode = o["mode"].as<string>(), l = o["level"].as<string>(); level(l);
         config.SetOption<string>("sample_collection/mode", mode);
         bool ok = gen && train && eqp && comp && l == "component" && (!lf || mode == "port" || sol->GetTopologyHandler()->GetNumRefPorts() == 0);
         if (ok) TrainEQP(MPI_COMM_WORLD); else ok = survives([&]() { TrainEQP(MPI_COMM_WORLD); });
         if (ok) points = true;
         emit(Ev("Eqp").s("op", string(lf ? "lf-" : "base-") + mode).s("mode", mode).s("level", l).b("ok", ok));
      }
      else if (op == "coords")
      {
         config.SetOption<bool>("main/use_rom", true);
         level("component"); params(base); unlink("coords.h5");
         bool ok = points && !(lf && c["dg"].as<bool>());
         if (ok) PrintEQPCoords(MPI_COMM_WORLD); else ok = survives([&]() { PrintEQPCoords(MPI_COMM_WORLD); });
         bool inside = true; int n = 0;
         if (ok)
         {
            hid_t f = H5Fopen("coords.h5", H5F_ACC_RDONLY, H5P_DEFAULT);
            for (int k = 0; k < sol->GetTopologyHandler()->GetNumComponents(); k++)
            {
               DenseMatrix X; hid_t g = H5Gopen2(f, ("components/" + comp0(k) + "_integ0").c_str(), H5P_DEFAULT); hdf5_utils::ReadDataset(g, "coords", X); H5Gclose(g);
               Vector lo, hi; sol->GetTopologyHandler()->GetComponentMesh(k)->GetBoundingBox(lo, hi, 4);
               n += X.Height() > 0; inside = inside && X.Width() == 3;
               for (int i = 0; i < X.Height(); i++) for (int d = 0; d < 3; d++) inside = inside && (d < 2 ? X(i, d) >= lo(d) - 1e-9 && X(i, d) <= hi(d) + 1e-9 : X(i, d) == 0.0);
            }
            H5Fclose(f);
         }
         emit(Ev("Coords").b("ok", ok).b("inside", inside));
      }
      else if (op == "build")
      {
         config.SetOption<bool>("main/use_rom", true);
         string l = o["level"].as<string>(); int k = o["k"].as<int>();
         level(l); params(cands[k - 1]);
         bool ok = train && (l != "component" || (comp && pde != "advdiff"));
         if (ok) BuildROM(MPI_COMM_WORLD); else ok = survives([&]() { BuildROM(MPI_COMM_WORLD); });
         if (ok) { if (l == "global") bg = true; if (l == "component") bc = true; }
         emit(Ev("Build").s("level", l).i("k", k).b("ok", ok));
      }
      else
      {
         bool rom = o["rom"].as<bool>(); string l = o["level"].as<string>(); int k = o["k"].as<int>(), cmp = o["cmp"].as<int>();
         config.SetOption<bool>("main/use_rom", rom);
         level(l); params(cands[k - 1]);
         config.SetOption<bool>("model_reduction/compare_solution/enabled", cmp > 0);
         config.SetOption<bool>("model_reduction/compare_solution/load_solution", cmp == 2);
         // the file to compare with: any candidate's
         int with = k;
         if (cmp == 2) { with = r.in(1, cands.size()); sol->CopySolution(refs[with - 1].get()); sol->SetSolutionSaveMode(true); sol->SaveSolution("ref.h5"); config.SetOption<string>("model_reduction/compare_solution/fom_solution_file", "ref.h5"); }
         bool may = !rom || (train && (eqp ? l == "component" && points && bc : l == "none" || (l == "global" ? bg : bc)));
         Ev e("Run"); e.s("op", prob + (rom ? "-" + l + (eqp ? (lf ? "-lf" : "-base") : "") : "")).b("rom", rom).s("level", l).i("k", k).i("cmp", cmp).i("with", with);
         unlink((solname + ".h5").c_str()); unlink("out.h5");
         double ret = 0; bool ok = may, outf = r.flip();
         auto go = [&]() { ret = SingleRun(MPI_COMM_WORLD, outf ? "out.h5" : ""); };
         if (ok) go(); else ok = survives(go);
         e.b("ok", ok);
         if (ok)
         {
            auto u = [](double d) -> long { return d == -1.0 ? -1 : std::isfinite(d) && d >= 0 && d < 100 ? fx(d, 1e6) : 999999999; };
            // the error to report, if the reduced solution is that of the problem (computed now, the reference solutions are at hand)
            e.i("err", u(ret)); e.i("dist", cmp == 2 ? u(distance(*refs[k - 1], *refs[with - 1])) : 0);
            bool fine = there("out.h5") == outf;
            if (outf && fine)
            {
               hid_t f = H5Fopen("out.h5", H5F_ACC_RDONLY, H5P_DEFAULT); Vector v[5]; const char *k5[5] = {"rel_error", "rom_assemble", "rom_solve", "fom_assemble", "fom_solve"};
               for (int i = 0; i < 5; i++) hdf5_utils::ReadDataset(f, k5[i], v[i]);
               H5Fclose(f);
               fine = v[0].Size() == NV && v[0].Max() == ret;
               for (int i = 1; i < 5; i++) { bool did = (i < 3) ? rom : (!rom || cmp == 1); fine = fine && v[i].Size() == 1 && (did ? v[i](0) >= 0.0 : v[i](0) == -1.0); }
            }
            e.b("out", fine).raw("match", match(solname + ".h5"));
         }
         emit(e);
      }
   }
   sol.reset();
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   tf();
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      num++;
      string dir = string(argv[2]) + "/" + to_string(num);
      mkdir(dir.c_str(), 0755);
      if (chdir(dir.c_str())) harness_error("chdir");
      scenario(YAML::Load(line));
   }
   MPI_Finalize();
   return 0;
}
