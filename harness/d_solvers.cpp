// The full-order solvers on problems whose solution is a polynomial.
//   d_solvers <scenarios> <dir>
#include "polyprob.hpp"
#include "fork.hpp"
#include "flowcoef.hpp"
#include <sys/stat.h>
#include <unistd.h>

static string name(int f) { return f == 0 ? "" : "sol" + to_string(f) + ".h5"; }
static string sizes() { vector<long> s; for (int b = 0; b < NS * NV; b++) s.push_back(sol->GetSolution()->BlockSize(b)); return jint(s); }
static void coll(Ev &e, Rng &r, bool unified, bool K1)
{
   vector<string> out;
   for (int m = 0; m < (unified ? 1 : NS); m++)
   {
      ParaViewDataCollection *c = sol->GetParaViewColl(m);
      if (!c) { out.push_back("[]"); continue; }
      vector<string> f;
      for (auto &x : c->GetFieldMap()) f.push_back("[" + q(x.first) + "," + (unified && !K1 ? string("[]") : sample(r, x.second, const_cast<Mesh *>(c->GetMesh()), unified ? 6 : 2)) + "]");
      char cyc[64]; snprintf(cyc, 64, "Cycle%06d", c->GetCycle());
      string base = "vis" + (unified ? string("") : "_" + to_string(m));
      out.push_back("[" + to_string(c->GetCycle()) + "," + to_string(iv(c->GetTime())) + "," + jarr(f) + "," + (access((base + "/" + cyc + "/data.pvtu").c_str(), F_OK) == 0 ? "true" : "false") + "]");
   }
   e.raw("colls", jarr(out));
}

static void scenario(const YAML::Node &n, int num)
{
   Rng r(num * 7 + n["c"]["seed"].as<int>() * 31);
   const YAML::Node P = n["P"], c = n["c"];
   pde = P["pde"].as<string>(); dim = P["dim"].as<int>();
   U_ = field(P["u"]); W_ = field(P["w"]); SRC = field(n["src"]); Q_ = Field{poly(P["q"])};
   LAM = P["a"].as<double>(); MU = P["b"].as<double>();
   TYPES = {""}; for (auto t : c["types"]) TYPES.push_back(t.as<string>());
   auto at = c["attr"].as<vector<int>>();
   bool isfloat = c["float"].as<bool>(), comp = n["lay"].as<string>() == "comp", problem = c["how"].as<string>() == "problem";
   shift = c["shift"].as<double>();
   unit = isfloat && problem ? 1.0 / 64 : 1.0;
   for (int l = 1; l < 8; l++) BC[l] = U_;
   vector<int> labels(at);
   config = InputParser();
   CompScenario *cs = NULL;
   if (comp)
   {
      YAML::Node y; for (auto k : {"seed", "nc", "n", "gx", "gy", "gz", "simplex", "turn"}) y[k] = c[k];
      y["dim"] = dim; y["ref"] = 0; y["whole"] = flowp() || c["flow"].as<string>() == "stokes";         // the pressure is fixed up to one constant on connected domains
      int g = c["gx"].as<int>() * c["gy"].as<int>(); if (c["nc"].as<int>() > g) y["nc"] = g;
      cs = makeScenario(y);
      cs->tilt = 0;
      LEN = {(int) cs->size * c["gx"].as<int>(), (int) cs->size * c["gy"].as<int>(), (int) cs->size};
      for (auto &b : cs->bdrs) { int s = globalSide(*cs, b.m, b.s); b.gattr = s < 0 ? 7 : at[s]; }
      labels.clear(); for (auto &b : cs->bdrs) labels.push_back(b.gattr);
      writeConfig(*cs, randomLayout(r, *cs), "cfg");
   }
   else
   {
      Mesh *m = rect(r, c);
      ofstream o("box.mesh"); o.precision(17); m->Print(o); o.close();
      delete m;
      config.SetOption<string>("mesh/filename", "box.mesh");
      config.SetOption<string>("mesh/type", "submesh");
   }
   sort(labels.begin(), labels.end()); labels.erase(unique(labels.begin(), labels.end()), labels.end());
   if (pde == "linelast")
      for (size_t s = 0; s < at.size(); s++) if (TYPES[at[s]] == "neumann") BC[at[s]] = field(n["flux"][s]);
   string solver = c["solver"].as<string>(), vis = c["vis"].as<string>(); bool verr = c["verr"].as<bool>();
   config.SetOption<string>("parameterized_problem/name", "p");
   config.SetOption<int>("discretization/order", n["order"].as<int>());
   config.SetOption<bool>("discretization/full-discrete-galerkin", n["dg"].as<bool>());
   config.SetOption<bool>("solver/use_amg", solver == "amg");
   config.SetOption<bool>("solver/direct_solve", solver == "direct");
   config.SetOption<bool>("solver/block_diagonal_preconditioner", solver == "block");
   config.SetOption<double>("solver/relative_tolerance", 1e-11);
   config.SetOption<double>("solver/absolute_tolerance", 1e-12);
   config.SetOption<int>("solver/max_iter", pde == "ns" ? 60 : 20000);
   config.SetOption<bool>("model_reduction/separate_variable_basis", c["sep"].as<bool>());
   if (flowp()) config.SetOption<double>("stokes/nu", problem && pde == "stokes" ? 99.0 : LAM);
   if (pde == "ns") { config.SetOption<double>("navier-stokes/zeta", MU); config.SetOption<string>("navier-stokes/operator-type", c["oper"].as<string>()); }
   if (pde == "advdiff")
   {
      config.SetOption<double>("adv-diff/peclet_number", LAM);
      config.SetOption<bool>("adv-diff/save_flow", r.flip()); config.SetOption<bool>("adv-diff/load_flow", r.flip());
      config.SetOption<string>("adv-diff/flow_file", "flow.h5");
   }
   bool unified = vis == "one";
   config.SetOption<bool>("visualization/enabled", vis != "off");
   if (vis != "off")
   {
      config.SetOption<string>("visualization/file_path/directory", "./"); config.SetOption<string>("visualization/file_path/prefix", "vis");
      config.SetOption<bool>("visualization/unified_paraview", unified); config.SetOption<bool>("visualization/visualize_error", verr);
   }
   bool save = r.in(0, 3) > 0;
   config.SetOption<bool>("save_solution/enabled", save);
   config.SetOption<string>("save_solution/file_path/directory", "."); config.SetOption<string>("save_solution/file_path/prefix", "sol0");
   int voff = c["voff"].as<int>(), vint = c["vint"].as<int>();
   // offsets and intervals beyond the number of subdomains are refused: count them first
   int nsub = 0;
   if (comp) nsub = cs->type.size(); else { Mesh m("box.mesh"); nsub = m.attributes.Max(); }
   voff = min(voff, nsub - 1); vint = min(vint, nsub);
   if (vis == "each") { config.SetOption<int>("visualization/domain_offset", voff); config.SetOption<int>("visualization/domain_frequency", vint); }
   delete cs;

   function_factory::flow_problem::nu = LAM;
   function_factory::advdiff_problem::analytic_flow = true;
   sol.reset();
   // a flow found on disk counts when it is to be loaded, and only then
   bool stflow = pde == "advdiff" && c["flow"].as<string>() == "stokes", found = stflow && r.flip(), loads = found && config.GetOption<bool>("adv-diff/load_flow", false);
   unlink("flow.h5");
   if (found)
   {
      bool saves = config.GetOption<bool>("adv-diff/save_flow", false);
      config.SetOption<bool>("adv-diff/save_flow", true); config.SetOption<bool>("adv-diff/load_flow", false);
      {
         AdvDiffSolver d; d.InitVariables();
         Problem pr(r, labels, true); Flow f(labels);
         function_factory::advdiff_problem::analytic_flow = false; function_factory::advdiff_problem::flow_problem = &f;
         function_factory::flow_problem::nu = 1.0; WF = loads ? 1.0 : 3.0;
         d.SetParameterizedProblem(&pr);
      }
      config.SetOption<bool>("adv-diff/save_flow", saves); config.SetOption<bool>("adv-diff/load_flow", loads);
   }
   if (pde == "poisson") sol.reset(new PoissonSolver);
   else if (pde == "linelast") sol.reset(new LinElastSolver);
   else if (pde == "stokes") sol.reset(new StokesSolver);
   else if (pde == "ns") sol.reset(new SteadyNSSolver);
   else sol.reset(new AdvDiffSolver);
   MultiBlockSolver *s = sol.get();
   s->InitVariables();
   s->InitVisualization(r.flip() ? "" : "vis");
   NV = s->GetNumVar(); NS = s->GetNumSubdomains();
   bool scalar = pde == "poisson" || pde == "advdiff";
   unique_ptr<Problem> prob; unique_ptr<Flow> fl;
   if (pde == "advdiff")
   {
      AdvDiffSolver *a = dynamic_cast<AdvDiffSolver *>(s);
      prob.reset(new Problem(r, labels, true));
      if (stflow)
      {
         function_factory::advdiff_problem::analytic_flow = false;
         fl.reset(new Flow(labels)); function_factory::advdiff_problem::flow_problem = fl.get();
         function_factory::flow_problem::nu = 1.0;
      }
      else if (r.flip()) a->SetFlowAtSubdomain(flowV);
      else for (int m : shuffled(r, NS)) a->SetFlowAtSubdomain(flowV, m);
      problem = stflow || r.flip();
   }
   if (problem)
   {
      if (!prob) prob.reset(new Problem(r, labels, scalar));
      if (pde != "linelast" && !stflow && !isfloat && n["c"]["seed"].as<int>() % 2)
      {
         Decoy d(labels, scalar);
         function_factory::flow_problem::nu = 1.5 * LAM;
         s->SetParameterizedProblem(&d);
         function_factory::flow_problem::nu = LAM;
      }
      WF = loads ? 3.0 : 1.0;
      s->SetParameterizedProblem(prob.get());
      WF = 1.0;
   }
   else
   {
      auto rhsS = [](const Vector &x, double t) { return srcS(x, t); };
      if (pde == "linelast") dynamic_cast<LinElastSolver *>(s)->AddRHSFunction(srcV);
      else if (scalar) dynamic_cast<PoissonSolver *>(s)->AddRHSFunction(rhsS);
      else dynamic_cast<StokesSolver *>(s)->AddRHSFunction(srcV);
      Array<Mesh *> ms; TopologyData td; s->GetTopologyHandler()->ExportInfo(ms, td);
      Array<int> &gattr = *td.global_bdr_attributes;
      bool all = true; for (int l : labels) all = all && TYPES[l] == "dirichlet";
      auto add = [&](int l, int battr)
      {
         Vector z(dim); z = 0.0;
         if (TYPES[l] == "zero") { if (scalar) s->AddBCFunction(0.0, battr); else s->AddBCFunction(z, battr); }
         else if (TYPES[l] == "dirichlet" || pde == "linelast")
         {
            if (scalar) s->AddBCFunction(function<double(const Vector &, double)>(SF[l]), battr);
            else s->AddBCFunction(function<void(const Vector &, double, Vector &)>(VF[l]), battr);
         }
      };
      if (all && r.flip()) { add(labels[0], -1); s->SetBdrType(BoundaryType::DIRICHLET); }
      else
         for (int k : shuffled(r, labels.size()))
         {
            add(labels[k], labels[k]);
            s->SetBdrType(type(labels[k]), gattr.Find(labels[k]));
         }
      if (r.flip()) add(1, 20);
   }
   {
      Ev e("New");
      e.raw("P", n["_P"].as<string>()).i("nsub", NS).i("nvar", NV).i("nbdr", s->GetNumBdr()).b("comp", comp).b("sep", c["sep"].as<bool>()).b("save", save).s("vis", vis).i("voff", voff).i("vint", vint).b("verr", verr && vis != "off")
       .i("nlabels", labels.size()).i("nsubs", nsub).ai("len", LEN, dim).i("shift", c["shift"].as<int>()).raw("sizes", sizes());
      emit(e);
   }
   s->BuildOperators(); s->SetupBCOperators(); s->Assemble();
   bool conv = s->Solve(), mean = true;
   if (isfloat)
   {  // the pressure is determined up to a constant: its nodal mean vanishes; moved to the exact one
      double sum = 0.0; long cnt = 0;
      for (int m = 0; m < NS; m++) { GridFunction &p = *s->GetGridFunction(m * NV + 1); sum += p.Sum(); cnt += p.Size(); }
      mean = fabs(sum / cnt) < 1e-8 * unit;
      GridFunction &p = *s->GetGridFunction(1); Mesh *m = s->GetMesh(0);
      ElementTransformation *T = m->GetElementTransformation(0);
      const IntegrationPoint &ip = Geometries.GetVertices(m->GetElementBaseGeometry(0))->IntPoint(0);
      T->SetIntPoint(&ip); Vector x(dim); T->Transform(ip, x);
      double off = eval(Q_[0], x) - p.GetValue(*T, ip);
      for (int k = 0; k < NS; k++) *s->GetGridFunction(k * NV + 1) += off;
   }
   emit(Ev("Solve").s("op", pde).b("conv", conv).b("mean", mean).raw("pts", points(r)));
   vector<vector<long>> K(NS, vector<long>(NV, 1)); map<int, vector<vector<long>>> files; vector<vector<long>> Kk;
   auto same = [&](int v) { for (auto &k : K) if (k[v] != K[0][v]) return false; return true; };
   auto K1 = [&]() { for (int v = 0; v < NV; v++) if (!same(v)) return false; return true; };
   unique_ptr<BlockVector> kept; set<int> timed, there;
   vector<string> log;
   for (auto o : n["ops"])
   {
      string op = o["op"].as<string>();
      int f = o["f"] ? o["f"].as<int>() : 0;
      if (op == "scale")
      {
         int m = o["m"].as<int>() % NS, v = o["v"].as<int>() % NV, k = o["k"].as<int>();
         if (labs(K[m][v]) > 8) continue;
         K[m][v] *= k;
         s->GetSolution()->GetBlock(m * NV + v) *= k;
         emit(Ev("Scale").i("m", m).i("v", v).i("k", k));
      }
      else if (op == "mode") { bool on = o["on"].as<bool>(); s->SetSolutionSaveMode(on); emit(Ev("Mode").b("on", on)); }
      else if (op == "save" || op == "savet")
      {
         int step = 0, time = 0; bool wt = op == "savet";
         if (wt) { step = o["step"].as<int>(); time = o["time"].as<int>(); }
         bool ok = survives([&]() { if (wt) s->SaveSolutionWithTime(name(f), step, time * 0.25); else s->SaveSolution(name(f)); });
         if (ok) { if (wt) s->SaveSolutionWithTime(name(f), step, time * 0.25); else s->SaveSolution(name(f)); }
         emit(Ev("Save").i("f", f).b("timed", wt).i("step", step).i("time", time).b("ok", ok).b("exists", access(f ? name(f).c_str() : "sol0.h5", F_OK) == 0));
         if (access(f ? name(f).c_str() : "sol0.h5", F_OK) == 0 && ok) files[f] = K;
      }
      else if (op == "load" || op == "loadt")
      {
         string fn = f ? name(f) : "sol0.h5"; bool wt = op == "loadt"; int step = -1; double time = -1;
         bool other = !files.count(f) && access(fn.c_str(), F_OK) && r.flip();
         if (other)
         {  // the solution of some other discretization, one value longer or shorter
            hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            Vector u(s->GetSolution()->Size() + (r.flip() ? 1 : -1)); u = 4.0;
            hdf5_utils::WriteDataset(h, "solution", u); hdf5_utils::WriteAttribute(h, "timestep", 3); hdf5_utils::WriteAttribute(h, "time", 0.5);
            H5Fclose(h);
         }
         bool ok = survives([&]() { if (wt) s->LoadSolutionWithTime(fn, step, time); else s->LoadSolution(fn); });
         if (ok && other) { emit(Ev("Load").i("f", f).b("timed", wt).b("ok", true)); fflush(NULL); _exit(0); }      // not to go on with
         if (ok) { if (wt) s->LoadSolutionWithTime(fn, step, time); else s->LoadSolution(fn); if (files.count(f)) K = files[f]; }
         Ev e("Load"); e.i("f", f).b("timed", wt).b("ok", ok).i("step", step).i("time", iv(time * 4));
         if (ok) e.raw("pts", points(r));
         emit(e);
         if (other) unlink(fn.c_str());
      }
      else if (op == "keep") { kept.reset(s->GetSolutionCopy()); Kk = K; emit(Ev("Keep")); }
      else if (op == "copy") { if (!kept) continue; s->CopySolution(kept.get()); K = Kk; emit(Ev("Copy").raw("pts", points(r))); }
      else if (op == "points") emit(Ev("Points").raw("pts", points(r)));
      else if (op == "vars")
      {
         BlockVector *a = s->GetSolutionCopy();
         vector<int> off = {0}; for (int b = 0; b < NS * NV; b++) off.push_back(off.back() + a->BlockSize(b));
         auto J2 = [](const BlockVector &v) { vector<string> x; for (int b = 0; b < v.NumBlocks(); b++) { const Vector &y = v.GetBlock(b); vector<long> z = {(long) y.Size(), iv(y(0)), iv(y(y.Size() - 1))}; x.push_back(jint(z)); } return jarr(x); };
         for (int i = 0; i < a->Size(); i++) (*a)(i) = i;
         int v = o["s"].as<int>() % NV;
         Array<int> vo(NS + 1), bo(NS * NV + 1); vo[0] = bo[0] = 0;
         for (int m = 0; m < NS; m++) vo[m + 1] = vo[m] + a->BlockSize(m * NV + v);
         for (int w = 0, k = 0; w < NV; w++) for (int m = 0; m < NS; m++, k++) bo[k + 1] = bo[k] + a->BlockSize(m * NV + w);
         BlockVector var(vo), by(bo), back(*a), again(*a); var = -5.0; by = -7.0; back = -9.0;
         s->GetVariableVector(v, *a, var);
         string J1 = J2(var);
         var += 1000.0; s->SetVariableVector(v, var, again);
         s->SortByVariables(*a, by); s->SortBySubdomains(by, back);
         emit(Ev("Vars").i("v", v).raw("orig", J2(*a)).raw("var", J1).raw("set", J2(again)).raw("by", J2(by)).raw("back", J2(back)));
         delete a;
      }
      else if (op == "snap")
      {
         vector<BasisTag> tags; BlockVector *v = s->PrepareSnapshots(tags);
         vector<string> t; for (auto &x : tags) t.push_back(x.print());
         vector<string> names, vars; for (int m = 0; m < NS; m++) { TopologyHandler *h = s->GetTopologyHandler(); names.push_back(h->GetComponentName(h->GetMeshType(m))); }
         vars = scalar || pde == "linelast" ? vector<string>{"solution"} : vector<string>{"vel", "pres"};
         vector<long> off, sz; for (int b = 0; b < v->NumBlocks(); b++) { off.push_back(v->GetBlock(b).GetData() - s->GetSolution()->GetData()); sz.push_back(v->BlockSize(b)); }
         emit(Ev("Snap").as("tags", t).as("names", names).as("vars", vars).ai("off", off).ai("size", sz));
         delete v;
      }
      else if (op == "compare")
      {
         int k = o["k"].as<int>(), k2 = o["k2"].as<int>() % 4, b = o["s"].as<int>() % (NS * NV);
         BlockVector *t = s->GetSolutionCopy();
         for (int i = 0; i < NS * NV; i++) t->GetBlock(i) *= i == b ? k2 : k;
         Vector err; s->CompareSolution(*t, err);
         delete t;
         vector<long> e; for (int v = 0; v < NV; v++) e.push_back(fx(err(v), 1e6));
         emit(Ev("Compare").i("k", k).i("k2", k2).i("b", b).ai("err", e));
      }
      else if (op == "vis" || op == "vist")
      {
         int step = 0, time = 0; bool wt = op == "vist"; if (wt) { step = o["step"].as<int>(); time = o["time"].as<int>(); }
         auto go = [&]() { if (wt) s->SaveVisualization(step, time); else s->SaveVisualization(); };
         bool ok = survives(go);
         if (ok) go();
         Ev e("Vis"); e.b("timed", wt).i("step", step).i("time", time).b("ok", ok).b("one", K1());
         if (vis != "off") coll(e, r, unified, K1());
         emit(e);
      }
   }
   sol.reset();
   function_factory::advdiff_problem::flow_problem = NULL;
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   tf();
   ifstream in(argv[1]); string line; int num = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      num++;
      string dir = string(argv[2]) + "/" + to_string(num);
      mkdir(dir.c_str(), 0755);
      if (chdir(dir.c_str())) harness_error("chdir");
      YAML::Node n = YAML::Load(line);
      // the problem as it stands in the scenario
      size_t a = line.find("\"P\":"), z = line.find(",\"src\":");
      size_t a2 = line.find(", \"src\":");
      if (z == string::npos || (a2 != string::npos && a2 < z)) z = a2;
      n["_P"] = line.substr(a + 4, z - a - 4);
      scenario(n, num);
   }
   MPI_Finalize();
   return 0;
}
