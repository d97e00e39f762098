// Histories of runs of the unsteady Navier-Stokes solver in one directory.
//   d_unsteady <scenarios> <dir>
#include "polyprob.hpp"
#include "unsteady_ns_solver.hpp"
#include "sample_generator.hpp"
#include "fork.hpp"
#include "vtu.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>

static Field IV; static Poly IQ;
static void icU(const Vector &x, double, Vector &y) { vec(IV, x, y); }
static void icP(const Vector &x, double, Vector &y) { y.SetSize(1); y(0) = eval(IQ, x); }
static vector<int> numbered(const string &dir, const string &pre)
{
   vector<int> r; DIR *d = opendir(dir.c_str());
   if (!d) return r;
   while (dirent *e = readdir(d)) { string s = e->d_name; if (s.compare(0, pre.size(), pre) == 0) r.push_back(atoi(s.c_str() + pre.size())); }
   closedir(d); sort(r.begin(), r.end());
   return r;
}

// saves of one collection as [cycle, time, points of the velocity, points of the pressure]
static string shown(const string &base, Rng &r)
{
   vector<string> out;
   ifstream pvd(base + "/" + base + ".pvd"); string line;
   auto attr = [](const string &l, const string &a) { size_t p = l.find(a + "=\""); return p == string::npos ? string() : l.substr(p + a.size() + 2, l.find('"', p + a.size() + 2) - p - a.size() - 2); };
   while (getline(pvd, line))
   {
      string f = attr(line, "file");
      if (f.compare(0, 5, "Cycle")) continue;
      ifstream in(base + "/" + f.substr(0, f.find('/')) + "/proc000000.vtu");
      string l, name; map<string, vector<double>> d;
      while (getline(in, l))
         if (l.find("<Points>") != string::npos) name = "points";
         else if (l.find('<') != string::npos) { string a = attr(l, "Name"); if (a != "") name = a; }
         else if (name == "points" || name == "vel" || name == "pres") { d[name] = decode(l); name = ""; }
      int np = d["points"].size() / 3, nc = np ? d["vel"].size() / np : 0;
      vector<string> pt[2];
      for (int k = 0; np && k < 5; k++)
      {
         int i = r.in(0, np - 1); vector<long> X, V;
         for (int c = 0; c < dim; c++) X.push_back(iv(d["points"][3 * i + c] * W));
         for (int c = 0; c < nc; c++) V.push_back(iv(d["vel"][nc * i + c] * W2, 0.03));
         pt[0].push_back("[" + jint(X) + "," + jint(V) + "]");
         pt[1].push_back("[" + jint(X) + "," + jint(i < (int) d["pres"].size() ? vector<long>{iv(d["pres"][i] * W2, 0.03)} : vector<long>()) + "]");
      }
      out.push_back("[" + to_string(atoi(f.c_str() + 5)) + "," + to_string(iv(stod(attr(line, "timestep")) * 16)) + "," + jarr(pt[0]) + "," + jarr(pt[1]) + "]");
   }
   return jarr(out);
}

static void scenario(const YAML::Node &n, int num)
{
   const YAML::Node c = n["c"];
   Rng r(num * 7 + c["seed"].as<int>() * 31);
   pde = "ns"; dim = c["dim"].as<int>(); shift = 0.0;
   auto at = c["attr"].as<vector<int>>();
   Mesh *m = rect(r, c);
   ofstream o("box.mesh"); o.precision(17); m->Print(o); o.close();
   int nsub = m->attributes.Max();
   delete m;
   vector<int> labels(at);
   sort(labels.begin(), labels.end());
   emit(Ev("New").i("dim", dim).i("nsub", nsub));
   string sdir = r.flip() ? "." : "sub"; mkdir("sub", 0755);
   int j = 0;
   for (auto R : n["runs"])
   {
      j++;
      const YAML::Node P = R["P"];
      U_ = field(P["u"]); SRC = field(R["src"]); Q_ = Field{poly(P["q"])}; LAM = P["a"].as<double>(); MU = P["b"].as<double>();
      IV = field(R["u0"]); IQ = poly(R["q0"]);
      for (int l = 1; l < 8; l++) BC[l] = U_;
      TYPES = {""}; for (auto t : R["types"]) TYPES.push_back(t.as<string>());
      string refuse = R["refuse"].as<string>(), ic = R["ic"].as<string>(), vp = "vis" + to_string(j);
      bool restart = R["restart"].as<bool>(), save = R["save"].as<bool>(), vis = R["vis"].as<bool>(), samp = R["samp"].as<bool>();
      config = InputParser();
      config.SetOption<string>("mesh/filename", "box.mesh");
      config.SetOption<string>("mesh/type", "submesh");
      config.SetOption<string>("main/solver", "unsteady-ns");
      config.SetOption<string>("parameterized_problem/name", "p");
      config.SetOption<int>("discretization/order", 1);
      config.SetOption<bool>("discretization/full-discrete-galerkin", c["late"].as<bool>());
      config.SetOption<bool>("solver/direct_solve", true);
      config.SetOption<bool>("model_reduction/separate_variable_basis", true);
      config.SetOption<double>("stokes/nu", LAM);
      config.SetOption<double>("navier-stokes/zeta", MU);
      config.SetOption<string>("navier-stokes/operator-type", refuse == "base" ? "base" : "lf");
      config.SetOption<int>("time-integration/number_of_timesteps", R["nt"].as<int>());
      if (refuse != "dt") config.SetOption<double>("time-integration/timestep_size", R["dt"].as<int>() / 16.0);
      if (refuse == "bdf" || r.flip()) config.SetOption<int>("time-integration/bdf_order", refuse == "bdf" ? 2 : 1);
      config.SetOption<int>("time-integration/report_interval", r.in(0, 2));
      config.SetOption<bool>("save_solution/enabled", save);
      config.SetOption<string>("save_solution/file_path/directory", sdir); config.SetOption<string>("save_solution/file_path/prefix", "sol");
      if (R["rint"].as<int>() || r.flip()) config.SetOption<int>("save_solution/restart_interval", R["rint"].as<int>());
      if (restart || r.flip()) config.SetOption<bool>("solver/use_restart", restart);
      char fn[64]; snprintf(fn, 64, "%s/sol_%08d.h5", sdir.c_str(), R["from"].as<int>());
      if (restart || r.flip()) config.SetOption<string>("solver/restart_file", fn);
      config.SetOption<bool>("visualization/enabled", vis);
      config.SetOption<string>("visualization/file_path/directory", "./"); config.SetOption<string>("visualization/file_path/prefix", vp);
      int vint = R["vint"].as<int>();
      if (vint != -1 || r.flip()) config.SetOption<int>("visualization/time_interval", vint);
      if (R["si"].as<int>() || r.flip()) config.SetOption<int>("sample_generation/time-integration/sample_interval", R["si"].as<int>());
      if (R["boot"].as<int>() || r.flip()) config.SetOption<int>("sample_generation/time-integration/bootstrap", R["boot"].as<int>());
      config.dict_["sample_generation"]["parameters"] = YAML::Load("[{key: a/b, type: double, minimum: 0.0, maximum: 1.0, sample_size: 2}]");
      config.dict_["sample_generation"]["maximum_number_of_snapshots"] = 50;
      function_factory::flow_problem::nu = LAM;
      unique_ptr<Problem> prob; unique_ptr<SampleGenerator> gen;
      UnsteadyNSSolver *s = NULL;
      auto go = [&]()
      {
         sol.reset(s = new UnsteadyNSSolver);
         s->InitVariables();
         s->InitVisualization();
         prob.reset(new Problem(r, labels, false));
         if (ic != "none" || (restart && r.flip()))
         {  // a restarted run does not start from them
            if (ic == "none") { IV = U_; IQ = Q_[0]; }
            prob->ic_ptr.Append(ic == "pressure" ? NULL : icU); prob->ic_ptr.Append(icP);
         }
         else if (r.flip()) { prob->ic_ptr.SetSize(2); prob->ic_ptr = NULL; }
         s->SetParameterizedProblem(prob.get());
         s->BuildOperators(); s->SetupBCOperators(); s->Assemble();
         if (samp) gen.reset(new SampleGenerator(MPI_COMM_WORLD));
         s->Solve(gen.get());
      };
      bool ok = (refuse == "" && (!restart || access(fn, F_OK) == 0)) || survives(go);
      if (ok) go();
      Ev e("Run");
      e.s("op", !ok ? "refused" : restart ? "restart" : "fresh").raw("r", R["raw"].as<string>()).b("ok", ok);
      if (ok)
      {
         NV = s->GetNumVar(); NS = s->GetNumSubdomains();
         e.raw("pts", points(r));
         // snapshots: one for every step asked for, with the fields of that step (all the same within a run)
         vector<long> cnt; bool same = true;
         vector<BasisTag> tags; BlockVector *v = s->PrepareSnapshots(tags);
         for (int b = 0; b < v->NumBlocks(); b++)
         {
            if (!samp || !survives([&]() { gen->LookUpSnapshot(tags[b]); })) { cnt.push_back(0); continue; }
            CAROM::Matrix M(*gen->LookUpSnapshot(tags[b]));
            cnt.push_back(M.numColumns());
            same = same && M.numRows() == v->BlockSize(b);
            for (int k = 0; same && k < M.numColumns(); k++) for (int i = 0; same && i < M.numRows(); i++) same = fabs(M(i, k) - v->GetBlock(b)(i)) < 1e-6 * (1 + fabs(v->GetBlock(b)(i)));
         }
         delete v;
         vector<string> cyc, sh;
         if (vis) for (int k = 0; k < NS; k++)
         {
            string base = vp + "_" + to_string(k);
            vector<int> q = numbered(base, "Cycle"); cyc.push_back(jint(vector<long>(q.begin(), q.end())));
            sh.push_back(shown(base, r));
         }
         vector<string> fs;
         for (int k : numbered(sdir, "sol_"))
         {
            char f[64]; snprintf(f, 64, "%s/sol_%08d.h5", sdir.c_str(), k);
            int step; double time;
            s->LoadSolutionWithTime(f, step, time);
            fs.push_back("[" + to_string(k) + "," + to_string(step) + "," + to_string(iv(time * 16)) + "," + points(r) + "]");
         }
         e.raw("files", jarr(fs)).raw("cycles", jarr(cyc)).raw("shown", jarr(sh)).ai("snaps", cnt).b("same", same);
      }
      emit(e);
      if (ok) emit(Ev("Kind").s("op", R["jump"].as<bool>() ? "jump" : "stay"));
      sol.reset(); gen.reset();
   }
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   tf();
   ifstream in(argv[1]); string line; int num = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      num++;
      string dir = string(argv[2]) + "/" + to_string(num);
      mkdir(dir.c_str(), 0755);
      if (chdir(dir.c_str())) harness_error("chdir");
      scenario(YAML::Load(line), num);
   }
   MPI_Finalize();
   return 0;
}
