// Snapshots, ports and their collection; sample grids.
//   d_sampling run <scenarios> <dir>      whole scenarios, one process
//   d_sampling train <scenarios> <dir>    only the training sessions, on the files left by `run` (any number of ranks)
//   d_sampling grid <scenarios>           sample grids (any number of ranks)
#include "main_workflow.hpp"
#include "sample_generator.hpp"
#include "random_sample_generator.hpp"
#include "poisson_solver.hpp"
#include "stokes_solver.hpp"
#include "trace.hpp"
#include "fork.hpp"
#include "faketopo.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <set>
#include <map>
#include <memory>
using namespace vt;
using namespace std;

static int rank_, ranks_;
static bool quiet = false;
static void say(const Ev &e) { if (rank_ == 0 && !quiet) emit(e); }

// names that contain one another
static const vector<string> NAMES = {"part", "part-2", "p"};
static vector<string> varnames(int nv)
{
   if (nv == 0) return {""};
   return nv == 1 ? PoissonSolver::GetVariableNames() : StokesSolver::GetVariableNames();
}
static int dimof(int c, int v) { return 3 + 2 * c + v; }
static double entry(int id, int sub, int v, int i) { return ((id * 10 + sub) * 4 + v) * 16 + i; }

static string base;     // absolute scratch directory of the scenario
static YAML::Node conf;
static void put() { config.dict_ = YAML::Clone(conf); }

static BasisTag tagof(int c, int v, int nv) { return BasisTag(NAMES[c - 1], varnames(nv)[v ? v - 1 : 0]); }

static void state(SampleGenerator &g, int nv, const set<int> &comps, const set<vector<int>> &ports)
{
   vector<string> snaps, prts;
   for (int c : comps)
      for (int k = 0; k < (nv ? nv : 1); k++)
      {
         int v = nv ? k + 1 : 0;
         CAROM::Matrix m(*g.LookUpSnapshot(tagof(c, v, nv)));
         m.gather();
         vector<long> cols;
         for (int j = 0; j < m.numColumns(); j++)
         {
            long code = -1;
            if (m.numRows() == dimof(c, v))
            {
               long x = lround(m(0, j)) / 16;
               bool ok = (x % 4 == v);
               for (int i = 0; i < m.numRows(); i++) ok = ok && m(i, j) == (double) (x * 16 + i);
               if (ok) code = x / 4;
            }
            cols.push_back(code);
         }
         snaps.push_back("[" + to_string(c) + "," + to_string(v) + "," + jint(cols) + "]");
      }
   for (auto &p : ports)
   {
      PortTag t = {NAMES[p[0] - 1], NAMES[p[1] - 1], p[2], p[3]};
      Array2D<int> &a = *g.LookUpSnapshotPortColOffsets(t);
      vector<string> rows;
      for (int i = 0; i < a.NumRows(); i++) rows.push_back(jint({a(i, 0), a(i, 1)}));
      prts.push_back("[" + to_string(p[0]) + "," + to_string(p[1]) + "," + to_string(p[2]) + "," + to_string(p[3]) + "," + jarr(rows) + "]");
   }
   say(Ev("State").raw("snaps", jarr(snaps)).raw("ports", jarr(prts)));
}

static void scenario(YAML::Node s, int num, bool training_only)
{
   const int nv = s["nv"].as<int>();
   quiet = training_only;
   say(Ev("Begin").i("nv", nv).i("num", num));
   conf = YAML::Load("{main: {}, mesh: {type: component-wise, component-wise: {components: []}}, model_reduction: {}, sample_generation: {maximum_number_of_snapshots: 400,"
                     " file_path: {directory: s}, parameters: [{key: a/b, type: double, minimum: 0.0, maximum: 1.0, sample_size: 2}]}, basis: {prefix: b/basis, number_of_basis: 1}}");
   conf["main"]["solver"] = nv == 2 ? "stokes" : "poisson";
   if (nv) conf["model_reduction"]["separate_variable_basis"] = true;
   map<int, set<int>> filed;                 // prefix -> components on disk
   map<int, set<vector<int>>> portfiled;     // prefix -> port tags of the port file
   map<int, set<int>> portcomps;
   unique_ptr<SampleGenerator> g;
   set<int> comps; set<vector<int>> ports;
   int id = 0, cur = 0, trained = 0, d = 0;
   bool training = false;
   for (auto o : s["ops"])
   {
      string op = o["op"].as<string>();
      if (op == "session")
      {
         cur = o["p"].as<int>();
         if (chdir((base + "/run").c_str())) harness_error("chdir");
         conf["sample_generation"]["file_path"]["prefix"] = "p" + to_string(cur);
         put();
         comps.clear(); ports.clear();
         if (!training_only) g.reset(new SampleGenerator(MPI_COMM_WORLD));
         say(Ev("Session").i("p", cur));
      }
      else if (op == "sample")
      {
         id++;
         vector<int> types; vector<vector<int>> ps;
         for (auto x : o["types"]) types.push_back(x.as<int>());
         for (auto x : o["ps"]) ps.push_back({x[0].as<int>(), x[1].as<int>(), x[2].as<int>(), x[3].as<int>()});
         for (int t : types) comps.insert(t);
         for (auto &p : ps) ports.insert({types[p[0] - 1], types[p[1] - 1], p[2], p[3]});
         if (training_only) continue;
         Array<int> off(1); off[0] = 0;
         vector<BasisTag> tags;
         for (size_t m = 0; m < types.size(); m++)
            for (int k = 0; k < (nv ? nv : 1); k++)
            {
               int v = nv ? k + 1 : 0;
               off.Append(dimof(types[m], v));
               tags.push_back(tagof(types[m], v, nv));
            }
         off.PartialSum();
         BlockVector U(off);
         int b = 0;
         for (size_t m = 0; m < types.size(); m++)
            for (int k = 0; k < (nv ? nv : 1); k++, b++)
               for (int i = 0; i < U.BlockSize(b); i++) U.GetBlock(b)(i) = entry(id, m + 1, nv ? k + 1 : 0, i);
         Array<int> cols;
         if (num % 2) { cols.SetSize(2); cols = -5; }
         g->SaveSnapshot(&U, tags, cols);
         FakeTopology topo(types, ps, NAMES);
         g->SaveSnapshotPorts(&topo, cols);
         U = -1.0e5;  // what was sampled must have been copied
         vector<string> pj;
         for (auto &p : ps) pj.push_back(jint({p[0], p[1], p[2], p[3]}));
         say(Ev("Sample").i("id", id).ai("types", types).raw("ps", jarr(pj)).ai("cols", cols, cols.Size()));
         state(*g, nv, comps, ports);
      }
      else if (op == "write")
      {
         filed[cur].insert(comps.begin(), comps.end());
         portfiled[cur] = ports; portcomps[cur] = comps;
         if (training_only) continue;
         g->WriteSnapshots();
         g->WriteSnapshotPorts();
         say(Ev("Write"));
      }
      else
      {
         if (!training)
         {
            training = true; quiet = false;
            if (training_only) say(Ev("Joined").i("num", num));
         }
         if (op == "train")
         {
            // training is run from another directory
            if (chdir((base + "/train").c_str())) harness_error("chdir");
            trained++;
            d = o["d"].as<int>();
            conf["sample_generation"]["file_path"]["directory"] = "../run/s";
            conf["sample_generation"]["file_path"]["prefix"] = "p" + to_string(d);
            conf["basis"]["prefix"] = "b/basis" + to_string(trained);
            conf["basis"]["svd"]["save_spectrum"] = (trained % 2 == 0);
            put();
            comps.clear(); ports.clear();
            g.reset(new SampleGenerator(MPI_COMM_WORLD));
            say(Ev("Train").i("d", d));
            continue;
         }
         conf.remove("sample_collection");
         conf["basis"].remove("tags");
         YAML::Node none;
         conf["mesh"]["component-wise"]["components"] = YAML::Load("[]");
         string how;
         if (op == "port")
         {
            how = o["how"].as<string>();
            YAML::Node c; c["mode"] = "port";
            vector<int> used;
            if (how == "list" || how == "both")
               for (auto x : o["list"]) { c["port_files"].push_back("../run/s/p" + x.as<string>() + "_sample.port.h5"); used.push_back(x.as<int>()); }
            if (how == "format" || how == "both")
            {
               c["port_fileformat"] = YAML::Load("{format: ../run/s/p%d_sample.port.h5}");
               c["port_fileformat"]["minimum"] = o["lo"].as<int>();
               c["port_fileformat"]["maximum"] = o["hi"].as<int>();
               for (int p = o["lo"].as<int>(); p <= o["hi"].as<int>(); p++) used.push_back(p);
            }
            if (how == "none") c["port_files"] = YAML::Load("[]");
            if (used.empty()) used.push_back(d);
            conf["sample_collection"] = c;
            put();
            for (int p : used)
            {
               comps.insert(portcomps[p].begin(), portcomps[p].end());
               ports.insert(portfiled[p].begin(), portfiled[p].end());
            }
            CollectSamples(g.get());
            vector<int> l; for (auto x : o["list"]) l.push_back(x.as<int>());
            say(Ev("Port").s("how", how).ai("list", l).i("lo", o["lo"].as<int>()).i("hi", o["hi"].as<int>()));
         }
         else
         {
            YAML::Node c; if (num % 3) c["mode"] = "basis";
            if (num % 3) conf["sample_collection"] = c;
            YAML::Node tl = YAML::Load("[]");
            vector<string> tj;
            for (auto t : o["tags"])
            {
               int cc = t["c"].as<int>();
               comps.insert(cc);
               how = t["how"].as<string>();
               YAML::Node comp; comp["name"] = NAMES[cc - 1]; comp["file"] = "unused.mesh";
               conf["mesh"]["component-wise"]["components"].push_back(comp);
               vector<int> l; for (auto x : t["list"]) l.push_back(x.as<int>());
               int lo = t["lo"].as<int>(), hi = t["hi"].as<int>();
               for (int k = 0; k < (nv ? nv : 1); k++)
               {
                  string tag = tagof(cc, nv ? k + 1 : 0, nv).print();
                  YAML::Node e; e["name"] = tag;
                  if (how == "list" || how == "both") for (int x : l) e["snapshot_files"].push_back("../run/s/p" + to_string(x) + "_sample_" + tag + "_snapshot");
                  if (how == "format" || how == "both")
                  {
                     e["snapshot_format"]["format"] = "../run/s/p%d_sample_" + tag + "_snapshot";
                     e["snapshot_format"]["minimum"] = lo;
                     e["snapshot_format"]["maximum"] = hi;
                  }
                  if (how != "none") tl.push_back(e);
               }
               tj.push_back("{\"c\":" + to_string(cc) + ",\"how\":" + q(how) + ",\"list\":" + jint(vector<long>(l.begin(), l.end())) + ",\"lo\":" + to_string(lo) + ",\"hi\":" + to_string(hi) + "}");
            }
            if (tl.size()) conf["basis"]["tags"] = tl;
            put();
            {
               vector<BasisTag> bt = GetGlobalBasisTagList(SetTopologyHandlerMode(), nv > 0);
               vector<string> got; vector<int> want;
               for (auto t : o["tags"]) want.push_back(t["c"].as<int>());
               for (auto &b : bt)
               {
                  int ci = find(NAMES.begin(), NAMES.end(), b.comp) - NAMES.begin() + 1;
                  vector<string> vn = varnames(nv);
                  int vi = find(vn.begin(), vn.end(), b.var) - vn.begin() + (nv ? 1 : 0);
                  got.push_back(jint({ci, vi}));
               }
               say(Ev("Tags").i("nv", nv).ai("comps", want).raw("got", jarr(got)));
            }
            CollectSamples(g.get());
            say(Ev("Basis").raw("tags", jarr(tj)));
         }
         state(*g, nv, comps, ports);
         if (num % 4 == 0 && ranks_ == 1)
         {
            for (int c = 1; c <= 3; c++)
               if (!comps.count(c)) { bool ok = survives([&]() { g->LookUpSnapshot(tagof(c, nv ? 1 : 0, nv)); }); say(Ev("Missing").b("ok", ok)); }
            if (ports.size() && !ports.count({1, 2, 1, 1}))
            { PortTag t = {NAMES[0], NAMES[1], 1, 1}; bool ok = survives([&]() { g->LookUpSnapshotPortColOffsets(t); }); say(Ev("Missing").b("ok", ok)); }
         }
      }
   }
   if (training)
   {
      string pre = "b/basis" + to_string(trained);
      g->FormReducedBasis(pre);
      MPI_Barrier(MPI_COMM_WORLD);
      for (int c : comps)
         for (int k = 0; k < (nv ? nv : 1); k++)
         {
            string f = pre + "_" + tagof(c, nv ? k + 1 : 0, nv).print();
            bool found = access((f + ".000000").c_str(), R_OK) == 0;
            vector<long> sv;
            ifstream in(f + "_sv.txt"); double x;
            while (in >> x) sv.push_back(fx(x, 1.0));
            say(Ev("BasisFile").b("found", found).b("sv", trained % 2 == 0).ai("values", sv));
         }
      MPI_Barrier(MPI_COMM_WORLD);
      if (rank_ == 0) system("rm -f b/*");
      MPI_Barrier(MPI_COMM_WORLD);
   }
   say(Ev("End"));
}

static void grid(YAML::Node s, int num)
{
   const bool random = s["random"].as<bool>();
   YAML::Node c = YAML::Load("{sample_generation: {random_sample_generator: {}, file_path: {directory: dir}, parameters: []}, p: {keep: 1}}");
   vector<string> pj; vector<int> sizes, kinds, steps;
   int k = 0;
   for (auto p : s["ps"])
   {
      int kind = p["kind"].as<int>(), lo = p["lo"].as<int>(), n = p["n"].as<int>(), step = p["step"].as<int>();
      int hi = lo + (n > 1 ? n - 1 : 1) * step;
      YAML::Node e; e["key"] = "p/x" + to_string(k);
      e["type"] = kind == 0 ? "double" : kind == 1 ? "integer" : "filename";
      if (kind == 0) { e["minimum"] = 0.5 * lo; e["maximum"] = 0.5 * hi; } else { e["minimum"] = lo; e["maximum"] = hi; }
      if (kind == 2) e["format"] = "f%03d.mesh";
      e["sample_size"] = n;
      c["sample_generation"]["parameters"].push_back(e);
      sizes.push_back(n); kinds.push_back(kind);
      pj.push_back("{\"lo\":" + to_string(lo) + ",\"hi\":" + to_string(hi) + ",\"n\":" + to_string(n) + ",\"step\":" + to_string(step) + "}");
      k++;
   }
   c["sample_generation"]["random_sample_generator"]["number_of_samples"] = s["total"].as<int>();
   c["sample_generation"]["type"] = random ? "random" : "base";
   config.dict_ = c;
   unique_ptr<SampleGenerator> g(InitSampleGenerator(MPI_COMM_WORLD));
   g->SetParamSpaceSizes();
   if (g->GetType() != (random ? RANDOM : BASE)) say(Ev("WrongType"));
   const int total = g->GetTotalSampleSize();
   vector<string> nested, vals, own, own2, paths; vector<long> back; vector<char> mine(total), mine2(total), all(total * ranks_), all2(total * ranks_);
   for (int i = 0; i < total; i++)
   {
      const Array<int> idx = g->GetSampleIndex(i);
      vector<long> ni; for (int j = 0; j < idx.Size(); j++) ni.push_back(idx[j]);
      nested.push_back(jint(ni));
      back.push_back(g->GetSampleIndex(idx));
      mine[i] = g->IsMyJob(i); mine2[i] = g->IsMyJob(idx);
      if (i % 2) g->SetSampleParams(i); else g->SetSampleParams(idx);
      vector<long> vv;
      for (size_t j = 0; j < kinds.size(); j++)
      {
         string key = "p/x" + to_string(j);
         if (kinds[j] == 0) vv.push_back(fx(config.GetRequiredOption<double>(key), 2.0));
         else if (kinds[j] == 1) vv.push_back(config.GetRequiredOption<int>(key));
         else
         {
            string f = config.GetRequiredOption<string>(key); int n = -1; char buf[64];
            sscanf(f.c_str(), "f%d.mesh", &n); snprintf(buf, 64, "f%03d.mesh", n);
            vv.push_back(f == buf ? n : -1000);
         }
      }
      vals.push_back(jint(vv));
      paths.push_back(q(g->GetSamplePath(i, num % 2 ? "sol" : "")));
   }
   MPI_Gather(mine.data(), total, MPI_CHAR, all.data(), total, MPI_CHAR, 0, MPI_COMM_WORLD);
   MPI_Gather(mine2.data(), total, MPI_CHAR, all2.data(), total, MPI_CHAR, 0, MPI_COMM_WORLD);
   for (int r = 0; r < ranks_; r++)
   {
      string a, b;
      for (int i = 0; i < total; i++)
      {
         a += string(i ? "," : "") + (all[r * total + i] ? "true" : "false");
         b += string(i ? "," : "") + (all2[r * total + i] ? "true" : "false");
      }
      own.push_back("[" + a + "]"); own2.push_back("[" + b + "]");
   }
   vector<long> sz(sizes.begin(), sizes.end());
   say(Ev("Begin").i("nv", 0));
   Ev e(random ? "Random" : "Grid");
   e.i("total", total).raw("sizes", jint(sz)).raw("ps", jarr(pj)).raw("nested", jarr(nested)).raw("back", jint(back)).raw("own", jarr(own)).raw("own2", jarr(own2))
    .raw("vals", jarr(vals)).raw("paths", jarr(paths)).s("name", num % 2 ? "sol" : "sample");
   say(e);
}

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
   MPI_Comm_size(MPI_COMM_WORLD, &ranks_);
   string mode = argv[1];
   if (rank_ == 0) tf();
   ifstream in(argv[2]); string line; int num = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      num++;
      YAML::Node s = YAML::Load(line);
      if (mode == "grid") { grid(s, num); continue; }
      base = string(argv[3]) + "/" + to_string(num);
      if (mode == "run")
         for (string x : {"", "/run", "/run/s", "/train", "/train/b"}) mkdir((base + x).c_str(), 0755);
      scenario(s, num, mode == "train");
   }
   MPI_Finalize();
   return 0;
}
