// Replays configuration scenarios (JSON lines, from spec/ConfigGen.tla) on the real InputParser.
// argv: scenario file, "serial" | "mpi"
#include "input_parser.hpp"
#include "trace.hpp"
#include "cfgdump.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <map>
using namespace std;
using namespace vt;

static string join(const YAML::Node &p, int from, int to)
{
   string r;
   for (int i = from; i < to; i++) { if (i > from) r += "/"; r += p[i].as<string>(); }
   return r;
}
static string jpath(const YAML::Node &p)
{
   vector<string> r;
   for (size_t i = 0; i < p.size(); i++) r.push_back(q(p[i].as<string>()));
   return jarr(r);
}
static string jval(const YAML::Node &v) { return "{\"t\":" + q(v["t"].as<string>()) + ",\"s\":" + q(v["s"].as<string>()) + "}"; }

static string gfmt(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static string afmt(const Array<int> &a) { string r = "["; for (int i = 0; i < a.Size(); i++) { if (i) r += ","; r += to_string(a[i]); } return r + "]"; }
static Array<int> aparse(const string &s)
{
   YAML::Node n = YAML::Load(s); Array<int> a;
   for (size_t i = 0; i < n.size(); i++) a.Append(n[i].as<int>());
   return a;
}

static string read(InputParser &c, const string &op, const string &type, const string &key, const string &fb, YAML::Node *base)
{
   bool req = (op == "Require");
#define RD(T, F) (req ? (base ? c.GetRequiredOptionFromDict<T>(key, *base) : c.GetRequiredOption<T>(key)) \
                      : (base ? c.GetOptionFromDict<T>(key, F, *base) : c.GetOption<T>(key, F)))
   if (type == "int") return to_string(RD(int, atoi(fb.c_str())));
   if (type == "double") return gfmt(RD(double, atof(fb.c_str())));
   if (type == "bool") return RD(bool, fb == "true") ? "true" : "false";
   if (type == "list") return afmt(RD(Array<int>, aparse(fb)));
   if (type == "listd" || type == "listv")
   {
      Array<int> fa = aparse(fb);
      Array<double> fd; Vector fv(fa.Size());
      for (int i = 0; i < fa.Size(); i++) { fd.Append(fa[i]); fv(i) = fa[i]; }
      string r = "[";
      if (type == "listd") { Array<double> a(RD(Array<double>, fd)); for (int i = 0; i < a.Size(); i++) r += (i ? "," : "") + gfmt(a[i]); }
      else { Vector a(RD(Vector, fv)); for (int i = 0; i < a.Size(); i++) r += (i ? "," : "") + gfmt(a(i)); }
      return r + "]";
   }
   if (type == "lists")
   {
      Array<int> fa = aparse(fb); vector<string> fs;
      for (int i = 0; i < fa.Size(); i++) fs.push_back(to_string(fa[i]));
      vector<string> a = RD(vector<string>, fs);
      string r = "[";
      for (size_t i = 0; i < a.size(); i++) r += (i ? "," : "") + a[i];
      return r + "]";
   }
   return RD(string, fb);
}
static void emitMap(ostream &o, const map<vector<string>, string> &m, vector<string> pre, int ind)
{
   string last;
   for (auto &kv : m)
   {
      if (kv.first.size() <= pre.size() || !equal(pre.begin(), pre.end(), kv.first.begin())) continue;
      string k = kv.first[pre.size()];
      if (k == last) continue;
      last = k;
      vector<string> p(pre); p.push_back(k);
      o << string(ind, ' ') << k << ":";
      if (kv.first.size() == p.size()) o << " " << kv.second << "\n";
      else { o << "\n"; emitMap(o, m, p, ind + 2); }
   }
}

int main(int argc, char **argv)
{
   bool mpi = string(argv[2]) == "mpi";
   if (mpi) MPI_Init(&argc, &argv);
   ifstream in(argv[1]);
   string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node sc = YAML::Load(line);
      emit(Ev("Begin"));
      InputParser c;
      string file = "cfg.yml";
      for (size_t k = 0; k < sc.size(); k++)
      {
         YAML::Node e = sc[k];
         string op = e["op"].as<string>();
         if (op == "Load")
         {
            ofstream f(file);
            map<vector<string>, string> m;
            vector<string> jb, jr, jo;
            for (size_t i = 0; i < e["base"].size(); i++)
            {
               vector<string> p;
               for (size_t j = 0; j < e["base"][i]["p"].size(); j++) p.push_back(e["base"][i]["p"][j].as<string>());
               m[p] = e["base"][i]["v"]["s"].as<string>();
               jb.push_back("{\"p\":" + jpath(e["base"][i]["p"]) + ",\"v\":" + jval(e["base"][i]["v"]) + "}");
            }
            emitMap(f, m, vector<string>(), 0);
            f << "rows:" << (e["rows"].size() ? "\n" : " []\n");
            for (size_t i = 0; i < e["rows"].size(); i++)
            {
               vector<string> r;
               for (size_t j = 0; j < e["rows"][i].size(); j++)
               {
                  string kk = e["rows"][i][j]["k"].as<string>(), vv = e["rows"][i][j]["v"].as<string>();
                  f << (j ? "    " : "  - ") << kk << ": " << vv << "\n";
                  r.push_back("{\"k\":" + q(kk) + ",\"v\":" + q(vv) + "}");
               }
               jr.push_back(jarr(r));
            }
            f.close();
            string forced;
            for (size_t i = 0; i < e["ovr"].size(); i++)
            {
               YAML::Node o = e["ovr"][i];
               if (i) forced += ":";
               forced += join(o["p"], 0, o["p"].size()) + "=" + o["v"]["s"].as<string>();
               jo.push_back("{\"p\":" + jpath(o["p"]) + ",\"v\":" + jval(o["v"]) + "}");
            }
            if (e["trail"].as<bool>() && forced.size()) forced += ":";
            c = InputParser(file, forced);
            emit(Ev("Load").raw("base", jarr(jb)).raw("rows", jarr(jr)).raw("ovr", jarr(jo)).raw("dump", dump(c)));
         }
         else if (op == "Get" || op == "Require")
         {
            YAML::Node p = e["path"];
            int sp = e["split"].as<int>(), n = p.size();
            string type = e["type"].as<string>(), fb = e["fb"].as<string>(), res;
            YAML::Node base, *bp = NULL;
            if (sp > 0)
            {  // read relative to a section, if that section is there
               YAML::Node cl = YAML::Clone(c.dict_);
               bool sect = true;
               for (int i = 0; i < sp && sect; i++)
               {
                  YAML::Node nx;
                  if (cl.IsMap()) nx.reset(cl[p[i].as<string>()]);
                  sect = nx.IsDefined() && nx.IsMap();
                  if (sect) cl.reset(nx);
               }
               if (sect) { base.reset(c.FindNode(join(p, 0, sp))); bp = &base; }
            }
            string key = join(p, bp ? sp : 0, n);
            if (op == "Require")
            {  // a missing required option ends the program: do it in a child
               int fd[2];
               if (pipe(fd)) harness_error("pipe");
               fflush(tf());
               pid_t pid = fork();
               if (pid == 0)
               {
                  string r = read(c, op, type, key, fb, bp);
                  if (write(fd[1], r.c_str(), r.size()) < 0) _exit(78);
                  _exit(0);
               }
               close(fd[1]);
               char b[256]; ssize_t m; 
               while ((m = ::read(fd[0], b, 256)) > 0) res.append(b, m);
               close(fd[0]);
               int st; waitpid(pid, &st, 0);
               if (WIFEXITED(st) && WEXITSTATUS(st) != 0) res = "EXIT";
               else if (!WIFEXITED(st)) res = "SIGNAL";
            }
            else res = read(c, op, type, key, fb, bp);
            emit(Ev(op.c_str()).raw("path", jpath(p)).s("type", type).s("fb", fb).s("res", res).raw("dump", dump(c)));
         }
         else if (op == "Has")
         {
            bool r = (bool) c.FindNode(join(e["path"], 0, e["path"].size()));
            emit(Ev("Has").raw("path", jpath(e["path"])).b("res", r).raw("dump", dump(c)));
         }
         else if (op == "Set")
         {
            YAML::Node p = e["path"];
            string t = e["v"]["t"].as<string>(), s = e["v"]["s"].as<string>();
            int sp = e["split"].as<int>();
            YAML::Node base(c.dict_);
            if (sp > 0) base.reset(c.FindNode(join(p, 0, sp)));
            string key = join(p, sp, p.size());
#define ST(T, V) { if (sp > 0) c.SetOptionInDict<T>(key, V, base); else c.SetOption<T>(key, V); }
            if (t == "int") ST(int, atoi(s.c_str()))
            else if (t == "double") ST(double, atof(s.c_str()))
            else if (t == "bool") ST(bool, (s == "true"))
            else if (t == "list")
            {
               Array<int> a = aparse(s); Vector v(a.Size()); Array<double> ad; vector<string> as;
               for (int i = 0; i < a.Size(); i++) { v(i) = a[i]; ad.Append(a[i]); as.push_back(to_string(a[i])); }
               switch ((k + a.Size()) % 4)
               {
                  case 0: ST(Array<int>, a) break;
                  case 1: ST(Vector, v) break;
                  case 2: ST(Array<double>, ad) break;
                  default: ST(vector<string>, as)
               }
            }
            else ST(string, s)
            emit(Ev("Set").raw("path", jpath(p)).raw("v", jval(e["v"])).raw("dump", dump(c)));
         }
         else if (op == "Row" || op == "RowValue")
         {
            string lk = e["lk"].as<string>(), lv = e["lv"].as<string>(), rk = e["rk"].as<string>(), d = e["dflt"].as<string>();
            YAML::Node rows = c.FindNode("rows");
            if (op == "Row")
            {
               YAML::Node r = c.LookUpFromDict<string>(lk, lv, rows);
               int idx = 0;
               if (r)
               {
                  idx = -1;
                  for (size_t i = 0; i < rows.size(); i++) if (rows[i].is(r)) idx = i + 1;
               }
               emit(Ev("Row").s("lk", lk).s("lv", lv).i("res", idx).raw("dump", dump(c)));
            }
            else
            {
               string r = c.LookUpFromDict<string, string>(lk, lv, rk, d, rows);
               emit(Ev("RowValue").s("lk", lk).s("lv", lv).s("rk", rk).s("dflt", d).s("res", r).raw("dump", dump(c)));
            }
         }
         else if (op == "Bad")
         {
            fflush(tf());
            pid_t pid = fork();
            if (pid == 0) { InputParser b(file, e["text"].as<string>()); _exit(0); }
            int st; waitpid(pid, &st, 0);
            string res = (WIFEXITED(st) && WEXITSTATUS(st) != 0) ? "EXIT" : (WIFEXITED(st) ? "ACCEPTED" : "EXIT");
            emit(Ev("Bad").s("text", e["text"].as<string>()).s("res", res).raw("dump", dump(c)));
         }
      }
   }
   if (mpi) MPI_Finalize();
   return 0;
}
