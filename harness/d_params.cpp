// Sampling parameters writing into a configuration.  argv: scenario file
#include "parameter.hpp"
#include "etc.hpp"
#include "cfgdump.hpp"
#include "fork.hpp"
#include <memory>
static const double U = 10000.0;
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line; int round = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line); round++;
      { ofstream o("p.yml"); o << "keep: 7\nb: {z: [1, 2], c: old}\nq1: {w: text}\n"; }
      InputParser cfg("p.yml");
      vector<unique_ptr<Parameter>> ps; vector<string> key, kind; vector<double> lo, hi; vector<int> size; vector<string> defs;
      for (auto p : s["ps"])
      {
         string k, kd = p["kind"].as<string>(); vector<string> kj;
         for (auto x : p["key"]) { k += (k.empty() ? "" : "/") + x.as<string>(); kj.push_back(q(x.as<string>())); }
         int a = p["min"].as<int>(), b = p["max"].as<int>();
         YAML::Node opt; opt["key"] = k; opt["sample_size"] = 3;
         if (kd == "log") { opt["minimum"] = pow(2.0, a); opt["maximum"] = pow(2.0, b); opt["log_scale"] = true; }
         else { opt["minimum"] = a; opt["maximum"] = b; if (kd == "real" && round % 2) opt["log_scale"] = false; }
         if (kd == "file") { int w = p["wid"].as<int>(); opt["format"] = p["pre"].as<string>() + (w ? "%0" + to_string(w) + "d" : "%d") + p["post"].as<string>(); }
         if (kd == "int") ps.emplace_back(new IntegerParam(k, opt));
         else if (kd == "file") ps.emplace_back(new FilenameParam(k, opt));
         else ps.emplace_back(new DoubleParam(k, opt));
         key.push_back(k); kind.push_back(kd); lo.push_back(a); hi.push_back(b); size.push_back(0);
         defs.push_back("{\"kind\":" + q(kd) + ",\"key\":" + jarr(kj) + ",\"min\":" + to_string(a) + ",\"max\":" + to_string(b) + ",\"pre\":" + q(p["pre"].as<string>())
                        + ",\"wid\":" + to_string(p["wid"].as<int>()) + ",\"post\":" + q(p["post"].as<string>()) + "}");
      }
      { Ev e("Begin"); e.raw("ps", jarr(defs)).raw("cfg", dump(cfg)); emit(e); }
      auto value = [&](int k) -> double
      {
         if (kind[k] == "file") return 0;
         if (kind[k] == "int") return cfg.GetRequiredOption<int>(key[k]);
         double v = cfg.GetRequiredOption<double>(key[k]);
         return kind[k] == "log" ? log2(v) : v;
      };
      auto state = [&](Ev &e, int k) { e.s("s", cfg.GetRequiredOption<string>(key[k])).raw("cfg", dump(cfg)); };
      for (auto o : s["ops"])
      {
         string op = o["op"].as<string>(); int k = o["k"].as<int>() - 1, n = o["n"].as<int>(), i = o["i"].as<int>();
         Parameter &p = *ps[k]; if (p.GetKey() != key[k]) emit(Ev("WrongKey"));
         bool isint = kind[k] == "int" || kind[k] == "file";
         if (op == "size")
         {
            int m = i % 9 == 0 ? -(i % 2) : n; bool ok = survives([&]() { p.SetSize(m); });
            if (ok) { p.SetSize(m); size[k] = m; }
            emit(Ev("Size").i("k", k + 1).i("n", m).b("ok", ok));
         }
         else if (op == "max") { if (!isint) continue; ((IntegerParam &) p).SetMaximumSize(); size[k] = (int) (hi[k] - lo[k]) + 1; emit(Ev("Max").i("k", k + 1)); emit(Ev("GetSize").i("k", k + 1).i("n", p.GetSize())); }
         else if (op.substr(0, 3) == "set")
         {
            int m = op == "set" ? size[k] - 1 : op == "set2" ? 0 : i;
            if (m < 0 || m >= size[k]) op = "bad";
            else { p.SetParam(m, cfg); Ev e("Set"); e.i("k", k + 1).i("i", m).i("v", isint ? (long) value(k) : fx(value(k), U)); state(e, k); emit(e); }
         }
         if (op == "bad")
         {
            int m = i % 3 == 0 ? -1 : i % 3 == 1 ? size[k] : i;
            if (!survives([&]() { p.SetParam(m, cfg); })) emit(Ev("Refused").i("k", k + 1).i("i", m));
            else { p.SetParam(m, cfg); Ev e("Set"); e.i("k", k + 1).i("i", m).i("v", isint ? (long) value(k) : fx(value(k), U)); state(e, k); emit(e); }
         }
         if (op == "rand")
         {
            int nq = isint ? (int) (hi[k] - lo[k]) + 1 : (hi[k] > lo[k] ? 4 : 1);
            vector<long> hits(nq > 6 ? 6 : nq, 0); long out = 0;
            for (int t = 0; t < 300; t++)
            {
               p.SetRandomParam(cfg);
               double v = value(k);
               if (kind[k] == "file") { string f = cfg.GetRequiredOption<string>(key[k]); v = atoi(f.c_str() + 4); }
               if (v < lo[k] - 1e-9 || v > hi[k] + 1e-9) { out++; continue; }
               int h = hits.size();
               int b = isint ? (int) ((v - lo[k]) * h / nq) : hi[k] > lo[k] ? min(3, (int) (4 * (v - lo[k]) / (hi[k] - lo[k]))) : 0;
               hits[b]++;
               if (isint && nq > 6 && h == 6) { if (v == hi[k]) hits[5] += 0; }
            }
            Ev e("Rand"); e.i("k", k + 1).i("out", out).ai("hits", hits); state(e, k); emit(e);
         }
         else if (op == "list" && kind[k] == "file")
         {
            vector<string> f; if (i % 2) f.push_back("x"); vector<string> b = f; ((FilenameParam &) p).ParseFilenames(f);
            emit(Ev("Files").i("k", k + 1).as("before", b).as("names", f));
         }
      }
   }
   return 0;
}
