// Every leaf of a parser's tree, by text.
#ifndef VERIF_CFGDUMP_HPP
#define VERIF_CFGDUMP_HPP
#include "input_parser.hpp"
#include "trace.hpp"
using namespace std;
using namespace vt;
static string text(const YAML::Node &n)
{
   if (n.IsScalar()) return n.Scalar();
   if (n.IsNull()) return "null";
   if (n.IsSequence())
   {
      string r = "[";
      for (size_t i = 0; i < n.size(); i++) { if (i) r += ","; r += text(n[i]); }
      return r + "]";
   }
   return "?";
}
static void walk(const YAML::Node &n, vector<string> &path, vector<string> &out)
{
   if (n.IsMap())
   {
      for (YAML::const_iterator it = n.begin(); it != n.end(); ++it)
      {
         string k = it->first.as<string>();
         if (path.empty() && k == "rows") continue;
         path.push_back(k);
         walk(it->second, path, out);
         path.pop_back();
      }
      return;
   }
   vector<string> p;
   for (auto &k : path) p.push_back(q(k));
   out.push_back("{\"p\":" + jarr(p) + ",\"s\":" + q(text(n)) + "}");
}
static string dump(const InputParser &cfg)
{
   vector<string> path, out;
   YAML::Node n = YAML::Clone(cfg.dict_);      // the harness must not touch the parser's own nodes
   if (n.IsMap()) walk(n, path, out);
   return jarr(out);
}
#endif
