// Replays storage scenarios (spec/StoreGen.tla) on hdf5_utils.  argv: scenario file
#include "content.hpp"
#include "hyperreduction_integ.hpp"
#include "yaml-cpp/yaml.h"
#include <map>
using namespace hdf5_utils;

struct File { hid_t id = -1; map<string, hid_t> grp; };
static map<string, File> files;
static hid_t &at(const string &f, const string &g)
{ if (g == "/") return files[f].id; return files[f].grp[g]; }
static Ev ev(const char *e, const YAML::Node &o)
{
   Ev r(e);
   for (const char *k : {"f", "g", "c", "n", "kind"}) if (o[k]) r.s(k, o[k].as<string>());
   return r;
}
// deep copies (MatrixBlocks has no deep copy of its own in scope here)
template<class T, class W> void wr(const YAML::Node &o, T &v, W w)
{
   string before = content(v).json();
   w(at(o["f"].as<string>(), o["g"].as<string>()), o["n"].as<string>(), v);
   emit(ev("Write", o).raw("v", before).raw("after", content(v).json()));
}
template<class T> void obj(const YAML::Node &o, bool write)
{
   Rng r(o["seed"].as<int>() + 7);
   T v;
   if (write) { randomize(r, v); wr(o, v, [](hid_t &h, string n, T &x) { WriteDataset(h, n, x); }); return; }
   if (r.in(0, 2)) randomize(r, v);      // the target of a read may hold anything
   ReadDataset(at(o["f"].as<string>(), o["g"].as<string>()), o["n"].as<string>(), v);
   emit(ev("Read", o).raw("v", content(v).json()));
   morph(r, v);
   ReadDataset(at(o["f"].as<string>(), o["g"].as<string>()), o["n"].as<string>(), v);
   emit(ev("Read", o).raw("v", content(v).json()));
}
template<class T> void attr(const YAML::Node &o, bool write)
{
   Rng r(o["seed"].as<int>() + 7);
   T v; fill(r, v);
   hid_t &h = at(o["f"].as<string>(), o["g"].as<string>());
   if (write) WriteAttribute(h, o["n"].as<string>(), v); else ReadAttribute(h, o["n"].as<string>(), v);
   Content c; c.dims = {1}; c.x = {tok(v)};
   if (write) emit(ev("Write", o).raw("v", c.json()).raw("after", c.json()));
   else emit(ev("Read", o).raw("v", c.json()));
}
int main(int argc, char **argv)
{
   ifstream in(argv[1]);
   string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node sc = YAML::Load(line);
      emit(Ev("Begin"));
      files.clear();
      map<string, Array<int>> offs;       // block offsets a caller of ReadBlockMatrix must know
      for (size_t k = 0; k < sc.size(); k++)
      {
         YAML::Node o = sc[k];
         string op = o["op"].as<string>();
         if (op == "Done") continue;
         string f = o["f"].as<string>();
         if (op == "Create" || op == "Open")
         {
            File &x = files[f];
            string p = f + ".h5";
            if (op == "Create") x.id = H5Fcreate(p.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            else x.id = H5Fopen(p.c_str(), o["m"].as<string>() == "ro" ? H5F_ACC_RDONLY : H5F_ACC_RDWR, H5P_DEFAULT);
            if (x.id < 0) { emit(Ev("CannotOpen").s("f", f)); return 0; }   // something still holds the file
            for (const char *g : {"g", "h2"})
               x.grp[g] = op == "Create" ? H5Gcreate(x.id, g, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT) : H5Gopen2(x.id, g, H5P_DEFAULT);
            Ev e = ev(op.c_str(), o);
            if (op == "Open") e.s("m", o["m"].as<string>());
            emit(e);
         }
         else if (op == "Close")
         {
            for (auto &g : files[f].grp) H5Gclose(g.second);
            H5Fclose(files[f].id); files[f].id = -1;
            emit(ev("Close", o));
         }
         else if (op == "Exists") emit(ev("Exists", o).b("res", pathExists(at(f, o["g"].as<string>()), o["n"].as<string>())));
         else if (op == "Size")
         {
            hsize_t *d = NULL;
            int n = GetDatasetSize(at(f, o["g"].as<string>()), o["n"].as<string>(), d);
            vector<long> r; for (int i = 0; i < n; i++) r.push_back(d[i]);
            delete[] d;
            emit(ev("Size", o).raw("res", jint(r)));
         }
         else
         {
            bool w = op == "Write";
            string kind = o["kind"].as<string>();
            int sd = o["seed"].as<int>();
            hid_t &h = at(f, o["g"].as<string>());
            string n = o["n"].as<string>();
            if (kind == "ai") obj<Array<int>>(o, w);
            else if (kind == "ad") obj<Array<double>>(o, w);
            else if (kind == "ab") obj<Array<bool>>(o, w);
            else if (kind == "a2i") obj<Array2D<int>>(o, w);
            else if (kind == "a2d") obj<Array2D<double>>(o, w);
            else if (kind == "a2b") obj<Array2D<bool>>(o, w);
            else if (kind == "vec") obj<Vector>(o, w);
            else if (kind == "dm") obj<DenseMatrix>(o, w);
            else if (kind == "dt") obj<DenseTensor>(o, w);
            else if (kind == "mb") obj<MatrixBlocks>(o, w);
            else if (kind == "sp")
            {
               Rng r(sd + 7);
               if (w)
               {
                  int a = rsize(r, 1), b = rsize(r, 1);
                  SparseMatrix *s = rsparse(r, a, b);
                  wr(o, *s, [](hid_t &h, string n, SparseMatrix &x) { WriteSparseMatrix(h, n, &x); });
                  delete s;
               }
               else
               {
                  SparseMatrix *s = ReadSparseMatrix(h, n);
                  emit(ev("Read", o).raw("v", content(*s).json()));
                  delete s;
               }
            }
            else if (kind == "bm")
            {
               Rng r(sd + 7);
               string key = f + "|" + o["g"].as<string>() + "|" + n;
               if (w)
               {
                  int nb = r.in(1, 4);
                  Array<int> off(nb + 1); off[0] = 0;
                  for (int i = 0; i < nb; i++) off[i + 1] = off[i] + r.in(1, 5);
                  BlockMatrix *m = new BlockMatrix(off); m->owns_blocks = true;
                  for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) if (r.in(0, 3))
                     m->SetBlock(i, j, rsparse(r, off[i + 1] - off[i], off[j + 1] - off[j]));
                  wr(o, *m, [](hid_t &h, string n, BlockMatrix &x) { WriteBlockMatrix(h, n, &x); });
                  offs[key] = off;
                  delete m;
               }
               else
               {
                  BlockMatrix *m = ReadBlockMatrix(h, n, offs[key]);
                  emit(ev("Read", o).raw("v", content(*m).json()));
                  delete m;
               }
            }
            else if (kind.substr(0, 2) == "si")
            {
               Rng r(sd + 7);
               IntegratorType t = (IntegratorType) (kind[2] - '0');
               Array<SampleInfo> v;
               if (w) { randomize(r, v); wr(o, v, [t](hid_t &h, string n, Array<SampleInfo> &x) { WriteDataset(h, n, t, x); }); }
               else
               {
                  if (r.in(0, 2)) randomize(r, v);
                  ReadDataset(h, n, t, v);
                  emit(ev("Read", o).raw("v", content(v).json()));
               }
            }
            else if (kind.substr(0, 2) == "eq")
            {  // the sampled quadrature points of one reduced integrator
               Rng r(sd + 7);
               IntegratorType t = (IntegratorType) (kind[2] - '0');
               Array<SampleInfo> v; if (w || r.in(0, 2)) randomize(r, v);
               EQPElement el(v);
               auto look = [&]() { Array<SampleInfo> a(el.Size()); for (int i = 0; i < el.Size(); i++) a[i] = el.GetSample(i)->info; return content(a).json(); };
               if (w) { string before = look(); el.Save(h, n, t); emit(ev("Write", o).raw("v", before).raw("after", look())); }
               else { el.Load(h, n, t); emit(ev("Read", o).raw("v", look())); }
            }
            else if (kind == "i") attr<int>(o, w);
            else if (kind == "d") attr<double>(o, w);
            else if (kind == "b") attr<bool>(o, w);
            else if (kind == "s" || kind == "tag")
            {
               Rng r(sd + 7);
               Content c; c.dims = {1};
               if (kind == "s")
               {
                  string v = rstring(r);
                  if (w) WriteAttribute(h, n, v); else ReadAttribute(h, n, v);
                  c.x = {v};
               }
               else
               {
                  BasisTag t(rstring(r), rstring(r));
                  if (w) WriteAttribute(h, n, t); else ReadAttribute(h, n, t);
                  c.x = {t.comp, t.var};
               }
               if (w) emit(ev("Write", o).raw("v", c.json()).raw("after", c.json()));
               else emit(ev("Read", o).raw("v", c.json()));
            }
            else harness_error("kind");
         }
      }
      for (auto &x : files) if (x.second.id >= 0)
      {
         for (auto &g : x.second.grp) H5Gclose(g.second);
         H5Fclose(x.second.id);
      }
   }
   return 0;
}
