// Runs the mesh utilities and reads back what they write.  argv: scenario file, the four utilities
#include "num.hpp"
#include "yaml-cpp/yaml.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
static vector<string> files(const string &d)
{ vector<string> r; DIR *p = opendir(d.c_str()); while (dirent *e = readdir(p)) { string n = e->d_name; if (n != "." && n != ".." && n != "in.mesh") r.push_back(n); } closedir(p); sort(r.begin(), r.end()); return r; }
static vector<long> cellOf(const Vector &x, const vector<double> &h) { vector<long> c; for (size_t i = 0; i < h.size(); i++) { double t = x(i) / h[i]; c.push_back((long) floor(t)); } return c; }
// value of a mesh that a conversion must keep
static string listing(Mesh &m)
{
   vector<string> e, b;
   auto pts = [&](ElementTransformation &T, Geometry::Type g)
   { const IntegrationRule *ir = Geometries.GetVertices(g); vector<long> v; for (int i = 0; i < ir->GetNPoints(); i++) { Vector x; T.Transform(ir->IntPoint(i), x); for (int k = 0; k < x.Size(); k++) v.push_back(fx(x(k), 1e7)); } return v; };
   for (int i = 0; i < m.GetNE(); i++) { vector<long> v = pts(*m.GetElementTransformation(i), m.GetElementBaseGeometry(i)); e.push_back("{\"v\":" + jint(v) + ",\"a\":" + to_string(m.GetAttribute(i)) + "}"); }
   for (int i = 0; i < m.GetNBE(); i++) { vector<long> v = pts(*m.GetBdrElementTransformation(i), m.GetBdrElementBaseGeometry(i)); b.push_back("{\"v\":" + jint(v) + ",\"a\":" + to_string(m.GetBdrAttribute(i)) + "}"); }
   return "{\"e\":" + jarr(e) + ",\"b\":" + jarr(b) + ",\"d\":[" + to_string(m.Dimension()) + "," + to_string(m.SpaceDimension()) + "," + to_string(m.GetNV()) + "]}";
}
static int orderOf(Mesh &m) { return m.GetNodes() ? m.GetNodalFESpace()->GetMaxElementOrder() : 1; }
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line; int run = 0;
   const double lens[] = {1.0, 0.3, 7.0, 2.5};
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line); int tool = s["tool"].as<int>(); Rng r(s["seed"].as<int>() + 5);
      string dir = "b" + to_string(run++), cmd = "cd " + dir + " && " + argv[1 + tool]; mkdir(dir.c_str(), 0755);
      emit(Ev("Begin"));
      int odd = s["odd"].as<int>(), order = s["order"].as<int>(), rs = s["rs"].as<int>(); bool sx = s["simplex"].as<bool>(), pm = s["pm"].as<bool>();
      vector<long> n, d; vector<string> per; for (size_t i = 0; i < s["n"].size(); i++) { n.push_back(s["n"][i].as<long>()); d.push_back(s["d"][i].as<long>()); per.push_back(s["per"][i].as<bool>() ? "true" : "false"); }
      if (tool == 4)
      {  // conversion of a mesh of some dimension, type, order and attributes
         int dim = r.in(1, 3), o = r.in(1, 3); bool fnc = r.flip();
         Mesh m = dim == 1 ? Mesh::MakeCartesian1D(n[0]) : dim == 2 ? Mesh::MakeCartesian2D(n[0], n[1], sx ? Element::TRIANGLE : Element::QUADRILATERAL, false, 2.0, 3.0) :
                  Mesh::MakeCartesian3D(n[0] > 3 ? 3 : n[0], n[1] > 2 ? 2 : n[1], 1, sx ? Element::TETRAHEDRON : Element::HEXAHEDRON, 2.0, 3.0, 1.0);
         for (int i = 0; i < m.GetNE(); i++) m.SetAttribute(i, r.in(1, 5));
         for (int i = 0; i < m.GetNBE(); i++) m.SetBdrAttribute(i, r.in(1, 4));
         for (int i = 0; i < m.GetNV(); i++) for (int k = 0; k < dim; k++) m.GetVertex(i)[k] += r.in(-200, 200) / 3000.0;
         m.SetAttributes();
         bool curved = r.flip();
         if (curved)
         {
            m.SetCurvature(o, r.flip(), dim, r.flip() ? Ordering::byVDIM : Ordering::byNODES);
            m.Transform([](const Vector &x, Vector &y) { y = x; if (x.Size() > 1) y(0) += 0.0625 * x(1) * x(1); });
         }
         { ofstream f(dir + "/in.mesh"); f.precision(16); m.Print(f); }
         m = Mesh((dir + "/in.mesh").c_str());          // as a reader of the file has it
         cmd += " -m in.mesh -o " + to_string(order) + (fnc ? " -fnc" : r.flip() ? " -nfnc" : "");
         int rc = system((cmd + " > /dev/null 2>&1").c_str());
         vector<string> fs = files(dir); string after = "{\"e\":[],\"b\":[],\"d\":[]}"; int got = -1; bool geom = false;
         if (fs.size() == 1 && fs[0] == "in.mesh.mfem")
         {
            Mesh q((dir + "/in.mesh.mfem").c_str()); after = listing(q); got = orderOf(q);
            geom = q.GetNE() == m.GetNE() && q.SpaceDimension() == m.SpaceDimension();
            if (got >= orderOf(m)) for (int e = 0; geom && e < m.GetNE(); e++)
            {  // the order can hold the geometry: it is the same everywhere
               const IntegrationRule &ir = IntRules.Get(m.GetElementBaseGeometry(e), 4); Vector x, y;
               for (int i = 0; i < ir.GetNPoints(); i++) { m.GetElementTransformation(e)->Transform(ir.IntPoint(i), x); q.GetElementTransformation(e)->Transform(ir.IntPoint(i), y); y -= x; geom = geom && y.Norml2() < 1e-5; }
            }
         }
         emit(Ev("Convert").i("rc", WEXITSTATUS(rc)).raw("before", listing(m)).raw("after", after).i("order", got).i("want", order > 1 ? order : orderOf(m)).b("geom", geom));
         continue;
      }
      const char *ax[] = {"x", "y", "z"}, *lx[] = {"a", "b", "c"}; vector<double> L, h;
      for (size_t i = 0; i < n.size(); i++)
      {
         L.push_back(lens[(s["len"].as<int>() + i) % 4]); h.push_back(L[i] / (n[i] << rs));
         cmd += string(" -n") + ax[i] + " " + to_string(n[i]) + " -" + lx[i] + " " + to_string(L[i]);
         if (tool > 1 && (d[i] > 1 || r.flip())) cmd += string(" -d") + ax[i] + " " + to_string(d[i]);
      }
      cmd += " -rs " + to_string(rs) + (pm ? " -pm" : " -no-pm");
      if (tool > 1) cmd += " -o " + to_string(order) + (!pm ? "" : odd == 1 ? " -dir 7" : s["dir"].as<int>() == tool && r.flip() ? "" : " -dir " + s["dir"].as<string>()) + " -e " + (odd == 0 ? "5" : tool == 2 ? (sx ? "6" : "4") : (sx ? "4" : "6"));
      string name = s["name"].as<int>() == 0 ? "" : s["name"].as<int>() == 1 ? "out.mesh" : "a rather long name of a mesh.mesh";
      cmd += " -m \"" + name + "\"";
      emit(Ev("Request").raw("p", "{\"n\":" + jint(n) + ",\"d\":" + jint(d) + ",\"rs\":" + to_string(rs) + ",\"simplex\":" + (sx ? "true" : "false") + ",\"per\":" + jarr(per) + ",\"order\":" + to_string(order) + ",\"known\":" + (odd == 0 || (odd == 1 && pm) ? "false" : "true") + "}"));
      int rc = system((cmd + " > /dev/null 2>&1").c_str());
      vector<string> fs = files(dir);
      if (rc != 0 && fs.empty()) { emit(Ev("Refused")); continue; }
      const char *kind[] = {"1d", sx ? "rectangle-tri" : "rectangle-quad", sx ? "cubic-tetra" : "cubic-hexa"};
      emit(Ev("Written").as("files", fs).s("name", name).b("like", rc == 0 && fs.size() == 1 && fs[0].find(kind[tool - 1]) == 0 && fs[0].size() > 5 && fs[0].substr(fs[0].size() - 5) == ".mesh"));
      if (rc != 0 || fs.size() != 1) continue;
      Mesh m((dir + "/" + fs[0]).c_str()); int dim = m.Dimension();
      if (dim != (int) n.size()) { emit(Ev("Nodes").i("nv", -1).i("order", -1).i("dim", dim)); continue; }
      vector<string> es, bs; double cv = 1; for (double x : h) cv *= x;
      for (int e = 0; e < m.GetNE(); e++)
      {
         Vector c; ElementTransformation *T = m.GetElementTransformation(e); T->Transform(Geometries.GetCenter(m.GetElementBaseGeometry(e)), c);
         es.push_back("{\"c\":" + jint(cellOf(c, h)) + ",\"v\":" + to_string(fx(m.GetElementVolume(e) / cv, 1000)) + ",\"a\":" + to_string(m.GetAttribute(e)) + "}");
      }
      emit(Ev("Elements").raw("els", jarr(es)));
      for (int b = 0; b < m.GetNBE(); b++)
      {  // outer faces: those of one element only
         int el, info; m.GetBdrElementAdjacentElement(b, el, info);
         Vector c, x; ElementTransformation *T = m.GetElementTransformation(el); T->Transform(Geometries.GetCenter(m.GetElementBaseGeometry(el)), c);
         int f = m.GetBdrElementEdgeIndex(b), e1, e2; m.GetFaceElements(f, &e1, &e2);
         FaceElementTransformations *F = m.GetFaceElementTransformations(f, 31);
         if (e2 >= 0) continue;
         F->SetAllIntPoints(&Geometries.GetCenter(F->GetGeometryType())); F->Elem1->Transform(F->GetElement1IntPoint(), x);
         int ii = 0, up = -1; for (int i = 0; i < dim; i++) { if (fabs(x(i)) < 1e-5) { ii = i + 1; up = 0; } if (fabs(x(i) - L[i]) < 1e-5) { ii = i + 1; up = 1; } }
         bs.push_back("{\"i\":" + to_string(ii) + ",\"up\":" + to_string(up) + ",\"c\":" + jint(cellOf(c, h)) + ",\"a\":" + to_string(m.GetBdrAttribute(b)) + "}");
      }
      emit(Ev("Boundary").raw("fs", jarr(bs)));
      emit(Ev("Nodes").i("nv", m.GetNV()).i("order", orderOf(m)).i("dim", dim));
      string rm = "rm -f " + dir + "/*.mesh*"; system(rm.c_str());
   }
   return 0;
}
