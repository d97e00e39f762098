// Random component configurations: component meshes, global HDF5 configuration and input options,
// written with the plain HDF5 interface (not the repository's own writers).
#ifndef VERIF_COMP_HPP
#define VERIF_COMP_HPP
#include "component_topology_handler.hpp"
#include "meshes.hpp"
#include "hdf5.h"
#include <cmath>

namespace h5raw
{
inline void attr(hid_t id, const string &n, int v)
{ hid_t s = H5Screate(H5S_SCALAR), a = H5Acreate2(id, n.c_str(), H5T_NATIVE_INT, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, H5T_NATIVE_INT, &v); H5Aclose(a); H5Sclose(s); }
inline void attr(hid_t id, const string &n, const string &v)
{
   hid_t s = H5Screate(H5S_SCALAR), t = H5Tcopy(H5T_C_S1); H5Tset_size(t, H5T_VARIABLE);
   hid_t a = H5Acreate2(id, n.c_str(), t, s, H5P_DEFAULT, H5P_DEFAULT);
   const char *p = v.c_str(); H5Awrite(a, t, &p); H5Aclose(a); H5Tclose(t); H5Sclose(s);
}
template<class T> void data(hid_t id, const string &n, const vector<T> &v, int rows, int cols)
{
   hid_t ty = sizeof(T) == sizeof(int) ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE;
   hsize_t d[2] = {(hsize_t) rows, (hsize_t) cols};
   hid_t s = H5Screate_simple(cols > 0 ? 2 : 1, d, NULL);
   hid_t x = H5Dcreate2(id, n.c_str(), ty, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   if (v.size()) H5Dwrite(x, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
   H5Dclose(x); H5Sclose(s);
}
}

static const double UNIT = 256.0;      // coordinates are multiples of 1/UNIT up to roundoff
inline vector<long> pt(const double *x, int dim, double unit = UNIT) { vector<long> r; for (int d = 0; d < dim; d++) r.push_back(fx(x[d], unit)); return r; }

struct Rot { int q; double t[3]; };    // quarter turns (2D), translation
struct PortDef { string name; int c1, c2, s1, s2; double cfg[6]; Rot rel; };
struct PortUse { int m1, m2, type, s1, s2; };
struct BdrUse { int gattr, m, s; };
struct CompScenario
{
   int dim, nc;                                      // components
   vector<string> names;
   vector<Mesh *> mesh;
   vector<vector<int>> sideAttr;                     // component -> side -> attribute
   vector<int> type; vector<Rot> place;              // meshes
   vector<PortDef> defs; vector<PortUse> uses; vector<BdrUse> bdrs;
   int uid = 0; string portFile(const PortDef &D) const { return D.name + "." + to_string(uid) + ".port.h5"; }
   double size; int tilt = 0, ref = 0; bool owned = true;   // tilt: the whole assembly turned by the 3-4-5 angle
   ~CompScenario() { if (owned) for (auto m : mesh) delete m; }
};
// side of a point set on the boundary of the box [0,S]^dim: 2*d (low) or 2*d+1 (high)
inline int sideOf(const vector<vector<double>> &p, int dim, double S)
{
   for (int d = 0; d < dim; d++)
      for (int h = 0; h < 2; h++)
      {
         bool all = true;
         for (auto &x : p) all = all && fabs(x[d] - (h ? S : 0.0)) < 1e-9;
         if (all) return 2 * d + h;
      }
   return -1;
}
// A box [0,S]^dim cut into n^dim cells, with shuffled numbering and orientation, distorted inside.
inline Mesh *boxMesh(Rng &r, int dim, int n, double S, bool simplex, const vector<int> &sattr, int curv, const vector<double> &lines)
{
   Mesh m0 = dim == 2 ? Mesh::MakeCartesian2D(n, n, simplex ? Element::TRIANGLE : Element::QUADRILATERAL, true, n, n, false)
                      : Mesh::MakeCartesian3D(n, n, n, simplex ? Element::TETRAHEDRON : Element::HEXAHEDRON, n, n, n, false);
   int nv = m0.GetNV();
   vector<int> perm(nv); for (int i = 0; i < nv; i++) perm[i] = i;
   for (int i = nv - 1; i > 0; i--) swap(perm[i], perm[r.in(0, i)]);
   vector<vector<double>> x(nv, vector<double>(3, 0.0));
   for (int v = 0; v < nv; v++)
   {
      bool inner = true;
      for (int d = 0; d < dim; d++)
      {
         int k = (int) std::lround(m0.GetVertex(v)[d]);
         inner = inner && k > 0 && k < n;
         x[perm[v]][d] = lines[k];
      }
      if (inner) for (int d = 0; d < dim; d++) x[perm[v]][d] += r.in(-2, 2) * 8 / UNIT * S;
   }
   vector<int> eo(m0.GetNE()), bo(m0.GetNBE());
   for (size_t i = 0; i < eo.size(); i++) eo[i] = i;
   for (size_t i = 0; i < bo.size(); i++) bo[i] = i;
   for (int i = eo.size() - 1; i > 0; i--) swap(eo[i], eo[r.in(0, i)]);
   for (int i = bo.size() - 1; i > 0; i--) swap(bo[i], bo[r.in(0, i)]);
   Mesh *m = new Mesh(dim, nv, m0.GetNE(), m0.GetNBE(), dim);
   for (int v = 0; v < nv; v++) m->AddVertex(x[v].data());
   static const int hexrot[3][8] = {{1, 2, 3, 0, 5, 6, 7, 4}, {4, 0, 3, 7, 5, 1, 2, 6}, {3, 2, 6, 7, 0, 1, 5, 4}};
   for (int e : eo)
   {
      Array<int> v; m0.GetElementVertices(e, v);
      vector<int> w; for (int i = 0; i < v.Size(); i++) w.push_back(perm[v[i]]);
      if (w.size() == 4 && dim == 3)
      {  // even permutations of a tetrahedron
         int k = r.in(0, 2); if (k) { int a = w[0]; w[0] = w[1]; w[1] = w[2]; w[2] = a; if (k == 2) { a = w[0]; w[0] = w[1]; w[1] = w[2]; w[2] = a; } }
         if (r.flip()) { swap(w[0], w[3]); swap(w[1], w[2]); }
         m->AddTet(w.data());
      }
      else if (w.size() == 8)
      {
         for (int k = r.in(0, 6); k > 0; k--) { const int *h = hexrot[r.in(0, 2)]; vector<int> u(8); for (int i = 0; i < 8; i++) u[i] = w[h[i]]; w = u; }
         m->AddHex(w.data());
      }
      else
      {
         rotate(w.begin(), w.begin() + r.in(0, (int) w.size() - 1), w.end());
         if (w.size() == 3) m->AddTriangle(w.data()); else m->AddQuad(w.data());
      }
   }
   for (int b : bo)
   {
      Array<int> v; m0.GetBdrElementVertices(b, v);
      vector<int> w; vector<vector<double>> p;
      for (int i = 0; i < v.Size(); i++) { w.push_back(perm[v[i]]); p.push_back(x[perm[v[i]]]); }
      int a = sattr[sideOf(p, dim, S)];
      if (w.size() == 2) { if (r.flip()) swap(w[0], w[1]); m->AddBdrSegment(w.data(), a); }
      else
      {
         rotate(w.begin(), w.begin() + r.in(0, (int) w.size() - 1), w.end());
         if (w.size() == 3) m->AddBdrTriangle(w.data(), a); else m->AddBdrQuad(w.data(), a);
      }
   }
   m->FinalizeTopology(false);
   m->Finalize(false, true);
   m->SetCurvature(curv, false);
   return m;
}
inline void rot2(int q, double &x, double &y) { for (; q > 0; q--) { double a = -y; y = x; x = a; } }

inline CompScenario *makeScenario(const YAML::Node &s)
{
   CompScenario *c = new CompScenario;
   int seed = s["seed"].as<int>();
   static int uids = 0; c->uid = uids++;
   Rng r(seed * 17 + 3);
   c->dim = s["dim"].as<int>();
   c->nc = s["nc"].as<int>();
   int n = s["n"].as<int>(), gx = s["gx"].as<int>(), gy = s["gy"].as<int>(), gz = c->dim == 3 ? s["gz"].as<int>() : 1;
   bool simplex = s["simplex"].as<bool>(), turn = c->dim == 2 && s["turn"].as<bool>();
   c->tilt = turn && r.flip();
   c->ref = s["ref"] ? s["ref"].as<int>() : 0;
   double S = c->size = r.flip() ? 1.0 : 2.0;
   vector<double> lines(n + 1);
   for (int k = 0; k <= n; k++) lines[k] = S * k / n;
   lines[n] = S;
   for (int k = 0; k <= n; k++) lines[k] = std::lround(lines[k] * UNIT / 8) * 8 / UNIT;
   if (!turn && n > 1) for (int k = 1; k < n; k++) lines[k] += r.in(-1, 1) * 8 / UNIT * S;
   static const char *pool[] = {"unit", "a", "block-2", "joint.x", "B"};
   int off = r.in(0, 4);
   for (int k = 0; k < c->nc; k++)
   {
      c->names.push_back(pool[(k + off) % 5]);
      vector<int> at; int base = r.in(1, 3);
      for (int i = 0; i < 2 * c->dim; i++) at.push_back(base + i * r.in(1, 2) + (i ? 1 : 0));
      sort(at.begin(), at.end()); for (size_t i = 1; i < at.size(); i++) if (at[i] <= at[i - 1]) at[i] = at[i - 1] + 1;
      for (int i = at.size() - 1; i > 0; i--) swap(at[i], at[r.in(0, i)]);
      c->sideAttr.push_back(at);
      c->mesh.push_back(boxMesh(r, c->dim, n, S, c->dim == 2 ? ((r.in(0, 3) == 0 && !(s["uniform"] && s["uniform"].as<bool>())) != simplex) : simplex, at, 1 + (seed % 2), lines));
   }
   // meshes on a grid of cells, in random order
   vector<int> cells(gx * gy * gz); for (size_t i = 0; i < cells.size(); i++) cells[i] = i;
   for (int i = cells.size() - 1; i > 0; i--) swap(cells[i], cells[r.in(0, i)]);
   map<vector<int>, int> at;
   for (size_t m = 0; m < cells.size(); m++)
   {
      int i = cells[m] % gx, j = cells[m] / gx % gy, k = cells[m] / (gx * gy);
      at[{i, j, k}] = m;
      c->type.push_back(m < (size_t) c->nc ? m : r.in(0, c->nc - 1));     // every component occurs
      Rot p; p.q = turn ? r.in(0, 3) : 0;
      p.t[0] = S * (i + (p.q == 1 || p.q == 2)); p.t[1] = S * (j + (p.q >= 2)); p.t[2] = S * k;
      c->place.push_back(p);
   }
   if ((size_t) c->nc > cells.size()) harness_error("more components than cells");
   auto local = [&](int m, int dir) -> int    // side of mesh m's component facing direction dir (2*d + high)
   {
      if (c->dim == 3 || c->place[m].q == 0) return dir;
      static const int ccw[4] = {2, 1, 3, 0};               // bottom, right, top, left as 2*d+high
      int k = 0; while (ccw[k] != dir) k++;
      return ccw[(k - c->place[m].q + 4) % 4];
   };
   for (auto &e : at)
      for (int d = 0; d < c->dim; d++)
         for (int h = 0; h < 2; h++)
         {
            vector<int> o = e.first; o[d] += h ? 1 : -1;
            int m1 = e.second, s1 = local(m1, 2 * d + h);
            if (!at.count(o)) { c->bdrs.push_back({r.in(1, 5), m1, s1}); continue; }
            if (!h) continue;
            int m2 = at[o], s2 = local(m2, 2 * d);
            if (r.in(0, 7) == 0 && c->bdrs.size() && !(s["whole"] && s["whole"].as<bool>())) { c->bdrs.push_back({r.in(1, 5), m1, s1}); c->bdrs.push_back({r.in(1, 5), m2, s2}); continue; }  // a crack
            if (r.flip()) { swap(m1, m2); swap(s1, s2); }
            Rot &p1 = c->place[m1], &p2 = c->place[m2];
            Rot rel; rel.q = (p2.q - p1.q + 4) % 4;
            for (int k = 0; k < 3; k++) rel.t[k] = p2.t[k] - p1.t[k];
            if (c->dim == 2) rot2((4 - p1.q) % 4, rel.t[0], rel.t[1]);
            int ty = -1;
            for (size_t k = 0; k < c->defs.size(); k++)
            {
               PortDef &D = c->defs[k];
               if (D.c1 == c->type[m1] && D.c2 == c->type[m2] && D.s1 == s1 && D.s2 == s2) ty = k;
            }
            if (ty < 0)
            {
               PortDef D; D.c1 = c->type[m1]; D.c2 = c->type[m2]; D.s1 = s1; D.s2 = s2; D.rel = rel;
               for (int k = 0; k < 3; k++) D.cfg[k] = rel.t[k];
               D.cfg[3] = rel.q * M_PI / 2; D.cfg[4] = D.cfg[5] = 0.0;
               D.name = "port" + to_string(c->defs.size() * 7 % 10) + "_" + to_string(c->defs.size());
               ty = c->defs.size(); c->defs.push_back(D);
            }
            c->uses.push_back({m1, m2, ty, s1, s2});
         }
   for (int i = c->uses.size() - 1; i > 0; i--) swap(c->uses[i], c->uses[r.in(0, i)]);
   return c;
}
// How a scenario is laid down in files.
struct Layout
{
   vector<int> corder, porder;      // order in which components / reference ports are listed
   vector<int> how;                 // per reference port: 0 in the global file, 1 input file, 2 input file + port file
   bool write_ports = false, bdrSeparate = false;
};
inline void writeConfig(const CompScenario &c, const Layout &L, const string &tag, bool meshes = true)
{
   vector<int> cpos(c.nc, -1), ppos(c.defs.size(), -1);
   for (size_t i = 0; i < L.corder.size(); i++) cpos[L.corder[i]] = i;
   for (size_t i = 0; i < L.porder.size(); i++) ppos[L.porder[i]] = i;
   string gf = tag + ".h5";
   hid_t f = H5Fcreate(gf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
   hid_t g = H5Gcreate2(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   h5raw::attr(g, "number_of_components", (int) L.corder.size());
   for (size_t i = 0; i < L.corder.size(); i++) h5raw::attr(g, to_string(i), c.names[L.corder[i]]);
   vector<int> ty; vector<double> cf;
   for (size_t m = 0; m < c.type.size(); m++)
   {
      ty.push_back(cpos[c.type[m]]);
      const double *t = c.place[m].t;
      if (c.tilt) { cf.push_back(0.6 * t[0] - 0.8 * t[1]); cf.push_back(0.8 * t[0] + 0.6 * t[1]); cf.push_back(t[2]); }
      else for (int d = 0; d < 3; d++) cf.push_back(t[d]);
      cf.push_back(c.place[m].q * M_PI / 2 + (c.tilt ? atan2(4.0, 3.0) : 0.0)); cf.push_back(0.0); cf.push_back(0.0);
   }
   h5raw::data(g, "meshes", ty, ty.size(), 0);
   h5raw::data(g, "configuration", cf, ty.size(), 6);
   H5Gclose(g);
   g = H5Gcreate2(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   h5raw::attr(g, "number_of_references", (int) L.porder.size());
   YAML::Node ports;
   for (size_t i = 0; i < L.porder.size(); i++)
   {
      const PortDef &D = c.defs[L.porder[i]];
      h5raw::attr(g, to_string(i), D.name);
      int a1 = c.sideAttr[D.c1][D.s1], a2 = c.sideAttr[D.c2][D.s2];
      if (L.how[L.porder[i]] == 0)
      {
         hid_t p = H5Gcreate2(g, D.name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
         h5raw::attr(p, "comp1", c.names[D.c1]); h5raw::attr(p, "comp2", c.names[D.c2]);
         h5raw::attr(p, "attr1", a1); h5raw::attr(p, "attr2", a2);
         h5raw::data(p, "comp2_configuration", vector<double>(D.cfg, D.cfg + 6), 6, 0);
         H5Gclose(p);
      }
      else
      {
         YAML::Node n;
         n["name"] = D.name;
         n["comp1"]["name"] = c.names[D.c1]; n["comp1"]["attr"] = a1;
         n["comp2"]["name"] = c.names[D.c2]; n["comp2"]["attr"] = a2;
         for (int k = 0; k < 6; k++) n["comp2_configuration"].push_back(D.cfg[k]);
         if (L.how[L.porder[i]] == 2) n["file"] = c.portFile(D);
         ports.push_back(n);
      }
   }
   vector<int> itf;
   for (auto &u : c.uses)
   {
      const PortDef &D = c.defs[u.type];
      itf.push_back(u.m1); itf.push_back(u.m2); itf.push_back(c.sideAttr[D.c1][D.s1]); itf.push_back(c.sideAttr[D.c2][D.s2]); itf.push_back(ppos[u.type]);
   }
   if (L.porder.size()) h5raw::data(g, "interface", itf, c.uses.size(), 5);
   H5Gclose(g);
   vector<int> bd;
   for (auto &b : c.bdrs) { bd.push_back(b.gattr); bd.push_back(b.m); bd.push_back(c.sideAttr[c.type[b.m]][b.s]); }
   if (!L.bdrSeparate) h5raw::data(f, "boundary", bd, c.bdrs.size(), 3);
   H5Fclose(f);
   config = InputParser();
   config.SetOption<string>("mesh/type", "component-wise");
   config.SetOption<string>("mesh/component-wise/global_config", gf);
   if (L.bdrSeparate)
   {
      string bf = tag + ".bdr.h5";
      f = H5Fcreate(bf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
      h5raw::data(f, "boundary", bd, c.bdrs.size(), 3);
      H5Fclose(f);
      config.SetOption<string>("mesh/component-wise/bdr_config", bf);
   }
   config.SetOption<bool>("mesh/component-wise/write_ports", L.write_ports);
   if (c.ref) config.SetOption<int>("mesh/uniform_refinement", c.ref);
   YAML::Node comps;
   for (int k = c.nc - 1; k >= 0; k--)
   {
      string fn = "comp" + to_string(k) + ".mesh";
      if (meshes) { ofstream o(fn); o.precision(17); c.mesh[k]->Print(o); }
      YAML::Node n; n["name"] = c.names[k]; n["file"] = fn;
      comps.push_back(n);
   }
   YAML::Node unused; unused["name"] = "never-used"; unused["file"] = "no-such.mesh";
   comps.push_back(unused);
   config.dict_["mesh"]["component-wise"]["components"] = comps;
   if (ports.size()) config.dict_["mesh"]["component-wise"]["ports"] = ports;
}
// The part of an assembly made of some of its components; sides that lose their neighbour become boundary.
inline CompScenario *subScenario(const CompScenario &c, const vector<bool> &keep)
{
   CompScenario *d = new CompScenario(c);
   d->owned = false; d->type.clear(); d->place.clear(); d->uses.clear(); d->bdrs.clear();
   vector<int> at(c.type.size(), -1);
   for (size_t m = 0; m < c.type.size(); m++)
      if (keep[c.type[m]]) { at[m] = d->type.size(); d->type.push_back(c.type[m]); d->place.push_back(c.place[m]); }
   for (auto b : c.bdrs) if (at[b.m] >= 0) { b.m = at[b.m]; d->bdrs.push_back(b); }
   for (auto u : c.uses)
   {
      if (at[u.m1] >= 0 && at[u.m2] >= 0) { u.m1 = at[u.m1]; u.m2 = at[u.m2]; d->uses.push_back(u); }
      else if (at[u.m1] >= 0) d->bdrs.push_back({7, at[u.m1], u.s1});
      else if (at[u.m2] >= 0) d->bdrs.push_back({7, at[u.m2], u.s2});
   }
   return d;
}
inline vector<int> shuffled(Rng &r, int n) { vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i; for (int i = n - 1; i > 0; i--) swap(o[i], o[r.in(0, i)]); return o; }
inline Layout randomLayout(Rng &r, const CompScenario &c)
{
   Layout L;
   L.corder = shuffled(r, c.nc); L.porder = shuffled(r, c.defs.size());
   for (size_t i = 0; i < c.defs.size(); i++) L.how.push_back(r.in(0, 1));
   L.bdrSeparate = r.in(0, 3) == 0;
   return L;
}
#endif
