// Component assemblies through the real ComponentTopologyHandler.  argv: scenario file, "topo" | "ports" | "xf" | "rom"
#include "comp.hpp"
#include "content.hpp"
#include "rom_element_collection.hpp"
#include "faces.hpp"

static const double PU = 5 * UNIT;
static string pts(Mesh &m, const Array<int> &v, double unit)
{ vector<string> r; for (int i = 0; i < v.Size(); i++) r.push_back(jint(pt(m.GetVertex(v[i]), m.Dimension(), unit))); return jarr(r); }
// vertex coordinates of a mesh with nodes are those of its nodes
static void syncVertices(Mesh &m)
{
   for (int e = 0; e < m.GetNE(); e++)
   {
      Array<int> v; m.GetElementVertices(e, v);
      const IntegrationRule *ir = Geometries.GetVertices(m.GetElementBaseGeometry(e));
      ElementTransformation *T = m.GetElementTransformation(e);
      for (int i = 0; i < v.Size(); i++) { Vector x; T->Transform(ir->IntPoint(i), x); for (int d = 0; d < x.Size(); d++) m.GetVertex(v[i])[d] = x(d); }
   }
}
static string elems(Mesh &m, double unit) { vector<string> r; for (int e = 0; e < m.GetNE(); e++) { Array<int> v; m.GetElementVertices(e, v); r.push_back(pts(m, v, unit)); } return jarr(r); }
static string bdrs(Mesh &m, double unit)
{
   vector<string> r;
   for (int b = 0; b < m.GetNBE(); b++) { Array<int> v; m.GetBdrElementVertices(b, v); r.push_back("{\"v\":" + pts(m, v, unit) + ",\"a\":" + to_string(m.GetBdrAttribute(b)) + "}"); }
   return jarr(r);
}
static string ifs(Array<InterfaceInfo> *ii) { vector<string> r; for (int i = 0; i < ii->Size(); i++) r.push_back("{\"b1\":" + to_string((*ii)[i].BE1 + 1) + ",\"b2\":" + to_string((*ii)[i].BE2 + 1) + "}"); return jarr(r); }
static bool rewritable(const vector<string> &files)
{
   bool ok = true;
   for (auto &f : files)
   {
      H5E_auto2_t fn; void *cd; H5Eget_auto2(H5E_DEFAULT, &fn, &cd); H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
      hid_t id = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
      H5Eset_auto2(H5E_DEFAULT, fn, cd);
      ok = ok && id >= 0;
      if (id >= 0) H5Fclose(id);
   }
   return ok;
}
static Mesh *reference(const CompScenario &c, int k)
{
   Mesh *m = new Mesh(("comp" + to_string(k) + ".mesh").c_str());
   for (int i = 0; i < c.ref; i++) m->UniformRefinement();
   syncVertices(*m);
   return m;
}
// a fresh tag each time: nothing depends on leftovers of another scenario
static string newTag() { static int n = 0; return "cfg" + to_string(n++); }

static void emitTopo(const CompScenario &c, const Layout &L, TopologyHandler &th, const vector<string> &files)
{
   vector<int> cpos(c.nc, -1), ppos(c.defs.size(), -1);
   for (size_t i = 0; i < L.corder.size(); i++) cpos[L.corder[i]] = i + 1;
   for (size_t i = 0; i < L.porder.size(); i++) ppos[L.porder[i]] = i + 1;
   vector<string> comps, meshes, refs, uses, outer;
   for (int k : L.corder)
   {
      Mesh *m = reference(c, k);
      comps.push_back("{\"name\":" + q(c.names[k]) + ",\"elems\":" + elems(*m, UNIT) + ",\"bdr\":" + bdrs(*m, UNIT) + "}");
      delete m;
   }
   static const int C[4] = {5, 0, -5, 0}, S[4] = {0, 5, 0, -5};
   for (size_t m = 0; m < c.type.size(); m++)
   {
      int a = C[c.place[m].q], b = S[c.place[m].q];
      const double *t = c.place[m].t; double t0 = t[0], t1 = t[1];
      if (c.tilt) { int a2 = (3 * a - 4 * b) / 5, b2 = (4 * a + 3 * b) / 5; a = a2; b = b2; t0 = 0.6 * t[0] - 0.8 * t[1]; t1 = 0.8 * t[0] + 0.6 * t[1]; }
      meshes.push_back(Ev("m").i("type", cpos[c.type[m]]).i("c", a).i("s", b).ai("t", vector<long>{fx(t0, PU), fx(t1, PU), fx(t[2], PU)}).str());
   }
   for (int p : L.porder)
   {
      const PortDef &D = c.defs[p];
      refs.push_back(Ev("r").i("c1", cpos[D.c1]).i("c2", cpos[D.c2]).i("a1", c.sideAttr[D.c1][D.s1]).i("a2", c.sideAttr[D.c2][D.s2]).str());
   }
   for (auto &u : c.uses)
      uses.push_back(Ev("u").i("m1", u.m1 + 1).i("m2", u.m2 + 1).i("type", ppos[u.type]).i("a1", c.sideAttr[c.type[u.m1]][u.s1]).i("a2", c.sideAttr[c.type[u.m2]][u.s2]).str());
   for (auto &b : c.bdrs) outer.push_back("{\"g\":" + to_string(b.gattr) + ",\"m\":" + to_string(b.m + 1) + ",\"a\":" + to_string(c.sideAttr[c.type[b.m]][b.s]) + "}");
   emit(Ev("Begin").raw("comps", jarr(comps)).raw("meshes", jarr(meshes)).raw("refs", jarr(refs)).raw("uses", jarr(uses)).raw("outer", jarr(outer)));
   for (int k = 0; k < th.GetNumComponents(); k++)
   {
      Mesh m(*th.GetComponentMesh(k)); syncVertices(m);
      emit(Ev("Comp").i("k", k + 1).s("name", th.GetComponentName(k)).i("copies", th.GetNumSubdomains(k)).raw("elems", elems(m, UNIT)).raw("bdr", bdrs(m, UNIT)));
   }
   Array<Mesh *> ms; TopologyData td; th.ExportInfo(ms, td);
   for (int k = 0; k < th.GetNumSubdomains(); k++)
   {
      Mesh m(k % 2 ? *th.GetMesh(k) : *ms[k]); syncVertices(m);
      vector<string> map; vector<long> ba;
      Array<int> *c2g = th.GetBdrAttrComponentToGlobalMap(k); Mesh *cm = th.GetComponentMesh(th.GetMeshType(k));
      for (int i = 0; i < c2g->Size(); i++) map.push_back(jint({cm->bdr_attributes[i], (*c2g)[i]}));
      for (int i = 0; i < m.bdr_attributes.Size(); i++) ba.push_back(m.bdr_attributes[i]);
      emit(Ev("Mesh").i("k", k + 1).i("type", th.GetMeshType(k) + 1).i("nth", th.GetComponentIndexOfMesh(k)).s("name", th.GetComponentName(th.GetMeshType(k)))
           .raw("elems", elems(m, PU)).raw("bdr", bdrs(m, PU)).ai("battrs", ba).raw("c2g", jarr(map)));
   }
   for (int p = 0; p < th.GetNumPorts(); p++)
   {
      const PortInfo *pi = th.GetPortInfo(p);
      int t = th.GetPortType(p), c1, c2, a1, a2, p1, p2;
      th.GetRefPortInfo(t, c1, c2, a1, a2); th.GetComponentPair(t, p1, p2);
      emit(Ev("Port").i("k", p + 1).i("attr", pi->PortAttr).i("m1", pi->Mesh1 + 1).i("m2", pi->Mesh2 + 1).i("a1", pi->Attr1).i("a2", pi->Attr2).i("type", t + 1)
           .i("c1", c1 + 1).i("c2", c2 + 1).i("ra1", a1).i("ra2", a2).i("p1", p1 + 1).i("p2", p2 + 1).raw("ifs", ifs(th.GetInterfaceInfos(p))).raw("rifs", ifs(th.GetRefInterfaceInfos(t))));
   }
   vector<long> ga; for (int i = 0; i < td.global_bdr_attributes->Size(); i++) ga.push_back((*td.global_bdr_attributes)[i]);
   emit(Ev("End").i("numsub", td.numSub == th.GetNumSubdomains() ? td.numSub : -1).i("dim", td.dim).i("numcomp", th.GetNumComponents()).i("numports", th.GetNumPorts())
        .i("numref", th.GetNumRefPorts()).ai("battrs", ga).b("free", rewritable(files)));
}
static string portJson(ComponentTopologyHandler &th, int r)
{
   ComponentTopologyHandler::PortData *p = th.GetPortData(r);
   map<int, int> v(p->vtx2to1.begin(), p->vtx2to1.end());
   vector<string> vs, bs;
   for (auto &e : v) vs.push_back(jint({e.first, e.second}));
   for (int i = 0; i < p->be_pairs.NumRows(); i++) bs.push_back(jint({p->be_pairs(i, 0), p->be_pairs(i, 1)}));
   return "{\"c1\":" + q(th.GetComponentName(p->Component1)) + ",\"c2\":" + q(th.GetComponentName(p->Component2)) + ",\"a1\":" + to_string(p->Attr1) + ",\"a2\":" + to_string(p->Attr2)
          + ",\"vtx\":" + jarr(vs) + ",\"be\":" + jarr(bs) + "}";
}
static vector<string> filesOf(const Layout &L, const string &tag) { vector<string> f = {tag + ".h5"}; if (L.bdrSeparate) f.push_back(tag + ".bdr.h5"); return f; }
// several one-port files gathered in one
static void gather(const vector<string> &from, const string &to)
{
   hid_t f = H5Fcreate(to.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
   h5raw::attr(f, "number_of_ports", (int) from.size());
   for (size_t i = 0; i < from.size(); i++)
   {
      hid_t g = H5Fopen(from[i].c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      if (H5Ocopy(g, "0", f, to_string(i).c_str(), H5P_DEFAULT, H5P_DEFAULT) < 0) harness_error("gather");
      H5Fclose(g);
   }
   H5Fclose(f);
}
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   ifstream in(argv[1]);
   string mode = argv[2], line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      int seed = s["seed"].as<int>();
      Rng r(seed * 5 + 11);
      CompScenario *c = makeScenario(s);
      Layout L = randomLayout(r, *c);
      string tag = newTag();
      if (mode == "topo")
      {
         writeConfig(*c, L, tag);
         ComponentTopologyHandler th;
         emitTopo(*c, L, th, filesOf(L, tag));
      }
      else if (mode == "ports")
      {
         if (c->defs.empty()) { delete c; continue; }
         for (auto &h : L.how) h = 2;
         L.write_ports = true;
         for (auto &D : c->defs) remove(c->portFile(D).c_str());
         writeConfig(*c, L, tag);
         {
            ComponentTopologyHandler th;
            emit(Ev("Begin").s("what", "ports"));
            for (size_t i = 0; i < L.porder.size(); i++) emit(Ev("Built").s("name", c->defs[L.porder[i]].name).raw("v", portJson(th, i)));
         }
         // another session: other orders, possibly part of the assembly, possibly one file for all ports
         vector<bool> keep(c->nc); int kept = 0;
         for (int k = 0; k < c->nc; k++) { keep[k] = r.in(0, 3) > 0; kept += keep[k]; }
         if (!kept) { keep[0] = true; kept = 1; }
         CompScenario *d = subScenario(*c, keep);
         Layout K = randomLayout(r, *d);
         K.corder.clear(); for (int k : shuffled(r, c->nc)) if (keep[k]) K.corder.push_back(k);
         set<int> used; for (auto &u : d->uses) used.insert(u.type);
         K.porder.clear(); for (int p : shuffled(r, c->defs.size())) if (used.count(p)) K.porder.push_back(p);
         bool one = r.flip();
         for (size_t p = 0; p < K.how.size(); p++) K.how[p] = r.in(0, 4) ? 2 : r.in(0, 1);
         string tag2 = newTag();
         writeConfig(*d, K, tag2, false);
         vector<string> files = filesOf(K, tag2);
         if (one)
         {
            vector<string> from; for (int p : shuffled(r, c->defs.size())) from.push_back(c->portFile(c->defs[p]));
            string all_h5 = tag2 + ".all.h5";
            gather(from, all_h5);
            YAML::Node old = config.dict_["mesh"]["component-wise"]["ports"], ports;
            YAML::Node all; all["name"] = "anything"; all["file"] = all_h5; ports.push_back(all);
            for (size_t i = 0; i < old.size(); i++) if (!old[i]["file"]) ports.push_back(old[i]);
            config.dict_["mesh"]["component-wise"]["ports"] = ports;
            files.push_back(all_h5);
         }
         else for (int p : K.porder) if (K.how[p] == 2) files.push_back(c->portFile(c->defs[p]));
         {
            ComponentTopologyHandler th;
            for (size_t i = 0; i < K.porder.size(); i++) emit(Ev("Reloaded").s("name", c->defs[K.porder[i]].name).raw("v", portJson(th, i)));
            vector<string> names; for (int k = 0; k < th.GetNumRefPorts(); k++) names.push_back(c->defs[K.porder[k]].name);
            emit(Ev("Closed").i("n", K.porder.size()).i("numref", th.GetNumRefPorts()).b("free", rewritable(files)));
            emitTopo(*d, K, th, {});
         }
         delete d;
      }
      else if (mode == "xf")
      {
         writeConfig(*c, L, tag);
         ComponentTopologyHandler th;
         emit(Ev("Begin").s("what", "xf"));
         for (int p = 0; p < th.GetNumPorts(); p++)
         {
            const PortInfo *pi = th.GetPortInfo(p);
            emitFaces(th, th.GetMesh(pi->Mesh1), th.GetMesh(pi->Mesh2), th.GetInterfaceInfos(p));
         }
         emit(Ev("End"));
      }
      else if (mode == "rom")
      {
         writeConfig(*c, L, tag);
         emit(Ev("Begin").s("what", "rom"));
         bool sep = r.flip(); int nvar = r.in(1, 3), bs = sep ? nvar : 1;
         auto keyOf = [](TopologyHandler &th, int p) { int a, b, x, y; th.GetRefPortInfo(p, a, b, x, y); return vector<string>{"port", th.GetComponentName(a), th.GetComponentName(b), to_string(x), to_string(y)}; };
         auto put = [&](const char *ev, const vector<string> &key, const MatrixBlocks &m) { emit(Ev(ev).as("key", key).raw("v", content(m).json())); };
         auto dump = [&](const char *ev, TopologyHandler &th, ROMLinearElement &e)
         {
            for (int k = 0; k < th.GetNumComponents(); k++)
            {
               string n = th.GetComponentName(k);
               put(ev, {"domain", n}, *e.comp[k]); put(ev, {"mass", n}, *e.mass[k]);
               for (int b = 0; b < e.bdr[k]->Size(); b++) put(ev, {"bdr", n, to_string(th.GetComponentMesh(k)->bdr_attributes[b])}, *(*e.bdr[k])[b]);
            }
            for (int p = 0; p < th.GetNumRefPorts(); p++) put(ev, keyOf(th, p), *e.port[p]);
         };
         auto rblocks = [&](MatrixBlocks &m, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { delete m.blocks(i, j); m.blocks(i, j) = r.in(0, 5) ? rsparse(r, 1 + i % 3 + r.in(0, 0), 1 + j % 3) : NULL; } };
         {
            ComponentTopologyHandler th;
            H1_FECollection fec(1, c->dim); Array<FiniteElementSpace *> fes;
            for (int k = 0; k < th.GetNumComponents(); k++) for (int v = 0; v < nvar; v++) fes.Append(new FiniteElementSpace(th.GetComponentMesh(k), &fec));
            ROMLinearElement e(&th, fes, sep);
            for (int k = 0; k < th.GetNumComponents(); k++)
            { rblocks(*e.comp[k], bs); rblocks(*e.mass[k], bs); for (int b = 0; b < e.bdr[k]->Size(); b++) rblocks(*(*e.bdr[k])[b], bs); }
            for (int p = 0; p < th.GetNumRefPorts(); p++) rblocks(*e.port[p], 2 * bs);
            dump("Saved", th, e);
            e.Save("rom.h5");
            dump("Kept", th, e);
            for (auto f : fes) delete f;
         }
         vector<bool> keep(c->nc); int kept = 0;
         for (int k = 0; k < c->nc; k++) { keep[k] = r.in(0, 3) > 0; kept += keep[k]; }
         if (!kept) { keep[0] = true; kept = 1; }
         CompScenario *d = subScenario(*c, keep);
         Layout K = randomLayout(r, *d);
         K.corder.clear(); for (int k : shuffled(r, c->nc)) if (keep[k]) K.corder.push_back(k);
         set<int> used; for (auto &u : d->uses) used.insert(u.type);
         K.porder.clear(); for (int p : shuffled(r, c->defs.size())) if (used.count(p)) K.porder.push_back(p);
         writeConfig(*d, K, newTag(), false);
         {
            ComponentTopologyHandler th;
            H1_FECollection fec(1, c->dim); Array<FiniteElementSpace *> fes;
            for (int k = 0; k < th.GetNumComponents(); k++) for (int v = 0; v < nvar; v++) fes.Append(new FiniteElementSpace(th.GetComponentMesh(k), &fec));
            ROMLinearElement e(&th, fes, sep);
            int nb = 0; for (int k = 0; k < th.GetNumComponents(); k++) nb += e.bdr[k]->Size();
            if (r.flip())     // what was there before is replaced
            {
               for (int k = 0; k < th.GetNumComponents(); k++)
               { rblocks(*e.comp[k], bs); rblocks(*e.mass[k], bs); for (int b = 0; b < e.bdr[k]->Size(); b++) rblocks(*(*e.bdr[k])[b], bs); }
               for (int p = 0; p < th.GetNumRefPorts(); p++) rblocks(*e.port[p], 2 * bs);
            }
            e.Load("rom.h5");
            dump("Loaded", th, e);
            if (r.flip()) { e.Load("rom.h5"); dump("Loaded", th, e); }
            emit(Ev("Closed").i("n", K.porder.size()).i("numref", th.GetNumRefPorts()).b("free", rewritable({"rom.h5"})));
            for (auto f : fes) delete f;
         }
         delete d;
      }
      delete c;
   }
   MPI_Finalize();
   return 0;
}
