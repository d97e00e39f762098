// Decomposes random labelled meshes with the real SubMeshTopologyHandler.  argv: scenario file, "topo" | "xfer"
#include "topology_handler.hpp"
#include "meshes.hpp"
#include "faces.hpp"

static string elemsJson(Mesh &m, VertexIds &id, bool full)
{
   vector<string> out;
   for (int e = 0; e < m.GetNE(); e++)
   {
      Array<int> v; m.GetElementVertices(e, v);
      vector<long> g = id(m, v);
      if (!full) { out.push_back(jint(g)); continue; }
      vector<string> f;
      for (size_t i = 0; i < g.size(); i++) f.push_back(jint({g[i], g[(i + 1) % g.size()]}));
      out.push_back("{\"v\":" + jint(g) + ",\"a\":" + to_string(m.GetAttribute(e)) + ",\"f\":" + jarr(f) + "}");
   }
   return jarr(out);
}
static vector<long> bev(Mesh &m, VertexIds &id, int b) { Array<int> v; m.GetBdrElementVertices(b, v); return id(m, v); }
static string bdrJson(Mesh &m, VertexIds &id)
{
   vector<string> out;
   for (int b = 0; b < m.GetNBE(); b++)
      out.push_back("{\"v\":" + jint(bev(m, id, b)) + ",\"a\":" + to_string(m.GetBdrAttribute(b)) + "}");
   return jarr(out);
}
int main(int argc, char **argv)
{
   ifstream in(argv[1]);
   string mode = argv[2], line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      int seed = s["seed"].as<int>();
      config = InputParser();
      config.SetOption<int>("mesh/uniform_refinement", s["ref"].as<int>());
      config.SetOption<string>("domain-decomposition/type", s["dd"].as<string>());
      Mesh *pm = grid2d(s["nx"].as<int>(), s["ny"].as<int>(), s["tri"].as<bool>(), s["k"].as<int>(), s["style"].as<int>(), s["nb"].as<int>(), seed, s["curv"].as<int>());
      TopologyHandler *th; Mesh whole(*pm);              // what is to be decomposed, refined as asked
      if (seed % 3 == 0)
      {  // the handler reads the mesh from a file itself
         { ofstream o("parent.mesh"); o.precision(17); pm->Print(o); }
         config.SetOption<string>("mesh/filename", "parent.mesh"); whole = Mesh("parent.mesh");
         th = new SubMeshTopologyHandler();
         delete pm;
         pm = th->GetGlobalMesh();
      }
      else th = new SubMeshTopologyHandler(pm);
      for (int k = 0; k < s["ref"].as<int>(); k++) whole.UniformRefinement();
      VertexIds id(whole);
      int ns = th->GetNumSubdomains();
      if (mode == "topo")
      {
         emit(Ev("Begin").raw("elems", elemsJson(whole, id, true)).raw("bdr", bdrJson(whole, id)).b("whole", s["dd"].as<string>() == "none"));
         Array<Mesh *> ms; TopologyData td;
         th->ExportInfo(ms, td);
         for (int k = 0; k < ns; k++)
         {
            Mesh *m = (k % 2) ? ms[k] : th->GetMesh(k);
            vector<long> ba; for (int i = 0; i < m->bdr_attributes.Size(); i++) ba.push_back(m->bdr_attributes[i]);
            emit(Ev("Sub").i("k", k + 1).raw("elems", elemsJson(*m, id, false)).raw("bdr", bdrJson(*m, id)).ai("battrs", ba)
                 .i("type", th->GetMeshType(k) + 1).i("nth", th->GetComponentIndexOfMesh(k)).i("copies", th->GetNumSubdomains(k)).s("name", th->GetComponentName(k)).b("own", th->GetComponentMesh(k) == th->GetMesh(k)));
         }
         for (int p = 0; p < th->GetNumPorts(); p++)
         {
            const PortInfo *pi = th->GetPortInfo(p);
            int c1, c2, a1, a2;
            th->GetRefPortInfo(th->GetPortType(p), c1, c2, a1, a2);
            Array<InterfaceInfo> *ii = th->GetInterfaceInfos(p);
            vector<string> ifs;
            for (int i = 0; i < ii->Size(); i++)
               ifs.push_back("{\"v1\":" + jint(bev(*th->GetMesh(pi->Mesh1), id, (*ii)[i].BE1)) + ",\"v2\":" + jint(bev(*th->GetMesh(pi->Mesh2), id, (*ii)[i].BE2)) + "}");
            int k1, k2; th->GetComponentPair(th->GetPortType(p), k1, k2);
            Array<InterfaceInfo> *ri = th->GetRefInterfaceInfos(th->GetPortType(p));
            bool ref = k1 == c1 && k2 == c2 && ri->Size() == ii->Size();
            for (int i = 0; ref && i < ii->Size(); i++) ref = (*ri)[i].BE1 == (*ii)[i].BE1 && (*ri)[i].BE2 == (*ii)[i].BE2 && (*ri)[i].Inf1 == (*ii)[i].Inf1 && (*ri)[i].Inf2 == (*ii)[i].Inf2;
            emit(Ev("Port").b("ref", ref).i("attr", pi->PortAttr).i("m1", pi->Mesh1 + 1).i("m2", pi->Mesh2 + 1).i("a1", pi->Attr1).i("a2", pi->Attr2)
                 .i("c1", c1 + 1).i("c2", c2 + 1).raw("ifs", jarr(ifs)));
         }
         emit(Ev("End").i("numsub", td.numSub == ns ? ns : -1).i("numcomp", th->GetNumComponents()).i("numports", th->GetNumPorts()).i("numref", th->GetNumRefPorts()));
      }
      else if (mode == "xf")
      {
         emit(Ev("Begin").s("what", "xf"));
         for (int p = 0; p < th->GetNumPorts(); p++)
         {
            const PortInfo *pi = th->GetPortInfo(p);
            emitFaces(*th, th->GetMesh(pi->Mesh1), th->GetMesh(pi->Mesh2), th->GetInterfaceInfos(p));
         }
         emit(Ev("End"));
      }
      else
      {
         Rng r(seed + 99);
         int nv = r.in(1, 3), ord = r.in(0, 2), vd = r.in(1, 2);
         bool cont = r.in(0, 2) == 0;              // continuous spaces: a globally continuous field
         FiniteElementCollection *fec = cont ? (FiniteElementCollection *) new H1_FECollection(ord + 1, 2) : new DG_FECollection(ord, 2, ord > 0 && seed % 2 ? BasisType::GaussLobatto : BasisType::GaussLegendre);
         vector<FiniteElementSpace *> sp;
         Array<GridFunction *> us, gs;
         FiniteElementSpace *gf = new FiniteElementSpace(pm, fec, vd);
         double cc[3][8];
         for (int v = 0; v < 3; v++) for (int j = 0; j < 8; j++) cc[v][j] = r.in(-9, 9) / 4.0;
         for (int k = 0; k < ns; k++)
         {
            FiniteElementSpace *f = new FiniteElementSpace(th->GetMesh(k), fec, vd);
            sp.push_back(f);
            for (int v = 0; v < nv; v++)
            {
               GridFunction *g = new GridFunction(f);
               if (cont)
               {
                  double *c = cc[v];
                  VectorFunctionCoefficient co(vd, [c](const Vector &x, Vector &y) { for (int d = 0; d < y.Size(); d++) y(d) = c[4 * d] + c[4 * d + 1] * x(0) + c[4 * d + 2] * x(1) * x(0) + c[4 * d + 3]; });
                  g->ProjectCoefficient(co);
               }
               else for (int i = 0; i < g->Size(); i++) (*g)(i) = r.in(-4096, 4096) / 64.0;
               us.Append(g);
            }
         }
         for (int v = 0; v < nv; v++) { gs.Append(new GridFunction(gf)); *gs[v] = 7.5; }
         vector<Vector> before; for (int i = 0; i < us.Size(); i++) before.push_back(*us[i]);
         th->TransferToGlobal(us, gs, nv);
         bool same = true;
         for (int i = 0; i < us.Size(); i++) { Vector d(*us[i]); d -= before[i]; same = same && d.Norml2() == 0.0; }
         emit(Ev("Begin").i("ne", pm->GetNE()).i("nv", nv).i("vd", vd).b("kept", same));
         // element of the parent by its vertices
         map<vector<long>, int> el;
         for (int e = 0; e < pm->GetNE(); e++) { Array<int> v; pm->GetElementVertices(e, v); el[id(*pm, v)] = e; }
         for (int k = 0; k < ns; k++)
         {
            Mesh *m = th->GetMesh(k);
            for (int e = 0; e < m->GetNE(); e++)
            {
               Array<int> v; m->GetElementVertices(e, v); vector<long> g = id(*m, v);      // same vertices in the same order: same reference coordinates
               int pe = el.count(g) ? el[g] : -1;
               if (pe < 0) { emit(Ev("Value").i("e", -1)); continue; }
               const IntegrationRule &ir = IntRules.Get(m->GetElementBaseGeometry(e), 2);
               vector<long> a, b;
               for (int i = 0; i < ir.GetNPoints(); i++)
               {
                  const IntegrationPoint &pip = ir.IntPoint(i);
                  for (int w = 0; w < nv; w++)
                  {
                     Vector y1, y2;
                     us[k * nv + w]->GetVectorValue(e, ir.IntPoint(i), y1);
                     gs[w]->GetVectorValue(pe, pip, y2);
                     for (int d = 0; d < vd; d++) { a.push_back(fx(y1(d), 1e5)); b.push_back(fx(y2(d), 1e5)); }
                  }
               }
               emit(Ev("Value").i("e", pe + 1).ai("sub", a).ai("glob", b));
            }
         }
         emit(Ev("End"));
         for (int i = 0; i < us.Size(); i++) delete us[i];
         for (int i = 0; i < gs.Size(); i++) delete gs[i];
         for (auto f : sp) delete f;
         delete gf; delete fec;
      }
      bool own = seed % 3 != 0;
      delete th;
      if (own) delete pm;
   }
   return 0;
}
