// Interface forms over random assemblies with integer-valued integrators.  argv: scenario file
#include "comp.hpp"
#include "interfaceinteg.hpp"
#include "num.hpp"
#include "interface_form.hpp"

static long val(int t, int s, int u, int a, int b, int e1, int e2) { return (a * 3 + b * 5 + s * 7 + u * 11 + e1 * 2 + e2 * 13 + t * 17) % 19 - 9; }
static long quad(int t, int s, int a, int e1, int e2) { return (a * 5 + s * 3 + e1 * 7 + e2 * 2 + t * 11) % 7 - 3; }
class Stub : public InterfaceNonlinearFormIntegrator
{
   int t, vd, tv;
   void fill(FaceElementTransformations &T1, FaceElementTransformations &T2, int h[2], int w[2], Array2D<DenseMatrix *> &m, const Vector *x[2])
   {
      int e1 = T1.Elem1No + 1, e2 = T2.Elem1No + 1;
      for (int s = 0; s < 2; s++) for (int u = 0; u < 2; u++)
      {
         DenseMatrix &M = *m(s, u); M.SetSize(h[s], w[u]);
         for (int a = 0; a < h[s]; a++) for (int b = 0; b < w[u]; b++)
         {
            M(a, b) = val(t, s + 1, u + 1, a + 1, b + 1, e1, e2);
            if (x[0] && s == u && a == b) M(a, b) += 2.0 * quad(t, s + 1, a + 1, e1, e2) * (*x[s])(a);
         }
      }
   }
public:
   Stub(int t_, int vd_, int tv_) : HyperReductionIntegrator(), t(t_), vd(vd_), tv(tv_) {}
   virtual void AssembleInterfaceVector(const FiniteElement &el1, const FiniteElement &el2, FaceElementTransformations &T1, FaceElementTransformations &T2,
                                        const Vector &x1, const Vector &x2, Vector &y1, Vector &y2)
   {
      int e1 = T1.Elem1No + 1, e2 = T2.Elem1No + 1, n[2] = {el1.GetDof() * vd, el2.GetDof() * vd};
      const Vector *x[2] = {&x1, &x2}; Vector *y[2] = {&y1, &y2};
      for (int s = 0; s < 2; s++)
      {
         y[s]->SetSize(n[s]);
         for (int a = 0; a < n[s]; a++)
         {
            double v = quad(t, s + 1, a + 1, e1, e2) * (*x[s])(a) * (*x[s])(a);
            for (int u = 0; u < 2; u++) for (int b = 0; b < n[u]; b++) v += val(t, s + 1, u + 1, a + 1, b + 1, e1, e2) * (*x[u])(b);
            (*y[s])(a) = v;
         }
      }
   }
   virtual void AssembleInterfaceGrad(const FiniteElement &el1, const FiniteElement &el2, FaceElementTransformations &T1, FaceElementTransformations &T2,
                                      const Vector &x1, const Vector &x2, Array2D<DenseMatrix *> &m)
   { int n[2] = {el1.GetDof() * vd, el2.GetDof() * vd}; const Vector *x[2] = {&x1, &x2}; fill(T1, T2, n, n, m, x); }
   virtual void AssembleInterfaceMatrix(const FiniteElement &el1, const FiniteElement &el2, FaceElementTransformations &T1, FaceElementTransformations &T2, Array2D<DenseMatrix *> &m)
   { int n[2] = {el1.GetDof() * vd, el2.GetDof() * vd}; const Vector *x[2] = {NULL, NULL}; fill(T1, T2, n, n, m, x); }
   virtual void AssembleInterfaceMatrix(const FiniteElement &tr1, const FiniteElement &tr2, const FiniteElement &te1, const FiniteElement &te2,
                                        FaceElementTransformations &T1, FaceElementTransformations &T2, Array2D<DenseMatrix *> &m)
   { int h[2] = {te1.GetDof() * tv, te2.GetDof() * tv}, w[2] = {tr1.GetDof() * vd, tr2.GetDof() * vd}; const Vector *x[2] = {NULL, NULL}; fill(T1, T2, h, w, m, x); }
};
static string facesJson(Mesh *m1, Mesh *m2, Array<InterfaceInfo> *ii, FiniteElementSpace *d1, FiniteElementSpace *d2, FiniteElementSpace *t1, FiniteElementSpace *t2)
{
   vector<string> r;
   for (int i = 0; i < ii->Size(); i++)
   {
      int e1, e2, info; m1->GetBdrElementAdjacentElement((*ii)[i].BE1, e1, info); m2->GetBdrElementAdjacentElement((*ii)[i].BE2, e2, info);
      auto v = [](FiniteElementSpace *f, int e) { Array<int> d; f->GetElementVDofs(e, d); return J(d, 1); };
      r.push_back("{\"e\":" + jint({e1 + 1, e2 + 1}) + ",\"t\":" + jarr({v(t1, e1), v(t2, e2)}) + ",\"d\":" + jarr({v(d1, e1), v(d2, e2)}) + "}");
   }
   return jarr(r);
}
static string matsJson(Array2D<SparseMatrix *> &m)
{
   vector<string> r;
   for (int i = 0; i < m.NumRows(); i++) for (int j = 0; j < m.NumCols(); j++)
   {
      DenseMatrix d = dense(*m(i, j));
      for (int a = 0; a < d.NumRows(); a++) for (int b = 0; b < d.NumCols(); b++) if (d(a, b) != 0.0) r.push_back(jint({i + 1, j + 1, a + 1, b + 1, iv(d(a, b))}));
   }
   return jarr(r);
}
static string blocksJson(const Vector &x, const vector<int> &n) { vector<string> r; int o = 0; for (int k : n) { vector<long> v; for (int i = 0; i < k; i++) v.push_back(iv(x(o + i))); o += k; r.push_back(jint(v)); } return jarr(r); }

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   ifstream in(argv[1]); string line; int count = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      int seed = s["seed"].as<int>(); bool sub = s["sub"].as<bool>(), mix = s["mix"].as<bool>();
      Rng r(seed * 7 + 1);
      TopologyHandler *th; CompScenario *c = NULL; Mesh *pm = NULL;
      if (sub)
      {
         config = InputParser();
         config.SetOption<string>("domain-decomposition/type", "interior_penalty");
         pm = grid2d(s["gx"].as<int>() + 1, s["gy"].as<int>() + 1, s["simplex"].as<bool>(), s["k"].as<int>(), s["style"].as<int>(), 2, seed, 0);
         th = new SubMeshTopologyHandler(pm);
      }
      else
      {
         c = makeScenario(s);
         Layout L = randomLayout(r, *c);
         writeConfig(*c, L, "cfg" + to_string(count++));
         th = new ComponentTopologyHandler();
      }
      int ns = th->GetNumSubdomains(), dim = th->GetMesh(0)->Dimension();
      int o = s["o"].as<int>(), vd = s["vd"].as<int>(), to = mix ? s["to"].as<int>() : o, tv = mix ? s["tv"].as<int>() : vd;
      FiniteElementCollection *fd, *ft;
      if (s["h1"].as<bool>()) fd = new H1_FECollection(o, dim); else fd = new L2_FECollection(o - 1 + (seed % 2 || vd == 2), dim);
      if (!mix) ft = fd; else if (seed % 3 == 0) ft = new H1_FECollection(to, dim); else ft = new L2_FECollection(to - 1, dim);
      int ord = s["bv"].as<bool>() ? Ordering::byVDIM : Ordering::byNODES;
      Array<Mesh *> ms(ns); Array<FiniteElementSpace *> D(ns), T(ns); vector<int> nd, nt;
      for (int k = 0; k < ns; k++)
      {
         ms[k] = th->GetMesh(k); D[k] = new FiniteElementSpace(ms[k], fd, vd, ord); T[k] = mix ? new FiniteElementSpace(ms[k], ft, tv, ord) : D[k];
         nd.push_back(D[k]->GetTrueVSize()); nt.push_back(T[k]->GetTrueVSize());
      }
      InterfaceForm *F = mix ? NULL : new InterfaceForm(ms, D, th);
      MixedInterfaceForm *G = mix ? new MixedInterfaceForm(ms, D, T, th) : NULL;
      vector<string> ports;
      for (int p = 0; p < th->GetNumPorts(); p++)
      {
         const PortInfo *pi = th->GetPortInfo(p); int a = pi->Mesh1, b = pi->Mesh2;
         ports.push_back("{\"m1\":" + to_string(a + 1) + ",\"m2\":" + to_string(b + 1) + ",\"f\":" + facesJson(ms[a], ms[b], th->GetInterfaceInfos(p), D[a], D[b], T[a], T[b]) + "}");
      }
      Ev bg("Begin"); bg.b("mix", mix).b("sub", sub).ai("nd", nd).raw("ports", jarr(ports)).raw("off", F ? J(F->GetBlockOffsets()) : "[]");
      emit(bg);
      // component spaces
      Array<FiniteElementSpace *> cD, cT;
      if (!sub) for (int k = 0; k < th->GetNumComponents(); k++)
      { Mesh *m = th->GetComponentMesh(k); cD.Append(new FiniteElementSpace(m, fd, vd, ord)); cT.Append(mix ? new FiniteElementSpace(m, ft, tv, ord) : cD[k]); }
      Array2D<SparseMatrix *> mats(ns, ns), pm2; for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) mats(i, j) = new SparseMatrix(nt[i], nd[j]);
      Array2D<SparseMatrix *> mp(2, 2); mp = (SparseMatrix *) NULL;
      Vector x, y; int nx = 0; for (int k : nd) nx += k;
      auto addItg = [&](int t) { Stub *st = new Stub(t, vd, tv); if (F) F->AddInterfaceIntegrator(st); else G->AddInterfaceIntegrator(st);
         emit(Ev("Add").i("t", t).i("n", F ? F->GetIntefaceIntegrators().Size() : G->GetIntefaceIntegrators().Size())); };
      if (seed % 8) addItg(seed % 5);
      for (size_t q = 0; q < s["ops"].size(); q++)
      {
         string op = s["ops"][q]["op"].as<string>(); int sd = s["ops"][q]["seed"].as<int>(); Rng z(sd * 3 + 2);
         if (mix && (op == "grad" || op == "mult")) op = sd % 2 ? "mats" : "port";
         if (op == "port" && (sub || th->GetNumRefPorts() == 0)) op = "mats";
         if (op == "add") addItg(sd % 11);
         else if (op == "fresh")
         {
            for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++)
            {
               delete mats(i, j); mats(i, j) = new SparseMatrix(nt[i], nd[j]);
               for (int k = 0; k < 3; k++) mats(i, j)->Set(z.in(0, nt[i] - 1), z.in(0, nd[j] - 1), z.in(-9, 9));
            }
            emit(Ev("Fresh").raw("m", matsJson(mats)));
         }
         else if (op == "mats")
         {
            if (F) F->AssembleInterfaceMatrices(mats); else G->AssembleInterfaceMatrices(mats);
            emit(Ev("Mats").raw("m", matsJson(mats)));
         }
         else if (op == "grad")
         {
            Vector xx; rnd(z, xx, nx, 3); Vector x0(xx);
            F->InterfaceGetGradient(xx, mats);
            x0 -= xx;
            emit(Ev("Grad").raw("x", blocksJson(xx, nd)).raw("m", matsJson(mats)).b("kept", x0.Norml2() == 0.0));
         }
         else if (op == "mult")
         {
            if (sd % 2) { rnd(z, x, nx, 3); rnd(z, y, nx, 9); }               // new storage or the same storage as before
            Vector xx, yy; rnd(z, xx, nx, 3); rnd(z, yy, nx, 9);
            Vector *px = &xx, *py = &yy; if (sd % 2) { px = &x; py = &y; }
            Vector x0(*px), y0(*py);
            F->InterfaceAddMult(*px, *py);
            Vector dx(*px); dx -= x0;
            emit(Ev("Mult").raw("x", blocksJson(x0, nd)).raw("y0", blocksJson(y0, nd)).raw("y1", blocksJson(*py, nd)).b("kept", dx.Norml2() == 0.0));
         }
         else
         {
            int p = sd % th->GetNumRefPorts(), c1, c2; th->GetComponentPair(p, c1, c2);
            if (F) F->AssembleInterfaceMatrixAtPort(p, cD, mp); else G->AssembleInterfaceMatrixAtPort(p, cD, cT, mp);
            vector<long> h, n;
            int cc[2] = {c1, c2};
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
            { h.push_back(mp(i, j)->Height()); h.push_back(mp(i, j)->Width()); h.push_back(mp(i, j)->Finalized()); n.push_back(cT[cc[i]]->GetTrueVSize()); n.push_back(cD[cc[j]]->GetTrueVSize()); n.push_back(1); }
            emit(Ev("Port").i("r", p + 1).i("c1", c1 + 1).i("c2", c2 + 1).ai("h", h).ai("n1", n).raw("m", matsJson(mp))
                 .raw("p", "{\"m1\":1,\"m2\":2,\"f\":" + facesJson(th->GetComponentMesh(c1), th->GetComponentMesh(c2), th->GetRefInterfaceInfos(p), cD[c1], cD[c2], cT[c1], cT[c2]) + "}"));
         }
      }
      emit(Ev("End"));
      for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) delete mats(i, j);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) delete mp(i, j);
      delete F; delete G;
      for (int k = 0; k < ns; k++) { if (T[k] != D[k]) delete T[k]; delete D[k]; }
      for (int k = 0; k < cD.Size(); k++) { if (cT[k] != cD[k]) delete cT[k]; delete cD[k]; }
      if (ft != fd) delete ft;
      delete fd; delete th; delete c; delete pm;
   }
   return 0;
}
