// Hyper-reduced forms: sampled points, training, storage, precomputation and evaluation of the component, subdomain
// and interface forms, against point contributions of fresh integrators.
// argv: scenario file, scratch directory
#include "comp.hpp"
#include "interfaceinteg.hpp"
#include "nonlinear_integ.hpp"
#include "num.hpp"
#include "rom_nonlinearform.hpp"
#include "rom_interfaceform.hpp"
#include "fork.hpp"

static const double WU = 256, WT = 16384;
static double lin(const Vector &x) { double s = 1.0; for (int i = 0; i < x.Size(); i++) s += 0.125 * (i + 1) * x(i); return s; }
static void vlin(const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); i++) v(i) = 1.0 - i + 0.25 * x(i) + 0.125 * x(0); }
static void udf(const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); i++) v(i) = 2.0 * (1 - 0.5 * i); }

struct Kind { int t; string name; double q; int variant; vector<int> attrs; bool marked = false; };   // an integrator of a component form
typedef vector<vector<Vector>> PTab;                                             // entity, point -> contributions
static FunctionCoefficient Qlin(lin);
static int dim;
static void bent(Vector &x, int n) { for (int j = 0; j < x.Size(); j++) x(j) += 0.01 * std::sin(3.0 * j + 1.3 * n); }
struct Coefs { vector<Coefficient *> q; VectorFunctionCoefficient *vq, *ud; } CO;
static HyperReductionIntegrator *make(const Kind &k)
{
   Coefficient *q = k.variant & 2 ? (Coefficient *) &Qlin : new ConstantCoefficient(k.q);
   if (q != &Qlin) CO.q.push_back(q);
   if (k.name == "conv") return new VectorConvectionTrilinearFormIntegrator(*q, k.variant & 1 ? CO.vq : NULL);
   if (k.name == "flux") return new IncompressibleInviscidFluxNLFIntegrator(*q);
   return new DGLaxFriedrichsFluxIntegrator(*q, k.t == 2 && (k.variant & 1) ? CO.ud : NULL);
}
struct Comp
{
   Mesh *m; FiniteElementSpace *f; DenseMatrix raw; int off = 0, nb, ndof; vector<Kind> kinds; const IntegrationRule *ire; int id = 0;
   double b(int i, int j) const { return raw(off + i, j); }
};
static const IntegrationRule *irf;
static FaceElementTransformations *ftr(Mesh *m, int t, int id) { return t == 1 ? m->GetInteriorFaceTransformations(id) : m->GetBdrFaceTransformations(id); }
static int entities(Mesh *m, int t) { return t == 0 ? m->GetNE() : t == 1 ? m->GetNumFaces() : m->GetNBE(); }
// may the integrator see this entity?
static bool valid(const Comp &C, const Kind &k, int id)
{
   if (k.t == 0) return true;
   if (ftr(C.m, k.t, id) == NULL) return false;
   if (k.t == 1 || !k.marked) return true;
   return std::find(k.attrs.begin(), k.attrs.end(), C.m->GetBdrAttribute(id)) != k.attrs.end();
}
static const IntegrationRule *rule(const Comp &C, const Kind &k) { return k.t == 0 ? C.ire : irf; }
static void vdofs(FiniteElementSpace *f, int t, int id, Array<int> &vd)
{
   if (t == 0) { f->GetElementVDofs(id, vd); return; }
   auto *T = ftr(f->GetMesh(), t, id); int e1 = T->Elem1No, e2 = T->Elem2No;
   f->GetElementVDofs(e1, vd); if (t == 1) { Array<int> w; f->GetElementVDofs(e2, w); vd.Append(w); }
}
// contributions (weight one) of every point of every entity, projected on the basis of C; on the mesh of f
static void tables(const Comp &C, FiniteElementSpace *f, const Kind &k, const Vector &u, const Vector *v, PTab &P, PTab &D)
{
   Mesh *m = f->GetMesh(); const IntegrationRule *ir = rule(C, k); int n = entities(m, k.t);
   P.assign(n, {}); D.assign(n, {});
   for (int id = 0; id < n; id++)
   {
      if (!valid(C, k, id)) continue;
      Array<int> vd; vdofs(f, k.t, id, vd); Vector x, z; u.GetSubVector(vd, x); if (v) v->GetSubVector(vd, z);
      for (int q = 0; q < ir->GetNPoints(); q++)
      {
         HyperReductionIntegrator *H = make(k); H->SetIntRule(ir); const IntegrationPoint &ip = ir->IntPoint(q);
         Vector y, g(vd.Size()); DenseMatrix G; g = 0.0;
         if (k.t == 0)
         { auto *T = f->GetElementTransformation(id); const FiniteElement &e = *f->GetFE(id); H->AssembleQuadratureVector(e, *T, ip, 1.0, x, y); if (v) H->AssembleQuadratureGrad(e, *T, ip, 1.0, x, G); }
         else
         {
            auto *T = ftr(m, k.t, id); const FiniteElement &e1 = *f->GetFE(T->Elem1No), &e2 = *f->GetFE(k.t == 1 ? T->Elem2No : T->Elem1No);
            H->AssembleQuadratureVector(e1, e2, *T, ip, 1.0, x, y); if (v) H->AssembleQuadratureGrad(e1, e2, *T, ip, 1.0, x, G);
         }
         if (v) G.Mult(z, g);
         Vector p(C.nb), d(C.nb);
         for (int j = 0; j < C.nb; j++) { p(j) = d(j) = 0; for (int i = 0; i < vd.Size(); i++) { p(j) += C.b(vd[i], j) * y(i); d(j) += C.b(vd[i], j) * g(i); } }
         P[id].push_back(p); D[id].push_back(d); delete H;
      }
   }
}
static void itfTables(TopologyHandler *th, const Comp &C1, const Comp &C2, FiniteElementSpace *f1, FiniteElementSpace *f2, Mesh *m2, const Array<InterfaceInfo> &infos, const Kind &k,
                      const Vector &u1, const Vector &u2, const Vector *v1, const Vector *v2, PTab &P, PTab &D)
{
   P.assign(infos.Size(), {}); D.assign(infos.Size(), {});
   for (int id = 0; id < infos.Size(); id++)
   {
      FaceElementTransformations *T1, *T2; InterfaceInfo info = infos[id]; th->GetInterfaceTransformations(f1->GetMesh(), m2, &info, T1, T2);
      Array<int> a, b; f1->GetElementVDofs(T1->Elem1No, a); f2->GetElementVDofs(T2->Elem1No, b);
      const FiniteElement &e1 = *f1->GetFE(T1->Elem1No), &e2 = *f2->GetFE(T2->Elem1No);
      Vector x1, x2, z1, z2; u1.GetSubVector(a, x1); u2.GetSubVector(b, x2); if (v1) { v1->GetSubVector(a, z1); v2->GetSubVector(b, z2); }
      for (int q = 0; q < irf->GetNPoints(); q++)
      {
         auto *H = dynamic_cast<InterfaceNonlinearFormIntegrator *>(make(k)); H->SetIntRule(irf); const IntegrationPoint &ip = irf->IntPoint(q);
         Vector y1, y2; H->AssembleQuadratureVector(e1, e2, *T1, *T2, ip, 1.0, x1, x2, y1, y2);
         Vector g1(a.Size()), g2(b.Size()); g1 = 0.0; g2 = 0.0;
         if (v1)
         {
            DenseMatrix M[4]; Array2D<DenseMatrix *> G(2, 2); for (int i = 0; i < 4; i++) G(i / 2, i % 2) = &M[i];
            H->AssembleQuadratureGrad(e1, e2, *T1, *T2, ip, 1.0, x1, x2, G);
            M[0].Mult(z1, g1); M[1].AddMult(z2, g1); M[2].Mult(z1, g2); M[3].AddMult(z2, g2);
         }
         Vector p(C1.nb + C2.nb), d(C1.nb + C2.nb); p = 0.0; d = 0.0;
         for (int j = 0; j < C1.nb; j++) for (int i = 0; i < a.Size(); i++) { p(j) += C1.b(a[i], j) * y1(i); d(j) += C1.b(a[i], j) * g1(i); }
         for (int j = 0; j < C2.nb; j++) for (int i = 0; i < b.Size(); i++) { p(C1.nb + j) += C2.b(b[i], j) * y2(i); d(C1.nb + j) += C2.b(b[i], j) * g2(i); }
         P[id].push_back(p); D[id].push_back(d); delete H;
      }
   }
}
static double amax(const PTab &T) { double m = 0; for (auto &e : T) for (auto &p : e) for (int j = 0; j < p.Size(); j++) if (std::isfinite(p(j))) m = std::max(m, std::fabs(p(j))); return m; }
// do these two tables of Jacobian contributions, at states that hardly differ, differ?  Then a dissipation between them has a kink
static bool jump(const PTab &A, const PTab &B)
{
   double m = std::max(amax(A), amax(B));
   for (size_t e = 0; e < A.size(); e++) for (size_t q = 0; q < A[e].size(); q++) for (int j = 0; j < A[e][q].Size(); j++)
      if (!(std::fabs(A[e][q](j) - B[e][q](j)) <= 1e-5 * m)) return true;
   return false;
}
static string js(const Vector &v, double s) { vector<long> r; for (int i = 0; i < v.Size(); i++) r.push_back(fx(v(i), s)); return jint(r); }
static string js(const PTab &T, double s) { vector<string> r; for (auto &e : T) { vector<string> q; for (auto &p : e) q.push_back(js(p, s)); r.push_back(jarr(q)); } return jarr(r); }
static double pw2(double m, double cap) { double s = 1; while (s * m < cap / 2 && s < 1e30) s *= 2; while (s * m > cap) s /= 2; return s; }
typedef Array<SampleInfo> SA;
static SA listOf(EQPElement *e) { SA s; for (int i = 0; e && i < e->Size(); i++) s.Append(e->GetSample(i)->info); return s; }
static string jsamples(const SA &s, double u)
{ vector<string> r; for (int i = 0; i < s.Size(); i++) { double w = s[i].qw * u; r.push_back(jint(vector<long>{s[i].el, s[i].qp, fx(w), w != std::floor(w)})); } return jarr(r); }
static double total(const SA &s) { double t = 0; for (int i = 0; i < s.Size(); i++) t += std::fabs(s[i].qw); return t; }
static string owner(char k, int i, vector<long> c) { return string("{\"k\":\"") + k + "\",\"i\":" + to_string(i) + ",\"c\":" + jint(c) + "}"; }

// what a function reads without having written it should show
__attribute__((noinline)) static void dirtyStack() { volatile double junk[1024]; for (int i = 0; i < 1024; i++) junk[i] = 1e4 + i; }
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   ifstream in(argv[1]); string line, dir = argv[2]; int count = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      int seed = s["seed"].as<int>(), o = s["o"].as<int>(), fam = s["fam"].as<int>(), ni = s["ni"].as<int>(); dim = s["dim"].as<int>();
      Rng r(seed * 13 + 5);
      CompScenario *cs = NULL; Mesh *pm = NULL; TopologyHandler *th;
      string tag = dir + "/s" + to_string(count++);
      if (s["sub"].as<bool>())
      {
         config = InputParser(); config.SetOption<string>("domain-decomposition/type", "interior_penalty");
         pm = grid2d(s["gx"].as<int>() + 1, s["gy"].as<int>() + 1, s["simplex"].as<bool>(), s["k"].as<int>(), s["style"].as<int>(), 2, seed, 0);
         th = new SubMeshTopologyHandler(pm);
      }
      else
      {
         cs = makeScenario(s); cs->tilt = 0;
         writeConfig(*cs, randomLayout(r, *cs), tag);
         th = new ComponentTopologyHandler();
      }
      config.SetOption<string>("model_reduction/eqp/criterion", s["crit"].as<string>());
      int nc = th->GetNumComponents(), ns = th->GetNumSubdomains(), np = th->GetNumPorts(), nrp = th->GetNumRefPorts();
      CO.vq = new VectorFunctionCoefficient(dim, vlin); CO.ud = new VectorFunctionCoefficient(dim, udf);
      FiniteElementCollection *fec = s["h1"].as<bool>() ? (FiniteElementCollection *) new H1_FECollection(o, dim) : new L2_FECollection(o, dim, r.flip() ? BasisType::GaussLobatto : BasisType::GaussLegendre);
      vector<Comp> C(nc); Array<Mesh *> meshes(ns); Array<FiniteElementSpace *> fs(ns), cf(nc);
      irf = &IntRules.Get(dim == 2 ? Geometry::SEGMENT : s["simplex"].as<bool>() ? Geometry::TRIANGLE : Geometry::SQUARE, dim == 3 ? 2 : 1 + 2 * r.in(0, 1));
      auto newBasis = [&](Comp &c)
      {
         c.off = r.in(0, 2) ? 0 : r.in(1, 3); c.id++;
         c.raw.SetSize(c.off + c.ndof + r.in(0, 2), c.nb);
         for (int i = 0; i < c.raw.NumRows(); i++) for (int j = 0; j < c.nb; j++) c.raw(i, j) = r.in(-1, 1) + (j == 0 ? 2 : 0);
      };
      for (int c = 0; c < nc; c++)
      {
         Comp &K = C[c]; K.m = th->GetComponentMesh(c); K.f = new FiniteElementSpace(K.m, fec, dim); cf[c] = K.f; K.nb = r.in(1, 3); K.ndof = K.f->GetTrueVSize(); newBasis(K);
         int hi = r.in(0, 1); K.ire = &IntRules.Get(K.m->GetElementBaseGeometry(0), dim == 3 ? 2 : K.m->GetElementBaseGeometry(0) == Geometry::TRIANGLE ? 2 + 2 * hi : 1 + 2 * hi);   // positive rules
         K.kinds.push_back({0, fam % 2 ? "conv" : "flux", 1.0 + 0.5 * r.in(0, 2), r.in(0, 3), {}});
         if (ni & 1) K.kinds.push_back({0, fam % 2 ? "flux" : "conv", -0.5, r.in(0, 3), {}});
         if (fam > 2) { K.kinds.push_back({1, "lf", 1.0, r.in(0, 3), {}}); if (ni & 2) K.kinds.push_back({1, "lf", -2.0, 0, {}}); }
         if (fam > 1 || (ni & 4))
            for (int b = 0; b <= r.in(0, 2); b++)
            {
               Kind k{2, "lf", b ? 0.5 : -1.0, r.in(0, 3), {}};
               const Array<int> &at = K.m->bdr_attributes;
               k.marked = r.in(0, 3) > 0;
               if (k.marked) { for (int a = 0; a < at.Size(); a++) if (r.flip()) k.attrs.push_back(at[a]); if (k.attrs.empty()) k.attrs.push_back(at[r.in(0, at.Size() - 1)]); }
               bool any = false; for (int b = 0; b < K.m->GetNBE(); b++) any = any || valid(K, k, b);
               if (any) K.kinds.push_back(k);
            }
         bool inner = false; for (int f = 0; f < K.m->GetNumFaces(); f++) inner = inner || K.m->GetInteriorFaceTransformations(f);
         if (!inner) { vector<Kind> ks; for (auto &k : K.kinds) if (k.t != 1) ks.push_back(k); K.kinds = ks; }
      }
      for (int m = 0; m < ns; m++) { meshes[m] = th->GetMesh(m); fs[m] = new FiniteElementSpace(meshes[m], fec, dim); }
      vector<Kind> ik; ik.push_back({3, "lf", 1.0, r.in(0, 3), {}}); if (ni & 4) ik.push_back({3, "lf", -1.5, 0, {}});
      // the forms
      vector<ROMNonlinearForm *> R(nc), V(ns); ROMInterfaceForm *F = new ROMInterfaceForm(meshes, fs, cf, th);
      auto marker = [&](Mesh *m, const Comp &K, const Kind &k) { Array<int> a(m->bdr_attributes.Max()); a = 0; for (int b = 0; b < m->GetNBE() && b < K.m->GetNBE(); b++) if (valid(K, k, b)) a[m->GetBdrAttribute(b) - 1] = 1; return a; };
      auto fill = [&](ROMNonlinearForm *f, const Comp &K, Mesh *m)
      {
         for (auto &k : K.kinds)
         {
            HyperReductionIntegrator *H = make(k); H->SetIntRule(rule(K, k));
            if (k.t == 0) f->AddDomainIntegrator(H); else if (k.t == 1) f->AddInteriorFaceIntegrator(H);
            else if (!k.marked) f->AddBdrFaceIntegrator(H); else { Array<int> a = marker(m, K, k); f->AddBdrFaceIntegrator(H, a); }
         }
      };
      for (int c = 0; c < nc; c++) { R[c] = new ROMNonlinearForm(C[c].nb, C[c].f); fill(R[c], C[c], C[c].m); }
      for (int m = 0; m < ns; m++) { Comp &K = C[th->GetMeshType(m)]; V[m] = new ROMNonlinearForm(K.nb, fs[m], false); fill(V[m], K, meshes[m]); }
      for (auto &k : ik) { auto *H = dynamic_cast<InterfaceNonlinearFormIntegrator *>(make(k)); H->SetIntRule(irf); F->AddInterfaceIntegrator(H); }
      auto pos = [&](const Comp &K, size_t n) { int i = 0; for (size_t a = 0; a < n; a++) if (K.kinds[a].t == K.kinds[n].t) i++; return i; };
      static const IntegratorType types[4] = {IntegratorType::DOMAIN, IntegratorType::INTERIORFACE, IntegratorType::BDRFACE, IntegratorType::INTERFACE};
      auto refresh = [&](int c)
      {
         for (int m = 0; m < ns; m++) if (th->GetMeshType(m) == c)
            for (size_t n = 0; n < C[c].kinds.size(); n++)
            {
               int t = C[c].kinds[n].t, i = pos(C[c], n); EQPElement *e = R[c]->GetEQPForIntegrator(types[t], i);
               if (t == 0) V[m]->SetDomainEQPElems(i, e); else if (t == 1) V[m]->SetInteriorEQPElems(i, e); else V[m]->SetBdrEQPElems(i, e);
            }
      };
      auto setBasis = [&](int c)
      {
         R[c]->SetBasis(C[c].raw, C[c].off); for (int m = 0; m < ns; m++) if (th->GetMeshType(m) == c) V[m]->SetBasis(C[c].raw, C[c].off);
         F->SetBasisAtComponent(c, C[c].raw, C[c].off);
         emit(Ev("Basis").i("c", c + 1).i("b", C[c].id));
      };
      auto ownR = [&](int c) { return owner('R', c + 1, {c + 1}); };
      vector<pair<int, int>> rc(nrp); for (int p = 0; p < nrp; p++) th->GetComponentPair(p, rc[p].first, rc[p].second);
      auto ownF = [&](int rp) { return owner('F', rp + 1, {rc[rp].first + 1, rc[rp].second + 1}); };
      auto pick = [&](Rng &z, int nent, std::function<bool(int)> ok, int nq)
      {
         SA sa; set<pair<int, int>> had; int n = z.in(1, 5);
         for (int i = 0; i < 40 && sa.Size() < n; i++) { int e = z.in(0, nent - 1), q = z.in(0, nq - 1); if (!ok(e) || !had.insert({e, q}).second) continue; SampleInfo x; memset(&x, 0, sizeof x); x.el = e; x.qp = q; x.qw = z.in(1, 40) / 8.0; sa.Append(x); }
         if (sa.Size() == 0) for (int e = 0; e < nent; e++) if (ok(e)) { SampleInfo x; memset(&x, 0, sizeof x); x.el = e; x.qp = 0; x.qw = 1.5; sa.Append(x); break; }
         if (z.in(0, 2) == 0) std::sort(&sa[0], &sa[0] + sa.Size(), [](const SampleInfo &a, const SampleInfo &b) { return a.el < b.el || (a.el == b.el && a.qp < b.qp); });
         return sa;
      };
      auto sampleR = [&](Rng &z, int c, size_t n)
      {
         const Kind &k = C[c].kinds[n]; SA sa = pick(z, entities(C[c].m, k.t), [&](int e) { return valid(C[c], k, e); }, rule(C[c], k)->GetNPoints());
         int i = pos(C[c], n);
         if (k.t == 0) R[c]->UpdateDomainIntegratorSampling(i, sa); else if (k.t == 1) R[c]->UpdateInteriorFaceIntegratorSampling(i, sa); else R[c]->UpdateBdrFaceIntegratorSampling(i, sa);
         emit(Ev("Sample").s("op", to_string(k.t)).raw("o", ownR(c)).i("t", k.t).i("k", i).raw("s", jsamples(sa, WU)));
      };
      vector<vector<SA>> fsmp(nrp, vector<SA>(ik.size()));       // the interface form does not tell
      auto sampleF = [&](Rng &z, int p, int i)
      {
         SA sa = pick(z, th->GetRefInterfaceInfos(p)->Size(), [](int) { return true; }, irf->GetNPoints());
         F->UpdateInterFaceIntegratorSampling(i, p, sa); fsmp[p][i] = sa;
         emit(Ev("Sample").s("op", "3").raw("o", ownF(p)).i("t", 3).i("k", i).raw("s", jsamples(sa, WU)));
      };
      emit(Ev("Begin").i("nc", nc).i("ns", ns).i("np", np));
      for (int c = 0; c < nc; c++) setBasis(c);
      F->UpdateBlockOffsets();
      for (int c = 0; c < nc; c++) { for (size_t n = 0; n < C[c].kinds.size(); n++) sampleR(r, c, n); refresh(c); }
      for (int p = 0; p < nrp; p++) for (size_t i = 0; i < ik.size(); i++) sampleF(r, p, i);
      auto state = [&](Rng &z, int n) { Vector x(n); for (int i = 0; i < n; i++) x(i) = z.in(-2, 2); if (n && z.in(0, 5)) { int k = z.in(0, n - 1); if (x(k) == 0) x(k) = 1; } return x; };
      auto lift = [&](const Comp &K, const Vector &x) { Vector u(K.ndof); for (int i = 0; i < K.ndof; i++) { u(i) = 0; for (int j = 0; j < K.nb; j++) u(i) += K.b(i, j) * x(j); } return u; };
      vector<long> all; 
      map<pair<int, int>, vector<vector<SA>>> kept;              // interface lists by slot
      for (size_t n = 0; n < s["ops"].size(); n++)
      {
         YAML::Node O = s["ops"][n]; string op = O["op"].as<string>(); int f = O["f"].as<int>(), slot = O["slot"].as<int>(), tol = O["tol"].as<int>(); bool fast = O["fast"].as<bool>();
         Rng z(O["seed"].as<int>() * 7 + 3); int c = f % nc, m = f % ns, p = nrp ? f % nrp : -1;
         string file = tag + "." + to_string(slot) + ".h5";
         if ((op == "itf" || op == "psample" || op == "ptrain") && np == 0) op = op == "itf" ? "view" : op == "psample" ? "sample" : "train";
         if (op == "sample") { sampleR(z, c, z.in(0, C[c].kinds.size() - 1)); refresh(c); }
         else if (op == "psample") sampleF(z, p, z.in(0, ik.size() - 1));
         else if (op == "basis") { newBasis(C[c]); setBasis(c); if (z.flip()) F->UpdateBlockOffsets(); }
         else if (op == "pre") { for (int c = 0; c < nc; c++) R[c]->PrecomputeCoefficients(); F->PrecomputeCoefficients(); emit(Ev("Pre")); }
         else if (op == "save")
         {
            hid_t h = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            for (int c = 0; c < nc; c++)
            {
               for (size_t n = 0; n < C[c].kinds.size(); n++) R[c]->SaveEQPForIntegrator(types[C[c].kinds[n].t], pos(C[c], n), h, "c" + to_string(c) + "_" + to_string(n));
               emit(Ev("Save").i("slot", slot).raw("o", ownR(c)));
            }
            if (nrp) { for (size_t i = 0; i < ik.size(); i++) F->SaveEQPForIntegrator(i, h, "itf" + to_string(i)); for (int p = 0; p < nrp; p++) emit(Ev("Save").i("slot", slot).raw("o", ownF(p))); kept[{slot, 0}] = fsmp; }
            H5Fclose(h);
         }
         else if (op == "load")
         {
            hid_t h = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
            for (int c = 0; c < nc; c++)
            {
               for (size_t n = 0; n < C[c].kinds.size(); n++) R[c]->LoadEQPForIntegrator(types[C[c].kinds[n].t], pos(C[c], n), h, "c" + to_string(c) + "_" + to_string(n));
               refresh(c); emit(Ev("Load").i("slot", slot).raw("o", ownR(c)));
            }
            if (nrp) { for (size_t i = 0; i < ik.size(); i++) F->LoadEQPForIntegrator(i, h, "itf" + to_string(i)); for (int p = 0; p < nrp; p++) emit(Ev("Load").i("slot", slot).raw("o", ownF(p))); fsmp = kept[{slot, 0}]; }
            H5Fclose(h);
         }
         else if (op == "look")
         {
            for (size_t n = 0; n < C[c].kinds.size(); n++)
            { int t = C[c].kinds[n].t, i = pos(C[c], n); emit(Ev("Look").raw("o", ownR(c)).i("t", t).i("k", i).raw("s", jsamples(listOf(R[c]->GetEQPForIntegrator(types[t], i)), WU))); }
            hid_t h = H5Fcreate((tag + ".coords.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            int nd = 0; for (auto &k : C[c].kinds) if (k.t == 0) nd++;
            for (int k = 0; k < nd; k++) { dirtyStack(); R[c]->SaveDomainEQPCoords(k, h, "d" + to_string(k)); }
            H5Fclose(h);
            h = H5Fopen((tag + ".coords.h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
            for (int k = 0; k < nd; k++)
            {
               hid_t g = H5Gopen2(h, ("d" + to_string(k)).c_str(), H5P_DEFAULT); DenseMatrix X; hdf5_utils::ReadDataset(g, "coords", X); H5Gclose(g);
               vector<string> rows; for (int i = 0; i < X.Height(); i++) { vector<long> y; for (int j = 0; j < X.Width(); j++) y.push_back(fx(X(i, j), 65536)); rows.push_back(jint(y)); }
               PTab at(C[c].m->GetNE());
               for (size_t e = 0; e < at.size(); e++) for (int q = 0; q < C[c].ire->GetNPoints(); q++) { Vector y(dim); C[c].m->GetElementTransformation(e)->Transform(C[c].ire->IntPoint(q), y); at[e].push_back(y); }
               emit(Ev("Coords").raw("o", ownR(c)).i("k", k).i("dim", dim).raw("x", jarr(rows)).raw("at", js(at, 65536)));
            }
            H5Fclose(h);
         }
         else if (op == "misuse")
         {
            SA one; SampleInfo x; memset(&x, 0, sizeof x); x.qw = 1; one.Append(x); string what; bool ok;
            EQPElement e(one);
            switch (z.in(0, 4))
            {
               case 0: what = "sample a view"; ok = survives([&] { V[m]->UpdateDomainIntegratorSampling(0, one); }); break;
               case 1: what = "point a reference elsewhere"; ok = survives([&] { R[c]->SetDomainEQPElems(0, &e); }); break;
               case 2: what = "criterion"; ok = survives([&] { config.SetOption<string>("model_reduction/eqp/criterion", "max"); ROMNonlinearForm g(2, C[c].f); }); break;
               case 3: what = "interface criterion"; ok = survives([&] { config.SetOption<string>("model_reduction/eqp/criterion", "max"); ROMInterfaceForm g(meshes, fs, cf, th); }); break;
               default:
               {
                  // a boundary point outside the integrator's boundary
                  ok = false; what = "boundary";
                  for (size_t n = 0; n < C[c].kinds.size(); n++)
                  {
                     const Kind &k = C[c].kinds[n]; if (k.t != 2 || !k.marked) continue;
                     for (int b = 0; b < C[c].m->GetNBE(); b++) if (!valid(C[c], k, b))
                     { one[0].el = b; int i = pos(C[c], n); ok = survives([&] { R[c]->UpdateBdrFaceIntegratorSampling(i, one); R[c]->SetPrecomputeMode(false); Vector x(C[c].nb), y(C[c].nb); x = 1.0; R[c]->Mult(x, y); }); n = 1000; break; }
                  }
               }
            }
            emit(Ev("Refuse").s("op", what).b("refused", !ok));
         }
         else if (op == "train")
         {
            Comp &K = C[c]; int nsn = z.in(1, 3), extra = z.in(0, 2); CAROM::Matrix X(K.ndof + extra, nsn, true); vector<Vector> U;
            for (int i = 0; i < nsn; i++)
            { Vector x = state(z, K.nb); if (x.Norml2() == 0) x(0) = 1; Vector u = lift(K, x); U.push_back(u); for (int k = 0; k < K.ndof + extra; k++) X(k, i) = k < K.ndof ? u(k) : 1000 + k; }
            R[c]->TrainEQP(X, tol / 100.0); refresh(c);
            vector<string> parts;
            for (size_t n = 0; n < K.kinds.size(); n++)
            {
               const Kind &k = K.kinds[n]; vector<PTab> G(nsn); PTab D; double mx = 1e-5;
               for (int i = 0; i < nsn; i++) { tables(K, K.f, k, U[i], NULL, G[i], D); mx = std::max(mx, amax(G[i])); }
               SA sa = listOf(R[c]->GetEQPForIntegrator(types[k.t], pos(K, n)));
               double rw = 0; const IntegrationRule *ir = rule(K, k); vector<long> w; vector<bool> ps; for (int q = 0; q < ir->GetNPoints(); q++) { w.push_back(fx(ir->IntPoint(q).weight, WT)); rw += ir->IntPoint(q).weight; }
               double sc = pw2(mx, std::min(2048.0, 5e8 / (WT * (total(sa) + rw * G[0].size() + 1))));
               vector<string> g, po; for (auto &t : G) g.push_back(js(t, sc)); for (int i = 0; i < sa.Size(); i++) po.push_back(sa[i].qw > 0 ? "true" : "false");
               parts.push_back("{\"t\":" + to_string(k.t) + ",\"k\":" + to_string(pos(K, n)) + ",\"s\":" + jsamples(sa, WU) + ",\"nj\":" + to_string(K.nb) + ",\"pts\":" + jsamples(sa, WT) + ",\"pos\":" + jarr(po) + ",\"w\":" + jint(w) + ",\"G\":" + jarr(g) + "}");
            }
            emit(Ev("Train").s("op", s["crit"].as<string>()).raw("o", ownR(c)).i("tol", tol).s("crit", s["crit"].as<string>()).raw("parts", jarr(parts)));
         }
         else if (op == "ptrain")
         {
            int c1 = rc[p].first, c2 = rc[p].second; Comp &A = C[c1], &B = C[c2]; int n1 = z.in(1, 3), n2 = c1 == c2 ? n1 : z.in(1, 3), npair = z.in(1, 3);
            CAROM::Matrix X1(A.ndof, n1, true), X2(B.ndof, n2, true); vector<Vector> U1, U2;
            for (int i = 0; i < n1; i++) { Vector u = lift(A, state(z, A.nb)); U1.push_back(u); for (int k = 0; k < A.ndof; k++) X1(k, i) = u(k); }
            for (int i = 0; i < n2; i++) { Vector u = c1 == c2 ? U1[i] : lift(B, state(z, B.nb)); U2.push_back(u); for (int k = 0; k < B.ndof; k++) X2(k, i) = u(k); }
            Array2D<int> pairs(npair, 2); for (int i = 0; i < npair; i++) { pairs(i, 0) = z.in(0, n1 - 1); pairs(i, 1) = z.in(0, n2 - 1); }
            F->TrainEQPForRefPort(p, X1, X2, pairs, tol / 100.0);
            Mesh *m2 = c1 == c2 ? new Mesh(*B.m) : B.m; const Array<InterfaceInfo> &infos = *th->GetRefInterfaceInfos(p);
            vector<string> parts;
            // the interface form keeps its points to itself: they are read from what it saves
            string tf = tag + ".tmp.h5"; hid_t h = H5Fcreate(tf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            for (size_t i = 0; i < ik.size(); i++) F->SaveEQPForIntegrator(i, h, "itf" + to_string(i));
            for (size_t i = 0; i < ik.size(); i++)
            {
               string nm; int a1, a2, d1, d2; th->GetRefPortInfo(p, d1, d2, a1, a2);
               nm = "itf" + to_string(i) + "/" + th->GetComponentName(c1) + ":" + th->GetComponentName(c2) + "-" + to_string(a1) + ":" + to_string(a2);
               EQPElement e; e.Load(h, nm, IntegratorType::INTERFACE); SA sa = listOf(&e); fsmp[p][i] = sa;
               vector<PTab> G(npair); PTab D; double mx = 1e-5;
               for (int q = 0; q < npair; q++) { itfTables(th, A, B, A.f, B.f, m2, infos, ik[i], U1[pairs(q, 0)], U2[pairs(q, 1)], NULL, NULL, G[q], D); mx = std::max(mx, amax(G[q])); }
               double rw = 0; vector<long> w; for (int q = 0; q < irf->GetNPoints(); q++) { w.push_back(fx(irf->IntPoint(q).weight, WT)); rw += irf->IntPoint(q).weight; }
               double sc = pw2(mx, std::min(2048.0, 5e8 / (WT * (total(sa) + rw * infos.Size() + 1))));
               vector<string> g, po; for (auto &t : G) g.push_back(js(t, sc)); for (int i = 0; i < sa.Size(); i++) po.push_back(sa[i].qw > 0 ? "true" : "false");
               parts.push_back("{\"t\":3,\"k\":" + to_string(i) + ",\"s\":" + jsamples(sa, WU) + ",\"nj\":" + to_string(A.nb + B.nb) + ",\"pts\":" + jsamples(sa, WT) + ",\"pos\":" + jarr(po) + ",\"w\":" + jint(w) + ",\"G\":" + jarr(g) + "}");
            }
            H5Fclose(h); if (c1 == c2) delete m2;
            emit(Ev("Train").s("op", "port-" + s["crit"].as<string>()).raw("o", ownF(p)).i("tol", tol).s("crit", s["crit"].as<string>()).raw("parts", jarr(parts)));
         }
         else if (op == "eval" || op == "view")
         {
            int cc = op == "eval" ? c : th->GetMeshType(m); Comp &K = C[cc]; ROMNonlinearForm *f = op == "eval" ? R[cc] : V[m]; FiniteElementSpace *sp = op == "eval" ? K.f : fs[m];
            f->SetPrecomputeMode(fast);
            Vector x = state(z, K.nb), d = state(z, K.nb), y(K.nb), g(K.nb), v = lift(K, d);
            for (int n = 0; n < 12; n++, n < 6 ? void(x = state(z, K.nb)) : bent(x, n))   // not on a kink of the dissipation
            {
               Vector a(x), b(x); bool bad = false; for (int j = 0; j < K.nb; j++) { a(j) += 1e-7 * (1 + j); b(j) -= 1e-7 * (1 + j); } a = lift(K, a); b = lift(K, b);
               for (auto &k : K.kinds) { PTab p, A, B; tables(K, sp, k, a, &v, p, A); tables(K, sp, k, b, &v, p, B); bad = bad || jump(A, B); }
               if (!bad) break;
            }
            Vector x0(x), u = lift(K, x);
            y = 777.0; bool first = z.flip();
            if (!first) f->Mult(x, y);
            f->GetGradient(x).Mult(d, g);
            if (first) f->Mult(x, y);
            vector<PTab> P, D; double mx = 1e-5, tw = 0; vector<SA> lists;
            for (auto &k : K.kinds) { PTab a, b; tables(K, sp, k, u, &v, a, b); mx = std::max(mx, std::max(amax(a), amax(b))); P.push_back(a); D.push_back(b); }
            for (size_t n = 0; n < K.kinds.size(); n++) tw += total(listOf(R[cc]->GetEQPForIntegrator(types[K.kinds[n].t], pos(K, n))));
            double sc = pw2(mx, std::min(8192.0, 1e9 / (WU * (tw + 1))));
            vector<string> parts; vector<long> at; for (int j = 0; j < K.nb; j++) at.push_back(j + 1);
            for (size_t n = 0; n < K.kinds.size(); n++)
               parts.push_back("{\"o\":" + ownR(cc) + ",\"t\":" + to_string(K.kinds[n].t) + ",\"k\":" + to_string(pos(K, n)) + ",\"at\":" + jint(at) + ",\"P\":" + js(P[n], sc) + ",\"D\":" + js(D[n], sc) + "}");
            Vector zero(K.nb); zero = 0.0; bool same = true; for (int j = 0; j < K.nb; j++) same = same && x(j) == x0(j);
            emit(Ev("Eval").s("op", op + (fast ? "-fast" : "-slow")).b("fast", fast).raw("parts", jarr(parts)).raw("y0", js(zero, 1)).raw("g0", js(zero, 1)).raw("y", js(y, sc * WU)).raw("g", js(g, sc * WU)).b("same", same));
         }
         else if (op == "itf")
         {
            F->SetPrecomputeMode(fast); vector<int> off(ns + 1, 0); for (int m = 0; m < ns; m++) off[m + 1] = off[m] + C[th->GetMeshType(m)].nb; int N = off[ns];
            Vector x = state(z, N), d = state(z, N), y(N), y0(N), g(N), g0(N);
            auto split = [&](const Vector &s) { vector<Vector> r; for (int m = 0; m < ns; m++) { Comp &K = C[th->GetMeshType(m)]; Vector a(K.nb); for (int j = 0; j < K.nb; j++) a(j) = s(off[m] + j); r.push_back(lift(K, a)); } return r; };
            for (int n = 0; n < 12; n++, n < 6 ? void(x = state(z, N)) : bent(x, n))
            {
               Vector a(x), b(x); bool bad = false; for (int j = 0; j < N; j++) { a(j) += 1e-7 * (1 + j); b(j) -= 1e-7 * (1 + j); } vector<Vector> ua = split(a), ub = split(b), vd = split(d);
               for (int p = 0; p < np; p++) for (size_t i = 0; i < ik.size(); i++)
               {
                  int m1 = th->GetPortInfo(p)->Mesh1, m2 = th->GetPortInfo(p)->Mesh2; PTab q, A, B; Comp &K1 = C[th->GetMeshType(m1)], &K2 = C[th->GetMeshType(m2)];
                  itfTables(th, K1, K2, fs[m1], fs[m2], meshes[m2], *th->GetInterfaceInfos(p), ik[i], ua[m1], ua[m2], &vd[m1], &vd[m2], q, A);
                  itfTables(th, K1, K2, fs[m1], fs[m2], meshes[m2], *th->GetInterfaceInfos(p), ik[i], ub[m1], ub[m2], &vd[m1], &vd[m2], q, B); bad = bad || jump(A, B);
               }
               if (!bad) break;
            }
            Vector x0(x);
            vector<PTab> P, D; vector<int> pp, kk; double mx = 1e-5, tw = 0;
            vector<Vector> u, v; for (int m = 0; m < ns; m++) { Comp &K = C[th->GetMeshType(m)]; Vector a(x.GetData() + off[m], K.nb), b(d.GetData() + off[m], K.nb); u.push_back(lift(K, a)); v.push_back(lift(K, b)); }
            for (int p = 0; p < np; p++)
            {
               const PortInfo *pi = th->GetPortInfo(p); int m1 = pi->Mesh1, m2 = pi->Mesh2;
               for (size_t i = 0; i < ik.size(); i++)
               {
                  PTab a, b; itfTables(th, C[th->GetMeshType(m1)], C[th->GetMeshType(m2)], fs[m1], fs[m2], meshes[m2], *th->GetInterfaceInfos(p), ik[i], u[m1], u[m2], &v[m1], &v[m2], a, b);
                  mx = std::max(mx, std::max(amax(a), amax(b))); P.push_back(a); D.push_back(b); pp.push_back(p); kk.push_back(i); tw += total(fsmp[th->GetPortType(p)][i]);
               }
            }
            double sc = pw2(mx, std::min(8192.0, 1e9 / (WU * (tw + 1))));
            for (int i = 0; i < N; i++) { y0(i) = z.in(-50, 50) / (sc * WU) * 1024; }
            y = y0; F->InterfaceAddMult(x, y);
            Array2D<SparseMatrix *> M(ns, ns); g0 = 0.0; g = 0.0;
            for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++)
            {
               int ni = off[i + 1] - off[i], nj = off[j + 1] - off[j]; M(i, j) = new SparseMatrix(ni, nj);
               for (int a = 0; a < ni; a++) for (int b = 0; b < nj; b++) M(i, j)->Set(a, b, z.in(-20, 20) / (sc * WU) * 1024);
               Vector t(ni), dj(d.GetData() + off[j], nj); M(i, j)->Mult(dj, t); for (int a = 0; a < ni; a++) g0(off[i] + a) += t(a);
            }
            F->InterfaceGetGradient(x, M);
            for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) { int ni = off[i + 1] - off[i], nj = off[j + 1] - off[j]; Vector t(ni), dj(d.GetData() + off[j], nj); M(i, j)->Mult(dj, t); for (int a = 0; a < ni; a++) g(off[i] + a) += t(a); delete M(i, j); }
            vector<string> parts;
            for (size_t n = 0; n < P.size(); n++)
            {
               const PortInfo *pi = th->GetPortInfo(pp[n]); vector<long> at; for (int m : {pi->Mesh1, pi->Mesh2}) for (int j = off[m]; j < off[m + 1]; j++) at.push_back(j + 1);
               parts.push_back("{\"o\":" + ownF(th->GetPortType(pp[n])) + ",\"t\":3,\"k\":" + to_string(kk[n]) + ",\"at\":" + jint(at) + ",\"P\":" + js(P[n], sc) + ",\"D\":" + js(D[n], sc) + "}");
            }
            bool same = true; for (int j = 0; j < N; j++) same = same && x(j) == x0(j);
            emit(Ev("Eval").s("op", string("itf-") + (fast ? "fast" : "slow")).b("fast", fast).raw("parts", jarr(parts)).raw("y0", js(y0, sc * WU)).raw("g0", js(g0, sc * WU)).raw("y", js(y, sc * WU)).raw("g", js(g, sc * WU)).b("same", same));
         }
      }
      emit(Ev("End"));
      delete F; for (auto *f : V) delete f; for (auto *f : R) delete f;
      for (auto *f : fs) delete f; for (auto *f : cf) delete f;
      delete fec; delete CO.vq; delete CO.ud; for (auto *q : CO.q) delete q; CO.q.clear();
      delete th; delete cs; delete pm;
   }
   MPI_Finalize();
   return 0;
}
