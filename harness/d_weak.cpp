// Nonlinear weak forms: full residuals and Jacobians, their point contributions and the reduced ("fast") samples.
// argv: scenario file
#include "comp.hpp"
#include "interfaceinteg.hpp"
#include "nonlinear_integ.hpp"
#include "num.hpp"
#include "interface_form.hpp"

struct Arg
{
   int kind, o; bool lf;                     // 0 element, 1 interior face, 2 boundary face, 3 interface
   FiniteElementCollection *fec = NULL; FiniteElementSpace *f1 = NULL, *f2 = NULL; Mesh *m1 = NULL, *m2 = NULL;
   int id = 0; InterfaceInfo info; int n1 = 0, n2 = 0, nb1 = 0, nb2 = 0, state = 0;
   const IntegrationRule *ir = NULL; DenseMatrix B1, B2; Vector xr1, xr2, z1, z2, x, v; double scale = 1;
   vector<EQPSample *> smp;
   int n() const { return n1 + n2; }
   int nb() const { return kind == 3 ? nb1 + nb2 : nb1; }
   ~Arg() { delete f1; delete f2; delete fec; for (auto *s : smp) delete s; }
};
struct Trs { const FiniteElement *e1 = NULL, *e2 = NULL; ElementTransformation *T = NULL; FaceElementTransformations *F1 = NULL, *F2 = NULL; };
static TopologyHandler *th = NULL;
static Trs trs(Arg &a)
{
   Trs t;
   if (a.kind == 0) { t.T = a.f1->GetElementTransformation(a.id); t.e1 = a.f1->GetFE(a.id); return t; }
   if (a.kind == 1) t.F1 = a.m1->GetInteriorFaceTransformations(a.id);
   else if (a.kind == 2) t.F1 = a.m1->GetBdrFaceTransformations(a.id);
   else th->GetInterfaceTransformations(a.m1, a.m2, &a.info, t.F1, t.F2);
   t.e1 = a.f1->GetFE(t.F1->Elem1No);
   t.e2 = a.kind == 1 ? a.f1->GetFE(t.F1->Elem2No) : a.kind == 2 ? t.e1 : a.f2->GetFE(t.F2->Elem1No);
   return t;
}
// outputs arrive with something in them, sometimes of the right size
static int turn = 0;
static void dirty(Vector &y, int n) { int k = turn++ % 3; if (k) { y.SetSize(k == 1 ? n : n + 3); y = 777.0; } }
static void dirty(DenseMatrix &G, int m, int n) { int k = turn++ % 3; if (k) { G.SetSize(k == 1 ? m : m + 1, k == 1 ? n : n + 2); G = -555.0; } }
struct M4 { DenseMatrix m[4]; Array2D<DenseMatrix *> p; M4(const Arg &a) : p(2, 2) { for (int i = 0; i < 4; i++) { p(i / 2, i % 2) = &m[i]; dirty(m[i], i / 2 ? a.n2 : a.n1, i % 2 ? a.n2 : a.n1); } } };
static void cut(const Arg &a, const Vector &x, Vector &x1, Vector &x2)
{ x1.SetSize(a.n1); x2.SetSize(a.n2); for (int i = 0; i < a.n1; i++) x1(i) = x(i); for (int i = 0; i < a.n2; i++) x2(i) = x(a.n1 + i); }
static Vector glue(const Vector &x1, const Vector &x2)
{ Vector r(x1.Size() + x2.Size()); for (int i = 0; i < x1.Size(); i++) r(i) = x1(i); for (int i = 0; i < x2.Size(); i++) r(x1.Size() + i) = x2(i); return r; }
static Vector apply(const Arg &a, M4 &m, const Vector &v)
{
   Vector v1, v2; cut(a, v, v1, v2); Vector y1(a.n1), y2(a.n2), t1(a.n1), t2(a.n2);
   m.m[0].Mult(v1, y1); m.m[1].Mult(v2, t1); y1 += t1; m.m[2].Mult(v1, y2); m.m[3].Mult(v2, t2); y2 += t2;
   return glue(y1, y2);
}
// the repository's operations, uniformly
static Vector full(NonlinearFormIntegrator *I, Arg &a, const Vector &x)
{
   Trs t = trs(a); Vector y; dirty(y, a.n());
   if (a.kind == 0) I->AssembleElementVector(*t.e1, *t.T, x, y);
   else if (a.kind < 3) I->AssembleFaceVector(*t.e1, *t.e2, *t.F1, x, y);
   else { Vector x1, x2, y1, y2; dirty(y1, a.n1); dirty(y2, a.n2); cut(a, x, x1, x2); dynamic_cast<InterfaceNonlinearFormIntegrator *>(I)->AssembleInterfaceVector(*t.e1, *t.e2, *t.F1, *t.F2, x1, x2, y1, y2); y = glue(y1, y2); }
   return y;
}
static Vector grad(NonlinearFormIntegrator *I, Arg &a, const Vector &x, const Vector &v)
{
   Trs t = trs(a); DenseMatrix G; dirty(G, a.n(), a.n()); Vector y(a.n());
   if (a.kind == 3)
   { M4 m(a); Vector x1, x2; cut(a, x, x1, x2); dynamic_cast<InterfaceNonlinearFormIntegrator *>(I)->AssembleInterfaceGrad(*t.e1, *t.e2, *t.F1, *t.F2, x1, x2, m.p); return apply(a, m, v); }
   if (a.kind == 0) I->AssembleElementGrad(*t.e1, *t.T, x, G); else I->AssembleFaceGrad(*t.e1, *t.e2, *t.F1, x, G);
   if (G.NumRows() != a.n() || G.NumCols() != a.n()) { y.SetSize(0); return y; }
   G.Mult(v, y); return y;
}
static Vector point(HyperReductionIntegrator *I, Arg &a, int q, double iw, const Vector &x)
{
   Trs t = trs(a); Vector y; dirty(y, a.n()); const IntegrationPoint &ip = a.ir->IntPoint(q);
   if (a.kind == 0) I->AssembleQuadratureVector(*t.e1, *t.T, ip, iw, x, y);
   else if (a.kind < 3) I->AssembleQuadratureVector(*t.e1, *t.e2, *t.F1, ip, iw, x, y);
   else { Vector x1, x2, y1, y2; dirty(y1, a.n1); dirty(y2, a.n2); cut(a, x, x1, x2); dynamic_cast<InterfaceNonlinearFormIntegrator *>(I)->AssembleQuadratureVector(*t.e1, *t.e2, *t.F1, *t.F2, ip, iw, x1, x2, y1, y2); y = glue(y1, y2); }
   return y;
}
static Vector gpoint(HyperReductionIntegrator *I, Arg &a, int q, double iw, const Vector &x, const Vector &v)
{
   Trs t = trs(a); DenseMatrix G; dirty(G, a.n(), a.n()); Vector y(a.n()); const IntegrationPoint &ip = a.ir->IntPoint(q);
   if (a.kind == 3)
   { M4 m(a); Vector x1, x2; cut(a, x, x1, x2); dynamic_cast<InterfaceNonlinearFormIntegrator *>(I)->AssembleQuadratureGrad(*t.e1, *t.e2, *t.F1, *t.F2, ip, iw, x1, x2, m.p); return apply(a, m, v); }
   if (a.kind == 0) I->AssembleQuadratureGrad(*t.e1, *t.T, ip, iw, x, G); else I->AssembleQuadratureGrad(*t.e1, *t.e2, *t.F1, ip, iw, x, G);
   if (G.NumRows() != a.n() || G.NumCols() != a.n()) { y.SetSize(0); return y; }
   G.Mult(v, y); return y;
}
// what a reduced sample stores: the basis functions (and their gradients) at the point
static EQPSample *sample(Arg &a, int q, double w)
{
   Trs t = trs(a); const IntegrationPoint &ip = a.ir->IntPoint(q); int dim = a.m1->Dimension();
   SampleInfo si; memset(&si, 0, sizeof si); si.el = a.id; si.qp = q; si.qw = w;
   EQPSample *s = new EQPSample(si);
   auto side = [&](const FiniteElement *e, const IntegrationPoint &p, DenseMatrix &B, int off, int nb)
   {
      int nd = e->GetDof(); Vector N(nd); e->CalcShape(p, N);
      DenseMatrix *S = new DenseMatrix(dim, nb);
      for (int k = 0; k < nb; k++) for (int d = 0; d < dim; d++) { double u = 0; for (int i = 0; i < nd; i++) u += B(off + i + d * nd, k) * N(i); (*S)(d, k) = u; }
      return S;
   };
   if (a.kind == 0)
   {
      t.T->SetIntPoint(&ip); s->shape1 = side(t.e1, ip, a.B1, 0, a.nb1);
      int nd = t.e1->GetDof(); DenseMatrix dN(nd, dim); t.e1->CalcPhysDShape(*t.T, dN);
      for (int k = 0; k < a.nb1; k++)
      {
         DenseMatrix *g = new DenseMatrix(dim); *g = 0.0;
         for (int c = 0; c < dim; c++) for (int d = 0; d < dim; d++) for (int i = 0; i < nd; i++) (*g)(c, d) += a.B1(i + c * nd, k) * dN(i, d);
         s->dshape1.Append(g);
      }
      return s;
   }
   t.F1->SetAllIntPoints(&ip); IntegrationPoint p1 = t.F1->GetElement1IntPoint(), p2;
   s->shape1 = side(t.e1, p1, a.B1, 0, a.nb1);
   if (a.kind == 1) { p2 = t.F1->GetElement2IntPoint(); s->shape2 = side(t.e2, p2, a.B1, a.n1, a.nb1); }
   if (a.kind == 3) { t.F2->SetAllIntPoints(&ip); p2 = t.F2->GetElement1IntPoint(); s->shape2 = side(t.e2, p2, a.B2, 0, a.nb2); }
   return s;
}
static void fastv(HyperReductionIntegrator *I, Arg &a, EQPSample &s, Vector &y)
{
   Trs t = trs(a);
   if (a.kind == 0) I->AddAssembleVector_Fast(s, *t.T, a.xr1, y);
   else if (a.kind < 3) I->AddAssembleVector_Fast(s, *t.F1, a.xr1, y);
   else
   {
      Vector y1(a.nb1), y2(a.nb2); for (int i = 0; i < a.nb1; i++) y1(i) = y(i); for (int i = 0; i < a.nb2; i++) y2(i) = y(a.nb1 + i);
      dynamic_cast<InterfaceNonlinearFormIntegrator *>(I)->AddAssembleVector_Fast(s, *t.F1, *t.F2, a.xr1, a.xr2, y1, y2); y = glue(y1, y2);
   }
}
// J0 given, J0 + contribution returned
static void fastg(HyperReductionIntegrator *I, Arg &a, EQPSample &s, DenseMatrix &J)
{
   Trs t = trs(a);
   if (a.kind == 0) I->AddAssembleGrad_Fast(s, *t.T, a.xr1, J);
   else if (a.kind < 3) I->AddAssembleGrad_Fast(s, *t.F1, a.xr1, J);
   else
   {
      Array2D<SparseMatrix *> p(2, 2); int nb[2] = {a.nb1, a.nb2}, of[2] = {0, a.nb1};
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
      { p(i, j) = new SparseMatrix(nb[i], nb[j]); for (int r = 0; r < nb[i]; r++) for (int c = 0; c < nb[j]; c++) p(i, j)->Set(r, c, J(of[i] + r, of[j] + c)); }
      dynamic_cast<InterfaceNonlinearFormIntegrator *>(I)->AddAssembleGrad_Fast(s, *t.F1, *t.F2, a.xr1, a.xr2, p);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
      { DenseMatrix d = dense(*p(i, j)); for (int r = 0; r < nb[i]; r++) for (int c = 0; c < nb[j]; c++) J(of[i] + r, of[j] + c) = d(r, c); delete p(i, j); }
   }
}
static double lin(const Vector &x) { double s = 1.0; for (int i = 0; i < x.Size(); i++) s += 0.125 * (i + 1) * x(i); return s; }
static double one(const Vector &x) { return 1.0; }
static void vlin(const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); i++) v(i) = 1.0 - i + 0.25 * x(i) + 0.125 * x(0); }
static double udMag = 1;
static void udf(const Vector &x, Vector &v) { for (int i = 0; i < v.Size(); i++) v(i) = udMag * (1 - 0.5 * i); }
static string sc(const Vector &v, double s) { vector<long> r; for (int i = 0; i < v.Size(); i++) r.push_back(fx(v(i), s)); return jint(r); }
static double amax(const Vector &v) { double m = 0; for (int i = 0; i < v.Size(); i++) m = std::isfinite(v(i)) ? std::max(m, std::fabs(v(i))) : m; return m; }

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   ifstream in(argv[1]); string line; int count = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      int seed = s["seed"].as<int>(), dim = s["dim"].as<int>(); bool sub = s["sub"].as<bool>() && dim == 2, simplex = s["simplex"].as<bool>();
      string integ = s["integ"].as<string>(); int ud = s["ud"].as<int>(), q = s["q"].as<int>(); bool law = s["law"].as<bool>();
      Rng r(seed * 11 + 3);
      CompScenario *c = NULL; Mesh *pm = NULL; th = NULL; vector<Mesh *> ms;
      if (dim == 1)
      {
         pm = new Mesh(Mesh::MakeCartesian1D(4, 4.0)); for (int v = 0; v < pm->GetNV(); v++) pm->GetVertex(v)[0] += r.in(-2, 2) / 8.0;
         ms.push_back(pm);
      }
      else if (sub)
      {
         config = InputParser();
         config.SetOption<string>("domain-decomposition/type", "interior_penalty");
         pm = grid2d(s["gx"].as<int>() + 1, s["gy"].as<int>() + 1, simplex, s["k"].as<int>(), s["style"].as<int>(), 2, seed, 0);
         th = new SubMeshTopologyHandler(pm);
      }
      else
      {
         c = makeScenario(s);
         Layout L = randomLayout(r, *c);
         writeConfig(*c, L, "cfg" + to_string(count++));
         th = new ComponentTopologyHandler();
      }
      if (th) for (int k = 0; k < th->GetNumSubdomains(); k++) ms.push_back(th->GetMesh(k));
      FunctionCoefficient Q(q ? lin : one); VectorFunctionCoefficient vQ(dim, vlin), UD(dim, udf); udMag = ud == 2 ? 64 : 1.0 / 64;   // away from the kinks |u1| = |u2|
      auto make = [&]() -> NonlinearFormIntegrator *
      {
         if (integ == "conv") return new VectorConvectionTrilinearFormIntegrator(Q, ud ? &vQ : NULL);
         if (integ == "flux") return new IncompressibleInviscidFluxNLFIntegrator(Q);
         if (integ == "temam") return new TemamTrilinearFormIntegrator(Q);
         if (integ == "lf") return new DGLaxFriedrichsFluxIntegrator(Q, ud ? &UD : NULL);
         if (integ == "tface") return new DGTemamFluxIntegrator(Q);
         return new InterfaceDGTemamFluxIntegrator(Q);
      };
      bool element = integ == "conv" || integ == "flux" || integ == "temam", lf = integ == "lf", hyper = integ == "conv" || integ == "flux" || lf;
      NonlinearFormIntegrator *I = make();                                   // the long-lived one
      HyperReductionIntegrator *H = hyper ? dynamic_cast<HyperReductionIntegrator *>(I) : NULL;
      emit(Ev("Begin").s("integ", integ).i("dim", dim).i("ud", ud).i("q", q));
      vector<Arg *> args;
      for (size_t n = 0; n < s["ops"].size(); n++)
      {
         YAML::Node O = s["ops"][n]; string op = O["op"].as<string>(); int sd = O["seed"].as<int>(); Rng z(sd * 5 + 1);
         if (op == "arg" || args.empty())
         {
            Arg *a = new Arg; a->lf = lf;
            a->kind = element ? 0 : integ == "tiface" ? 3 : integ == "tface" ? z.in(1, 2) : O["kind"].as<int>();
            if (a->kind == 3 && (!th || th->GetNumPorts() == 0)) a->kind = 2;
            if (integ == "tiface" && a->kind != 3) { delete a; break; }
            int p = 0, k = z.in(0, ms.size() - 1); a->m1 = ms[k];
            if (a->kind == 3)
            {
               p = z.in(0, th->GetNumPorts() - 1); const PortInfo *pi = th->GetPortInfo(p); a->m1 = th->GetMesh(pi->Mesh1); a->m2 = th->GetMesh(pi->Mesh2);
               auto *ii = th->GetInterfaceInfos(p); a->info = (*ii)[z.in(0, ii->Size() - 1)];
            }
            if (a->kind == 1)
            {
               vector<int> fs; for (int f = 0; f < a->m1->GetNumFaces(); f++) if (a->m1->GetInteriorFaceTransformations(f)) fs.push_back(f);
               if (fs.empty()) a->kind = 2; else a->id = fs[z.in(0, fs.size() - 1)];
            }
            if (a->kind == 0) a->id = z.in(0, a->m1->GetNE() - 1);
            if (a->kind == 2) a->id = z.in(0, a->m1->GetNBE() - 1);
            a->o = dim == 3 ? 1 : O["o"].as<int>();
            if (O["h1"].as<bool>()) a->fec = new H1_FECollection(a->o, dim); else a->fec = new L2_FECollection(a->o, dim);
            a->f1 = new FiniteElementSpace(a->m1, a->fec, dim); if (a->m2) a->f2 = new FiniteElementSpace(a->m2, a->fec, dim);
            Trs t = trs(*a);
            int d1 = t.e1->GetDof(), d2 = a->kind == 1 || a->kind == 3 ? t.e2->GetDof() : 0;
            a->n1 = d1 * dim; a->n2 = d2 * dim;
            a->nb1 = z.in(2, 3); a->nb2 = a->kind == 3 ? z.in(2, 3) : 0;
            a->state = O["state"].as<int>(); bool big1 = a->state % 2;
            // one basis function (any) is the state, constant on each side (Lax-Friedrichs: well away from |u1| = |u2|)
            Vector c1(dim), c2(dim);
            for (int d = 0; d < dim; d++) { c1(d) = big1 ? z.in(-24, 24) : z.in(-4, 4); c2(d) = big1 ? z.in(-4, 4) : z.in(-24, 24); }
            Vector &big = big1 ? c1 : c2; big(z.in(0, dim - 1)) = z.flip() ? 26 : -26;
            if (a->kind < 2 && !lf) { for (int d = 0; d < dim; d++) c1(d) = z.in(-4, 4); }
            if (a->state == 3 || law) c2 = c1;
            const int rot = z.in(0, 5);
            auto fill = [&](DenseMatrix &B, int off, int nd, int nb, Vector &cc)
            { for (int k = 0; k < nb; k++) for (int d = 0; d < dim; d++) for (int i = 0; i < nd; i++) B(off + i + d * nd, k) = k != rot % nb ? z.in(-1, 1) : cc(d); };
            if (a->kind == 3) { a->B1.SetSize(a->n1, a->nb1); a->B2.SetSize(a->n2, a->nb2); fill(a->B1, 0, d1, a->nb1, c1); fill(a->B2, 0, d2, a->nb2, c2); }
            else { a->B1.SetSize(a->n(), a->nb1); fill(a->B1, 0, d1, a->nb1, c1); if (d2) fill(a->B1, a->n1, d2, a->nb1, c2); }
            auto coef = [&](Vector &x, int nb) { x.SetSize(nb); for (int k = 0; k < nb; k++) x(k) = a->state == 2 ? 0 : a->state == 3 ? k == rot % nb : k != rot % nb ? z.in(-1, 1) : 1; };
            coef(a->xr1, a->nb1); if (a->kind == 3) coef(a->xr2, a->nb2);
            if (a->state == 4 && !lf) for (int k = 0; k < a->nb1; k++) a->xr1(k) = z.in(-3, 3);
            rnd(z, a->z1, a->nb1, 2); if (a->kind == 3) rnd(z, a->z2, a->nb2, 2);
            Vector x1(a->B1.NumRows()), v1(a->B1.NumRows()); a->B1.Mult(a->xr1, x1); a->B1.Mult(a->z1, v1);
            if (a->kind == 3) { Vector x2(a->n2), v2(a->n2); a->B2.Mult(a->xr2, x2); a->B2.Mult(a->z2, v2); a->x = glue(x1, x2); a->v = glue(v1, v2); }
            else { a->x = x1; a->v = v1; }
            int order = 2 * a->o + z.in(0, 2);
            a->ir = &IntRules.Get(a->kind == 0 ? t.T->GetGeometryType() : t.F1->GetGeometryType(), dim == 3 ? 2 + (a->kind == 0 && simplex) : order);
            // reference: fresh instances of the integrator
            vector<Vector> P, D;
            if (hyper) for (int p = 0; p < a->ir->GetNPoints(); p++)
            {
               NonlinearFormIntegrator *F = make(); F->SetIntRule(a->ir); P.push_back(point(dynamic_cast<HyperReductionIntegrator *>(F), *a, p, a->ir->IntPoint(p).weight, a->x)); delete F;
               F = make(); F->SetIntRule(a->ir); D.push_back(gpoint(dynamic_cast<HyperReductionIntegrator *>(F), *a, p, a->ir->IntPoint(p).weight, a->x, a->v)); delete F;
            }
            else { NonlinearFormIntegrator *F = make(); F->SetIntRule(a->ir); P.push_back(full(F, *a, a->x)); delete F; F = make(); F->SetIntRule(a->ir); D.push_back(grad(F, *a, a->x, a->v)); delete F; }
            double m = lf ? 1e-3 + 0.02 * amax(a->v) * amax(a->v) : 1e-3; for (auto &v : P) m = std::max(m, amax(v)); for (auto &v : D) m = std::max(m, amax(v));
            while (a->scale * m < 131072) a->scale *= 2;
            while (a->scale * m > 262144) a->scale /= 2;
            vector<string> jp, jd, jb; for (auto &v : P) jp.push_back(sc(v, a->scale)); for (auto &v : D) jd.push_back(sc(v, a->scale));
            for (int i = 0; i < a->n(); i++)
            {
               vector<long> row;
               if (a->kind < 3) for (int k = 0; k < a->nb1; k++) row.push_back(iv(a->B1(i, k)));
               else { for (int k = 0; k < a->nb1; k++) row.push_back(i < a->n1 ? iv(a->B1(i, k)) : 0); for (int k = 0; k < a->nb2; k++) row.push_back(i < a->n1 ? 0 : iv(a->B2(i - a->n1, k))); }
               jb.push_back(jint(row));
            }
            Vector xr = glue(a->xr1, a->xr2), zz = glue(a->z1, a->z2);
            // the area normal of the face, pointing out of element 1, from the vertices alone
            Vector N(dim); N = 0.0;
            if (a->kind > 0)
            {
               Mesh *M = a->m1; Vector ce; M->GetElementCenter(t.F1->Elem1No, ce); t = trs(*a);
               vector<Vector> X; const IntegrationRule *gv = Geometries.GetVertices(t.F1->GetGeometryType());
               for (int i = 0; i < gv->GetNPoints(); i++) { Vector p(dim); t.F1->Transform(gv->IntPoint(i), p); X.push_back(p); }
               if (dim == 1) N(0) = 1;
               else if (dim == 2) { N(0) = X[1](1) - X[0](1); N(1) = X[0](0) - X[1](0); }
               else for (int i = 1; i + 1 < (int) X.size(); i++)
               {
                  double p[3], w[3]; for (int d = 0; d < 3; d++) { p[d] = X[i](d) - X[0](d); w[d] = X[i + 1](d) - X[0](d); }
                  N(0) += 0.5 * (p[1] * w[2] - p[2] * w[1]); N(1) += 0.5 * (p[2] * w[0] - p[0] * w[2]); N(2) += 0.5 * (p[0] * w[1] - p[1] * w[0]);
               }
               double dot = 0; for (int d = 0; d < dim; d++) dot += N(d) * (X[0](d) - ce(d));
               if (dot < 0) N *= -1.0;
            }
            Vector cN(1); cN(0) = 0; bool cst = true; for (int d = 0; d < dim; d++) cN(0) += N(d) * a->x(d * d1);
            for (int d = 0; d < dim; d++) { for (int i = 0; i < d1; i++) cst = cst && a->x(i + d * d1) == a->x(d * d1); for (int i = 0; i < d2; i++) cst = cst && a->x(a->n1 + i + d * d2) == a->x(d * d1); }
            vector<long> cc; for (int d = 0; d < dim; d++) cc.push_back(iv(a->x(d * d1)));
            emit(Ev("Arg").i("kind", a->kind).i("nd1", d1).i("nd2", d2).raw("B", jarr(jb)).raw("xr", J(xr)).raw("z", J(zz)).raw("P", jarr(jp)).raw("D", jarr(jd))
                 .b("const", cst).ai("c", cc).i("cN", fx(cN(0), a->scale)));
            for (int p = 0; p < a->ir->GetNPoints(); p++) a->smp.push_back(hyper ? sample(*a, p, 0) : NULL);
            args.push_back(a);
            if (op == "arg") continue;
         }
         int ia = O["state"].as<int>() % args.size(); Arg &a = *args[ia]; Vector y; int np = a.ir->GetNPoints(), p = sd % np, k = 1 + sd % 3; double w = k * a.ir->IntPoint(p).weight;
         if (sd % 4 == 3) { k = -1; w = -a.ir->IntPoint(p).weight; }
         I->SetIntRule(a.ir);
         Vector x0(a.x);
         if (!hyper && (op == "point" || op == "fastv")) op = "full";
         if (!hyper && (op == "gpoint" || op == "fastg")) op = "grad";
         if (op == "uniform" && !lf) op = "full";
         if (op == "uniform")
         {
            // the whole convection operator at a uniform flow: elements, interior faces, outer boundary, interfaces
            int o = dim == 3 ? 1 : O["o"].as<int>(); L2_FECollection fec(o, dim); Vector cc(dim); for (int d = 0; d < dim; d++) cc(d) = z.in(-9, 9);
            int ns = ms.size(); Array<Mesh *> am(ns); Array<FiniteElementSpace *> fs(ns); vector<Vector> X(ns), R(ns); int tot = 0;
            for (int i = 0; i < ns; i++)
            {
               am[i] = ms[i]; fs[i] = new FiniteElementSpace(ms[i], &fec, dim); X[i].SetSize(fs[i]->GetVSize()); R[i].SetSize(X[i].Size()); R[i] = 0.0; tot += X[i].Size();
               int nd = fs[i]->GetNDofs(); for (int d = 0; d < dim; d++) for (int k = 0; k < nd; k++) X[i](d * nd + k) = cc(d);
            }
            vector<set<int>> inner(ns);
            if (th) for (int p = 0; p < th->GetNumPorts(); p++)
            {
               const PortInfo *pi = th->GetPortInfo(p); auto *ii = th->GetInterfaceInfos(p);
               for (int k = 0; k < ii->Size(); k++) { inner[pi->Mesh1].insert((*ii)[k].BE1); inner[pi->Mesh2].insert((*ii)[k].BE2); }
            }
            IncompressibleInviscidFluxNLFIntegrator V(Q); auto *G = dynamic_cast<DGLaxFriedrichsFluxIntegrator *>(I); G->SetIntRule(NULL);
            for (int i = 0; i < ns; i++)
            {
               Array<int> vd, v2; Vector x, y; Mesh *m = ms[i];
               for (int e = 0; e < m->GetNE(); e++)
               { fs[i]->GetElementVDofs(e, vd); X[i].GetSubVector(vd, x); V.AssembleElementVector(*fs[i]->GetFE(e), *fs[i]->GetElementTransformation(e), x, y); R[i].AddElementVector(vd, y); }
               for (int f = 0; f < m->GetNumFaces(); f++) if (auto *T = m->GetInteriorFaceTransformations(f))
               { fs[i]->GetElementVDofs(T->Elem1No, vd); fs[i]->GetElementVDofs(T->Elem2No, v2); vd.Append(v2); X[i].GetSubVector(vd, x);
                 G->AssembleFaceVector(*fs[i]->GetFE(T->Elem1No), *fs[i]->GetFE(T->Elem2No), *T, x, y); R[i].AddElementVector(vd, y); }
               for (int b = 0; b < m->GetNBE(); b++) if (!inner[i].count(b))
               { auto *T = m->GetBdrFaceTransformations(b); if (!T) continue; fs[i]->GetElementVDofs(T->Elem1No, vd); X[i].GetSubVector(vd, x);
                 G->AssembleFaceVector(*fs[i]->GetFE(T->Elem1No), *fs[i]->GetFE(T->Elem1No), *T, x, y); R[i].AddElementVector(vd, y); }
            }
            if (th)
            {
               Vector x(tot), y(tot); int of = 0; for (int i = 0; i < ns; i++) { for (int k = 0; k < X[i].Size(); k++) { x(of + k) = X[i](k); y(of + k) = R[i](k); } of += X[i].Size(); }
               InterfaceForm F(am, fs, th); F.AddInterfaceIntegrator(new DGLaxFriedrichsFluxIntegrator(Q)); F.InterfaceAddMult(x, y);
               of = 0; for (int i = 0; i < ns; i++) { for (int k = 0; k < X[i].Size(); k++) R[i](k) = y(of + k); of += X[i].Size(); }
            }
            double su = 1000.0 / (1.0 + cc.Norml2() * cc.Norml2()); vector<string> jr; for (int i = 0; i < ns; i++) { jr.push_back(sc(R[i], su)); delete fs[i]; }
            emit(Ev("Uniform").raw("r", jarr(jr)));
         }
         else if (op == "full") { y = full(I, a, a.x); emit(Ev("Full").i("a", ia + 1).raw("y", sc(y, a.scale))); }
         else if (op == "grad") { y = grad(I, a, a.x, a.v); emit(Ev("Grad").i("a", ia + 1).raw("y", sc(y, a.scale))); }
         else if (op == "point") { y = point(H, a, p, w, a.x); emit(Ev("Point").i("a", ia + 1).i("q", p + 1).i("k", k).raw("y", sc(y, a.scale))); }
         else if (op == "gpoint") { y = gpoint(H, a, p, w, a.x, a.v); emit(Ev("GPoint").i("a", ia + 1).i("q", p + 1).i("k", k).raw("y", sc(y, a.scale))); }
         else if (op == "fastv")
         {
            Vector y0(a.nb()); for (int i = 0; i < a.nb(); i++) y0(i) = z.in(-99, 99) / a.scale * 64;
            y = y0; a.smp[p]->info.qw = w; fastv(H, a, *a.smp[p], y);
            emit(Ev("FastV").i("a", ia + 1).i("q", p + 1).i("k", k).raw("y0", sc(y0, a.scale)).raw("y", sc(y, a.scale)));
         }
         else if (op == "fastg")
         {
            int nb = a.nb(); DenseMatrix Jm(nb), J0; for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) Jm(i, j) = z.in(-99, 99) / a.scale * 64;
            J0 = Jm; a.smp[p]->info.qw = w; fastg(H, a, *a.smp[p], Jm);
            Vector zz = glue(a.z1, a.z2), j0(nb), j1(nb); J0.Mult(zz, j0); Jm.Mult(zz, j1);
            emit(Ev("FastG").i("a", ia + 1).i("q", p + 1).i("k", k).raw("y0", sc(j0, a.scale)).raw("y", sc(j1, a.scale)));
         }
         else if (op == "deriv")
         {
            const double h = 1.0 / (lf ? 16777216 : 1048576); Vector xp(a.x), xm(a.x); xp.Add(h, a.v); xm.Add(-h, a.v);
            Vector yp = full(I, a, xp), ym = full(I, a, xm); yp -= ym; yp *= 0.5 / h;
            emit(Ev("Deriv").i("a", ia + 1).raw("y", sc(yp, a.scale)));
         }
         for (int i = 0; i < x0.Size(); i++) if (x0(i) != a.x(i)) { emit(Ev("Changed").i("a", ia + 1)); break; }
      }
      emit(Ev("End"));
      for (auto *a : args) delete a;
      delete I; delete th; delete c; delete pm;
   }
   return 0;
}
