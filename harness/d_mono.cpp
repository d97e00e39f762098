// The forms of a decomposed domain against the contributions of every face of the undivided mesh.
// argv: scenario file
#include "comp.hpp"
#include "interfaceinteg.hpp"
#include "nonlinear_integ.hpp"
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "num.hpp"
#include "material.hpp"
#include "interface_form.hpp"

static double qf(const Vector &x) { double s = 2.0; for (int i = 0; i < x.Size(); i++) s += 0.125 * (i + 1) * x(i) * x(i); return s; }
static double lf(const Vector &x) { double s = 3.0; for (int i = 0; i < x.Size(); i++) s += 0.25 * x(i); return s + 4.0; }
static double one(const Vector &) { return 1.0; }
static void mqf(const Vector &x, DenseMatrix &m) { int n = x.Size(); m.SetSize(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (i == j ? 3.0 + 0.25 * x(0) : 0.5 + 0.25 * i); }
static double amax(const Vector &v) { double m = 0; for (int i = 0; i < v.Size(); i++) m = std::isfinite(v(i)) ? std::max(m, std::fabs(v(i))) : m; return m; }
static string sc(const Vector &v, double s) { vector<long> r; for (int i = 0; i < v.Size(); i++) r.push_back(fx(v(i), s)); return jint(r); }
static Vector sub(const Vector &x, int o, int n) { Vector r(n); for (int i = 0; i < n; i++) r(i) = x(o + i); return r; }

struct Face { int e[2]; Vector y[2]; };

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   ifstream in(argv[1]); string line; int count = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      int seed = s["seed"].as<int>(); bool subm = s["sub"].as<bool>(), simplex = s["simplex"].as<bool>();
      Rng r(seed * 13 + 5);
      CompScenario *c = NULL; Mesh *pm = NULL; TopologyHandler *th;
      if (subm)
      {
         config = InputParser();
         config.SetOption<string>("domain-decomposition/type", "interior_penalty");
         pm = grid2d(s["gx"].as<int>() + 1, s["gy"].as<int>() + 1, simplex, s["k"].as<int>(), s["style"].as<int>(), 2, seed, 0);
         if (s["curv"].as<bool>())
         {  // curved faces: quadratic nodes, moved a little
            pm->SetCurvature(2, s["seed"].as<int>() % 2);
            GridFunction &nd = *pm->GetNodes(); Vector d(nd.Size()); VectorFunctionCoefficient f(2, [](const Vector &x, Vector &y) { y.SetSize(2); y(0) = x(0) + 0.0625 * std::sin(3 * x(1) + x(0)); y(1) = x(1) + 0.0625 * std::cos(4 * x(0) - x(1)); });
            GridFunction g(nd.FESpace()); g.ProjectCoefficient(f); nd = g;
         }
         th = new SubMeshTopologyHandler(pm);
      }
      else
      {
         c = makeScenario(s);
         Layout L = randomLayout(r, *c);
         writeConfig(*c, L, "cfg" + to_string(count++));
         th = new ComponentTopologyHandler();
      }
      int ns = th->GetNumSubdomains(), dim = th->GetMesh(0)->Dimension();
      Array<Mesh *> ms(ns); vector<int> off(1, 0); for (int k = 0; k < ns; k++) { ms[k] = th->GetMesh(k); off.push_back(off.back() + ms[k]->GetNE()); }
      int ne = off[ns];
      // the undivided mesh: same elements, vertices at the same place identified
      map<vector<long>, int> vid; vector<Vector> vx; vector<vector<int>> ev; vector<Geometry::Type> eg;
      for (int k = 0; k < ns; k++) for (int e = 0; e < ms[k]->GetNE(); e++)
      {
         ElementTransformation *T = ms[k]->GetElementTransformation(e); const IntegrationRule *gv = Geometries.GetVertices(T->GetGeometryType()); vector<int> w;
         for (int i = 0; i < gv->GetNPoints(); i++)
         {
            Vector p(dim); T->Transform(gv->IntPoint(i), p); vector<long> key; for (int d = 0; d < dim; d++) key.push_back(std::lround(p(d) * 1e5));
            auto it = vid.find(key); if (it == vid.end()) { it = vid.insert({key, (int) vx.size()}).first; vx.push_back(p); }
            w.push_back(it->second);
         }
         ev.push_back(w); eg.push_back(T->GetGeometryType());
      }
      Mesh U(dim, vx.size(), ne, 0, dim);
      for (auto &p : vx) U.AddVertex(p.GetData());
      for (int e = 0; e < ne; e++)
         switch (eg[e])
         {
            case Geometry::TRIANGLE: U.AddTriangle(ev[e].data()); break;
            case Geometry::SQUARE: U.AddQuad(ev[e].data()); break;
            case Geometry::TETRAHEDRON: U.AddTet(ev[e].data()); break;
            default: U.AddHex(ev[e].data());
         }
      U.FinalizeTopology(); U.Finalize(false, false);
      if (ms[0]->GetNodes() && subm)
      {
         U.SetCurvature(2, true); GridFunction &un = *U.GetNodes(); Array<int> b;
         for (int k = 0; k < ns; k++) for (int e = 0; e < ms[k]->GetNE(); e++)
         {
            const IntegrationRule &nr = U.GetNodalFESpace()->GetFE(off[k] + e)->GetNodes(); int m = nr.GetNPoints(); Vector v(dim * m), q(dim);
            for (int i = 0; i < m; i++) { ms[k]->GetElementTransformation(e)->Transform(nr.IntPoint(i), q); for (int d = 0; d < dim; d++) v(d * m + i) = q(d); }
            U.GetNodalFESpace()->GetElementVDofs(off[k] + e, b); un.SetSubVector(b, v);
         }
      }
      auto subOf = [&](int g) { int k = 0; while (g >= off[k + 1]) k++; return k; };
      // the pairs of elements that ports join, in the order (first mesh, second mesh)
      map<pair<int, int>, int> joined;
      for (int p = 0; p < th->GetNumPorts(); p++)
      {
         const PortInfo *pi = th->GetPortInfo(p); auto *ii = th->GetInterfaceInfos(p);
         for (int i = 0; i < ii->Size(); i++)
         {
            int e1, e2, inf; ms[pi->Mesh1]->GetBdrElementAdjacentElement((*ii)[i].BE1, e1, inf); ms[pi->Mesh2]->GetBdrElementAdjacentElement((*ii)[i].BE2, e2, inf);
            joined[{off[pi->Mesh1] + e1, off[pi->Mesh2] + e2}]++;
         }
      }
      emit(Ev("Begin").b("sub", subm).i("dim", dim).i("ns", ns).i("ne", ne));
      for (size_t n = 0; n < s["ops"].size(); n++)
      {
         YAML::Node O = s["ops"][n]; string op = O["op"].as<string>(); int sd = O["seed"].as<int>(); Rng z(sd * 5 + 1);
         int o = dim == 3 ? 1 : O["o"].as<int>(), q = O["q"].as<int>(), bt = O["bt"].as<int>();
         double sigma = z.in(-1, 1), kappa = z.in(0, 4);
         int rd = op == "diff" ? 1 : dim, td = op == "nflux" ? 1 : rd;             // trial and test components
         L2_FECollection fr(o, dim, bt ? BasisType::GaussLobatto : BasisType::GaussLegendre), ft(op == "nflux" && sd % 2 ? o - 1 : o, dim);
         FiniteElementSpace UR(&U, &fr, rd, q % 2 ? Ordering::byVDIM : Ordering::byNODES);
         Array<FiniteElementSpace *> R(ns), T(ns);
         for (int k = 0; k < ns; k++) { int ord = q % 2 ? Ordering::byVDIM : Ordering::byNODES; R[k] = new FiniteElementSpace(ms[k], &fr, rd, ord); T[k] = op == "nflux" ? new FiniteElementSpace(ms[k], &ft, 1) : R[k]; }
         bool jumps = q > 0 && z.flip() && (op == "diff" || op == "vdiff" || op == "elast"); Material Q(q == 0 ? one : qf, jumps), Q2(q == 0 ? one : lf, jumps); TensorMaterial MQ(dim, mqf, jumps);
         const IntegrationRule *ir = &IntRules.Get(dim == 2 ? Geometry::SEGMENT : simplex ? Geometry::TRIANGLE : Geometry::SQUARE, 2 * o + z.in(0, 2));
         bool nonlin = op == "lf" || op == "lfg" || op == "temam" || op == "temamg";
         // element-wise state (and direction)
         vector<Vector> X(ne), V(ne);
         for (int e = 0; e < ne; e++)
         {
            int nd = UR.GetFE(e)->GetDof(); rnd(z, X[e], nd * rd, 3); rnd(z, V[e], nd * rd, 3);
            if (nonlin) { int big = (e * 7 + sd) % 5; for (int d = 0; d < rd; d++) for (int i = 0; i < nd; i++) X[e](d * nd + i) = 8 * (big + 1) + X[e](d * nd + i) * 0.25; }
         }
         // --- every face of the undivided mesh (independent integrators of MFEM, or the face form of the same flux)
         DGDiffusionIntegrator *dif = q == 2 && op == "diff" ? new DGDiffusionIntegrator(MQ, sigma, kappa) : new DGDiffusionIntegrator(Q, sigma, kappa); dif->SetIntRule(ir);
         DGElasticityIntegrator ela(Q2, Q, sigma, kappa); ela.SetIntRule(ir);
         DGLaxFriedrichsFluxIntegrator lax(Q); lax.SetIntRule(ir);
         DGTemamFluxIntegrator tem(Q); tem.SetIntRule(ir);
         vector<Face> faces; bool usable = true; int njoined = 0;
         for (int f = 0; f < U.GetNumFaces(); f++)
         {
            FaceElementTransformations *F = U.GetInteriorFaceTransformations(f);
            if (!F) continue;
            int g1 = F->Elem1No, g2 = F->Elem2No, k1 = subOf(g1), k2 = subOf(g2);
            if (k1 != k2)
            {
               if (joined.count({g1, g2})) njoined++;
               else if (joined.count({g2, g1})) { njoined++; if (op[0] == 't') usable = false; }    // Temam's flux depends on the side
               else continue;                                                                     // touching, but not joined by a port
            }
            const FiniteElement &el1 = *UR.GetFE(g1), &el2 = *UR.GetFE(g2); int d1 = el1.GetDof(), d2 = el2.GetDof();
            Face fc; fc.e[0] = g1; fc.e[1] = g2;
            Vector x(rd * (d1 + d2)), v(x.Size()); for (int i = 0; i < rd * d1; i++) { x(i) = X[g1](i); v(i) = V[g1](i); } for (int i = 0; i < rd * d2; i++) { x(rd * d1 + i) = X[g2](i); v(rd * d1 + i) = V[g2](i); }
            Vector y; DenseMatrix M; int t1 = td * d1, t2 = td * d2;
            if (op == "diff") { dif->AssembleFaceMatrix(el1, el2, *F, M); y.SetSize(M.Height()); M.Mult(x, y); }
            else if (op == "vdiff")
            {
               dif->AssembleFaceMatrix(el1, el2, *F, M); y.SetSize(x.Size());
               for (int d = 0; d < dim; d++)
               {
                  Vector xs(d1 + d2), ys(d1 + d2); for (int i = 0; i < d1; i++) xs(i) = x(d * d1 + i); for (int i = 0; i < d2; i++) xs(d1 + i) = x(dim * d1 + d * d2 + i);
                  M.Mult(xs, ys); for (int i = 0; i < d1; i++) y(d * d1 + i) = ys(i); for (int i = 0; i < d2; i++) y(dim * d1 + d * d2 + i) = ys(d1 + i);
               }
            }
            else if (op == "elast") { ela.AssembleFaceMatrix(el1, el2, *F, M); y.SetSize(M.Height()); M.Mult(x, y); }
            else if (op == "nflux")
            {  // the mean of the test function times the jump of the normal component
               const FiniteElement &b1 = *T[k1]->GetFE(g1 - off[k1]), &b2 = *T[k2]->GetFE(g2 - off[k2]); t1 = b1.GetDof(); t2 = b2.GetDof(); y.SetSize(t1 + t2); y = 0.0;
               const IntegrationRule &hr = IntRules.Get(F->GetGeometryType(), 2 * o + 3);
               for (int p = 0; p < hr.GetNPoints(); p++)
               {
                  const IntegrationPoint &ip = hr.IntPoint(p); F->SetAllIntPoints(&ip); Vector n(dim), N1(d1), N2(d2), B1(t1), B2(t2); CalcOrtho(F->Jacobian(), n);
                  el1.CalcShape(F->GetElement1IntPoint(), N1); el2.CalcShape(F->GetElement2IntPoint(), N2); b1.CalcShape(F->GetElement1IntPoint(), B1); b2.CalcShape(F->GetElement2IntPoint(), B2);
                  double j = 0; for (int d = 0; d < dim; d++) { for (int i = 0; i < d1; i++) j += n(d) * N1(i) * x(d * d1 + i); for (int i = 0; i < d2; i++) j -= n(d) * N2(i) * x(dim * d1 + d * d2 + i); }
                  for (int i = 0; i < t1; i++) y(i) += 0.5 * ip.weight * j * B1(i);
                  for (int i = 0; i < t2; i++) y(t1 + i) += 0.5 * ip.weight * j * B2(i);
               }
            }
            else
            {
               NonlinearFormIntegrator *I = op[0] == 'l' ? (NonlinearFormIntegrator *) &lax : &tem;
               if (op == "lf" || op == "temam") I->AssembleFaceVector(el1, el2, *F, x, y);
               else { I->AssembleFaceGrad(el1, el2, *F, x, M); y.SetSize(M.Height()); M.Mult(v, y); }
            }
            fc.y[0] = sub(y, 0, t1); fc.y[1] = sub(y, t1, t2); faces.push_back(fc);
         }
         int total = 0; for (auto &j : joined) total += j.second;
         // --- the decomposed forms
         vector<Vector> Y(ne);
         if (usable)
         {
            Array2D<SparseMatrix *> A(ns, ns); Array<int> vd, v2; vector<int> oR(1, 0), oT(1, 0);
            for (int k = 0; k < ns; k++) { oR.push_back(oR.back() + R[k]->GetVSize()); oT.push_back(oT.back() + T[k]->GetVSize()); }
            for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) A(i, j) = new SparseMatrix(T[i]->GetVSize(), R[j]->GetVSize());
            Vector gx(oR[ns]), gv(oR[ns]), gy(oT[ns]); gy = 0.0;
            for (int e = 0; e < ne; e++) { int k = subOf(e); R[k]->GetElementVDofs(e - off[k], vd); for (int i = 0; i < vd.Size(); i++) { gx(oR[k] + vd[i]) = X[e](i); gv(oR[k] + vd[i]) = V[e](i); } }
            InterfaceForm *G = op == "nflux" ? NULL : new InterfaceForm(ms, R, th); MixedInterfaceForm *H = op == "nflux" ? new MixedInterfaceForm(ms, R, T, th) : NULL;
            InterfaceNonlinearFormIntegrator *I =
               op == "diff" ? (q == 0 ? new InterfaceDGDiffusionIntegrator(sigma, kappa) : q == 1 ? new InterfaceDGDiffusionIntegrator(Q, sigma, kappa) : new InterfaceDGDiffusionIntegrator(MQ, sigma, kappa)) :
               op == "vdiff" ? (InterfaceNonlinearFormIntegrator *) (q == 0 ? new InterfaceDGVectorDiffusionIntegrator(sigma, kappa) : new InterfaceDGVectorDiffusionIntegrator(Q, sigma, kappa)) :
               op == "elast" ? (InterfaceNonlinearFormIntegrator *) new InterfaceDGElasticityIntegrator(&Q2, &Q, sigma, kappa) :
               op == "nflux" ? (InterfaceNonlinearFormIntegrator *) new InterfaceDGNormalFluxIntegrator :
               op[0] == 'l' ? (InterfaceNonlinearFormIntegrator *) new DGLaxFriedrichsFluxIntegrator(Q) : (InterfaceNonlinearFormIntegrator *) new InterfaceDGTemamFluxIntegrator(Q);
            if (op != "nflux" || sd % 4 == 0) I->SetIntRule(ir);
            if (G) G->AddInterfaceIntegrator(I); else H->AddInterfaceIntegrator(I);
            // inside the subdomains
            for (int k = 0; k < ns; k++)
            {
               Vector xk, yk(T[k]->GetVSize()), vk; xk = sub(gx, oR[k], R[k]->GetVSize()); vk = sub(gv, oR[k], R[k]->GetVSize()); yk = 0.0;
               if (op == "nflux")
               { MixedBilinearFormDGExtension b(R[k], T[k]); b.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); b.Assemble(); b.Finalize(); b.Mult(xk, yk); }
               else if (nonlin)
               {
                  NonlinearForm b(R[k]); NonlinearFormIntegrator *I2 = op[0] == 'l' ? (NonlinearFormIntegrator *) new DGLaxFriedrichsFluxIntegrator(Q) : new DGTemamFluxIntegrator(Q); I2->SetIntRule(ir);
                  b.AddInteriorFaceIntegrator(I2);
                  if (op == "lf" || op == "temam") b.Mult(xk, yk); else b.GetGradient(xk).Mult(vk, yk);
               }
               else
               {
                  BilinearForm b(R[k]);
                  BilinearFormIntegrator *I2 = op == "vdiff" ? (q == 0 ? (BilinearFormIntegrator *) new DGVectorDiffusionIntegrator(sigma, kappa) : new DGVectorDiffusionIntegrator(Q, sigma, kappa)) :
                     op == "elast" ? (BilinearFormIntegrator *) new DGElasticityIntegrator(Q2, Q, sigma, kappa) : q == 2 ? new DGDiffusionIntegrator(MQ, sigma, kappa) : new DGDiffusionIntegrator(Q, sigma, kappa);
                  I2->SetIntRule(ir); b.AddInteriorFaceIntegrator(I2); b.Assemble(); b.Finalize(); b.Mult(xk, yk);
               }
               for (int i = 0; i < yk.Size(); i++) gy(oT[k] + i) += yk(i);
            }
            if (op == "lf" || op == "temam") G->InterfaceAddMult(gx, gy);
            else
            {
               if (nonlin) G->InterfaceGetGradient(gx, A); else if (G) G->AssembleInterfaceMatrices(A); else H->AssembleInterfaceMatrices(A);
               for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++)
               { A(i, j)->Finalize(); Vector xj = sub(nonlin ? gv : gx, oR[j], R[j]->GetVSize()), yi(T[i]->GetVSize()); A(i, j)->Mult(xj, yi); for (int a = 0; a < yi.Size(); a++) gy(oT[i] + a) += yi(a); }
            }
            for (int e = 0; e < ne; e++) { int k = subOf(e); T[k]->GetElementVDofs(e - off[k], vd); Y[e].SetSize(vd.Size()); for (int i = 0; i < vd.Size(); i++) Y[e](i) = gy(oT[k] + vd[i]); }
            double m = 1e-9; for (auto &f : faces) m = std::max(m, std::max(amax(f.y[0]), amax(f.y[1]))); for (auto &y : Y) m = std::max(m, amax(y));
            double scale = 1; while (scale * m < 1 << 20) scale *= 2; while (scale * m > 1 << 21) scale /= 2;
            vector<string> jf, jy; for (auto &f : faces) jf.push_back("{\"e\":" + jint({f.e[0] + 1, f.e[1] + 1}) + ",\"y\":" + jarr({sc(f.y[0], scale), sc(f.y[1], scale)}) + "}");
            for (auto &y : Y) jy.push_back(sc(y, scale));
            emit(Ev("Form").s("op", op).i("q", q).i("joined", njoined).i("listed", total).raw("faces", jarr(jf)).raw("y", jarr(jy)));
            for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) delete A(i, j);
            delete G; delete H;
         }
         delete dif;
         for (int k = 0; k < ns; k++) { if (T[k] != R[k]) delete T[k]; delete R[k]; }
      }
      emit(Ev("End"));
      delete th; delete c; delete pm;
   }
   return 0;
}
