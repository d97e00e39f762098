// Boundary data: what a boundary term says about prescribed values, next to what the operator says about them.
// argv: scenario file
#include "material.hpp"
#include "meshes.hpp"
#include "num.hpp"
#include "dg_linear.hpp"
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "yaml-cpp/yaml.h"
static vector<double> gc; static int gd = 1;
// polynomial data of degree gd
static void poly(const Vector &x, Vector &y, int n)
{
   y.SetSize(n);
   for (int c = 0; c < n; c++)
   {
      double v = gc[c % gc.size()];
      for (int d = 0; d < x.Size() && gd >= 1; d++) v += gc[(c * 3 + d + 1) % gc.size()] * x(d);
      for (int d = 0; d < x.Size() && gd >= 2; d++) v += 0.5 * gc[(c * 5 + d + 2) % gc.size()] * x(d) * x((d + c) % x.Size());
      y(c) = v;
   }
}
static double coef(const Vector &x) { double s = 2.0; for (int i = 0; i < x.Size(); i++) s += 0.25 * (i + 1) * x(i) + 0.125 * x(i) * x(i); return s; }
static double unit(const Vector &) { return 1.0; }
static double amax(const Vector &v) { double m = 0; for (int i = 0; i < v.Size(); i++) m = std::isfinite(v(i)) ? std::max(m, std::fabs(v(i))) : m; return m; }
static string sc(const Vector &v, double s) { vector<long> r; for (int i = 0; i < v.Size(); i++) r.push_back(fx(v(i), s)); return jint(r); }
struct Face { int e, a; Vector b, ref, Au, flux, edge, edgeref; };
int main(int, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      auto I = [&](const char *k) { return s[k].as<int>(); };
      bool simplex = s["simplex"].as<bool>(); Mesh *m;
      if (I("dim") == 2) m = grid2d(I("nx"), I("ny"), simplex, 1, I("seed") % 2, I("nb"), I("seed"), 0);
      else
      {
         m = new Mesh(Mesh::MakeCartesian3D(I("nx"), I("ny"), 1, simplex ? Element::TETRAHEDRON : Element::HEXAHEDRON, 1.5, 1., 0.75, false)); Rng r(I("seed"));
         double a = r.in(-2, 2) / 8., b = r.in(-2, 2) / 8., c = r.in(-2, 2) / 8.;
         for (int v = 0; v < m->GetNV(); v++) { double *x = m->GetVertex(v); x[0] += a * x[1] + b * x[2]; x[1] += c * x[2]; }
         for (int i = 0; i < m->GetNBE(); i++) m->SetBdrAttribute(i, 1 + r.in(0, I("nb") - 1));
         m->SetAttributes();
      }
      int dim = m->Dimension(), ne = m->GetNE(), na = m->bdr_attributes.Max(); double vol = 0; for (int e = 0; e < ne; e++) vol += m->GetElementVolume(e);
      emit(Ev("Begin").i("ne", ne).i("nbe", m->GetNBE()));
      for (size_t n = 0; n < s["ops"].size(); n++)
      {
         YAML::Node O = s["ops"][n]; string op = O["op"].as<string>(); Rng z(O["seed"].as<int>()); int o = dim == 3 && !simplex ? 1 : O["o"].as<int>();
         bool rule = O["rule"].as<bool>() || op == "temam" || (op == "dir" && (!simplex || O["q"].as<int>()));    // the integrator's own rule only where it is exact
         gd = z.in(0, o); gc.clear(); for (int i = 0; i < 7; i++) gc.push_back(z.in(-4, 4) / 2.); if (gc[0] == 0) gc[0] = 1;
         double alpha = z.in(-1, 1), kappa = z.in(1, 5);
         int vd = op == "normal" ? 1 : dim, ng = op == "stress" ? dim * dim : dim;
         L2_FECollection fec(o, dim, O["bt"].as<int>() ? BasisType::GaussLobatto : BasisType::GaussLegendre), ufec(o, dim);
         FiniteElementSpace fes(m, &fec, vd, z.flip() ? Ordering::byVDIM : Ordering::byNODES), ufes(m, &ufec, dim);
         VectorFunctionCoefficient g(ng, [ng](const Vector &x, Vector &y) { poly(x, y, ng); }); bool jumps = op == "dir" && z.flip(); Material mu(O["q"].as<int>() ? coef : unit, jumps), *Z = O["q"].as<int>() ? &mu : NULL;
         GridFunction u(op == "normal" ? &ufes : &fes); if (op != "stress") u.ProjectCoefficient(g);
         const IntegrationRule &ir = IntRules.Get(dim == 2 ? Geometry::SEGMENT : simplex ? Geometry::TRIANGLE : Geometry::SQUARE, 3 * o + 4);
         auto make = [&]() -> LinearFormIntegrator *
         {
            LinearFormIntegrator *L = op == "dir" ? (LinearFormIntegrator *) new DGVectorDirichletLFIntegrator(g, mu, alpha, kappa) : op == "normal" ? (LinearFormIntegrator *) new DGBoundaryNormalLFIntegrator(g)
               : op == "stress" ? (LinearFormIntegrator *) new BoundaryNormalStressLFIntegrator(g) : (LinearFormIntegrator *) new DGBdrTemamLFIntegrator(g, Z);
            if (rule) L->SetIntRule(&ir); return L;
         };
         LinearFormIntegrator *L = make();
         DGVectorDiffusionIntegrator A(mu, alpha, kappa); A.SetIntRule(&ir); DGNormalFluxIntegrator B; if (rule) B.SetIntRule(&ir);
         vector<Face> F; double top = 1e-9;
         for (int bf = 0; bf < m->GetNBE(); bf++)
         {
            FaceElementTransformations *T = m->GetBdrFaceTransformations(bf); if (!T) continue;
            Face f; f.e = T->Elem1No + 1; f.a = m->GetBdrAttribute(bf);
            const FiniteElement &el = *fes.GetFE(T->Elem1No); int nd = el.GetDof();
            L->AssembleRHSElementVect(el, *T, f.b);
            // what the data mean, term by term
            f.ref.SetSize(vd * nd); f.ref = 0.0; f.flux.SetSize(0); f.Au.SetSize(0);
            Array<int> dofs; Vector uu; (op == "normal" ? ufes : fes).GetElementVDofs(T->Elem1No, dofs); u.GetSubVector(dofs, uu);
            if (op == "dir") { f.flux.SetSize(vd * nd); f.flux = 0.0; }
            for (int p = 0; p < ir.GetNPoints(); p++)
            {
               const IntegrationPoint &ip = ir.IntPoint(p); T->SetAllIntPoints(&ip); const IntegrationPoint &eip = T->GetElement1IntPoint();
               Vector nor(dim), x(dim), gv, N(nd); CalcOrtho(T->Jacobian(), nor); T->Elem1->SetIntPoint(&eip); T->Elem1->Transform(eip, x); poly(x, gv, ng); el.CalcShape(eip, N); double w = ip.weight, mv = (O["q"].as<int>() ? coef(x) : 1.0) * (jumps ? grain(*T->Elem1) : 1.0);
               if (op == "normal") { double t = 0; for (int d = 0; d < dim; d++) t += gv(d) * nor(d); for (int i = 0; i < nd; i++) f.ref(i) += w * t * N(i); }
               else if (op == "stress") for (int d = 0; d < dim; d++) { double t = 0; for (int e = 0; e < dim; e++) t += gv(d + e * dim) * nor(e); for (int i = 0; i < nd; i++) f.ref(d * nd + i) += w * t * N(i); }
               else if (op == "temam") { double t = 0; for (int d = 0; d < dim; d++) t += gv(d) * nor(d); for (int d = 0; d < dim; d++) for (int i = 0; i < nd; i++) f.ref(d * nd + i) += w * mv * t * gv(d) * N(i); }
               else
               {
                  DenseMatrix dN(nd, dim); el.CalcPhysDShape(*T->Elem1, dN); double h = 0; for (int d = 0; d < dim; d++) h += nor(d) * nor(d); h /= T->Elem1->Weight();      // the weight over the local size
                  for (int d = 0; d < dim; d++)
                  {
                     double dn = 0; for (int i = 0; i < nd; i++) for (int e = 0; e < dim; e++) dn += dN(i, e) * nor(e) * uu(d * nd + i);
                     for (int i = 0; i < nd; i++)
                     {
                        double t = 0; for (int e = 0; e < dim; e++) t += dN(i, e) * nor(e);
                        f.ref(d * nd + i) += w * mv * gv(d) * (alpha * t + kappa * h * N(i)); f.flux(d * nd + i) -= w * mv * dn * N(i);
                     }
                  }
               }
            }
            if (op == "dir") { DenseMatrix M; A.AssembleFaceMatrix(el, el, *T, M); f.Au.SetSize(M.Height()); M.Mult(uu, f.Au); }
            if (op == "normal") { DenseMatrix M; const FiniteElement &ue = *ufes.GetFE(T->Elem1No); B.AssembleFaceMatrix(ue, ue, el, el, *T, M); f.Au.SetSize(M.Height()); M.Mult(uu, f.Au); f.flux = f.Au; f.flux = 0.0; }
            if (op != "dir")
            {  // the same on the boundary element itself
               H1_FECollection hf(o + (o == 0), dim); FiniteElementSpace hs(m, &hf); const FiniteElement *be = hs.GetBE(bf); ElementTransformation *BT = m->GetBdrElementTransformation(bf); int bd = be->GetDof();
               LinearFormIntegrator *L2 = make(); L2->AssembleRHSElementVect(*be, *BT, f.edge); delete L2; f.edgeref.SetSize(vd * bd); f.edgeref = 0.0;
               for (int p = 0; p < ir.GetNPoints(); p++)
               {
                  const IntegrationPoint &ip = ir.IntPoint(p); BT->SetIntPoint(&ip); Vector nor(dim), x(dim), gv, N(bd); CalcOrtho(BT->Jacobian(), nor); BT->Transform(ip, x); poly(x, gv, ng); be->CalcShape(ip, N); double w = ip.weight, mv = O["q"].as<int>() ? coef(x) : 1.0, t = 0;
                  for (int d = 0; d < dim; d++) t += gv(d) * nor(d);
                  for (int d = 0; d < vd; d++)
                  {
                     double q = t; if (op == "stress") { q = 0; for (int e = 0; e < dim; e++) q += gv(d + e * dim) * nor(e); } if (op == "temam") q = mv * t * gv(d);
                     for (int i = 0; i < bd; i++) f.edgeref(d * bd + i) += w * q * N(i);
                  }
               }
            }
            for (Vector *v : {&f.b, &f.ref, &f.Au, &f.flux, &f.edge, &f.edgeref}) top = std::max(top, amax(*v));
            F.push_back(f);
         }
         // the assembled form, on the marked part of the boundary
         Array<int> mark(na); vector<long> ml; for (int i = 0; i < na; i++) { mark[i] = z.flip(); if (mark[i]) ml.push_back(i + 1); }
         LinearForm lf(&fes); lf.AddBdrFaceIntegrator(make(), mark); lf.Assemble();
         double scale = 1; while (scale * top < 1 << 20) scale *= 2; while (scale * top > 1 << 21) scale /= 2;
         vector<string> jf, jy; for (auto &f : F) jf.push_back("{\"e\":" + to_string(f.e) + ",\"a\":" + to_string(f.a) + ",\"b\":" + sc(f.b, scale) + ",\"ref\":" + sc(f.ref, scale) + ",\"au\":" + sc(f.Au, scale) + ",\"flux\":" + sc(f.flux, scale) + ",\"edge\":" + sc(f.edge, scale) + ",\"edgeref\":" + sc(f.edgeref, scale) + "}");
         for (int e = 0; e < ne; e++) { Array<int> dofs; Vector v; fes.GetElementVDofs(e, dofs); lf.GetSubVector(dofs, v); jy.push_back(sc(v, scale)); }
         emit(Ev("Data").s("op", op).raw("m", jint(ml)).raw("faces", jarr(jf)).raw("y", jarr(jy)));
         delete L;
         if (op == "normal")
         {  // the data leave through the boundary what they produce inside: constant divergence only
            int od = gd; gd = std::min(gd, 1); double div = 0; if (gd) for (int c = 0; c < dim; c++) div += gc[(c * 3 + c + 1) % gc.size()];
            DGBoundaryNormalLFIntegrator *N = new DGBoundaryNormalLFIntegrator(g); if (rule || o == 0) N->SetIntRule(&ir);
            LinearForm w(&fes); w.AddBdrFaceIntegrator(N); w.Assemble(); double big = std::max(1.0, amax(w)), t = std::fabs(div * vol); double s2 = (1 << 18) / std::max(big, t);
            emit(Ev("Gauss").i("out", fx(w.Sum(), s2)).i("made", fx(div * vol, s2)).i("n", w.Size())); gd = od;
         }
      }
      emit(Ev("End"));
      delete m;
   }
   return 0;
}
