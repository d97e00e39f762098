// Problems with polynomial solutions for the solvers, on box meshes and component assemblies.
#ifndef VERIF_POLYPROB_HPP
#define VERIF_POLYPROB_HPP
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "stokes_solver.hpp"
#include "steady_ns_solver.hpp"
#include "advdiff_solver.hpp"
#include "num.hpp"
#include "comp.hpp"
#include <memory>

typedef vector<pair<double, vector<int>>> Poly;
static double unit = 1.0;                       // everything is scaled by this (a power of two)
static double eval(const Poly &p, const Vector &x)
{
   double r = 0.0;
   for (auto &t : p) { double a = t.first; for (int d = 0; d < x.Size(); d++) for (int k = 0; k < t.second[d]; k++) a *= x(d); r += a; }
   return r * unit;
}
static Poly poly(const YAML::Node &n)
{ Poly p; for (auto t : n) p.push_back({t["c"].as<double>(), t["e"].as<vector<int>>()}); return p; }
typedef vector<Poly> Field;
static Field field(const YAML::Node &n) { Field f; for (auto c : n) f.push_back(poly(c)); return f; }
static Field U_, Q_, W_, SRC, BC[8]; static int dim; static double shift, LAM, MU;
static void vec(const Field &f, const Vector &x, Vector &y) { y.SetSize(f.size()); for (size_t i = 0; i < f.size(); i++) y(i) = eval(f[i], x); }
// what is prescribed on a side: its data, turned into an incompatible one when asked for
static void bcv(int l, const Vector &x, Vector &y)
{
   vec(BC[l], x, y);
   if (shift == 0.0) return;
   for (int d = 0; d < dim; d++) y(d) += unit * shift * x(d);
   Vector f; function_factory::flow_problem::flux(x, f); y -= f;
}
template<int l> double bcS(const Vector &x, double) { return eval(BC[l][0], x); }
template<int l> void bcV(const Vector &x, double, Vector &y) { bcv(l, x, y); }
static function_factory::GeneralScalarFunction *SF[] = {NULL, bcS<1>, bcS<2>, bcS<3>, bcS<4>, bcS<5>, bcS<6>, bcS<7>};
static function_factory::GeneralVectorFunction *VF[] = {NULL, bcV<1>, bcV<2>, bcV<3>, bcV<4>, bcV<5>, bcV<6>, bcV<7>};
static double srcS(const Vector &x, double) { return eval(SRC[0], x); }
static void srcV(const Vector &x, double, Vector &y) { vec(SRC, x, y); }
static double lamS(const Vector &, double) { return LAM; }
static double muS(const Vector &, double) { return MU; }
static double WF = 1.0;      // scales the flow
static void flowV(const Vector &x, double, Vector &y) { vec(W_, x, y); y *= WF; }

static string pde;
static bool flowp() { return pde == "stokes" || pde == "ns"; }
static vector<int> LEN;
static vector<string> TYPES;
static BoundaryType type(int l) { return TYPES[l] == "dirichlet" ? BoundaryType::DIRICHLET : TYPES[l] == "zero" ? BoundaryType::ZERO : BoundaryType::NEUMANN; }

struct Problem : public PoissonProblem
{
   Problem(Rng &r, const vector<int> &labels, bool scalar)
   {
      vector<int> o;
      battr.SetSize(0); bdr_type.SetSize(0); scalar_bdr_ptr.SetSize(0); vector_bdr_ptr.SetSize(0); general_scalar_ptr.SetSize(0); general_vector_ptr.SetSize(0);
      for (int k : shuffled(r, labels.size())) o.push_back(labels[k]);
      if (r.flip()) o.insert(o.begin() + r.in(0, o.size()), 20);        // a label no mesh has
      for (int l : o)
      {
         BoundaryType t = l == 20 ? BoundaryType::ZERO : type(l);
         battr.Append(l); bdr_type.Append(t);
         bool fn = l != 20 && (t == BoundaryType::DIRICHLET || (pde == "linelast" && t == BoundaryType::NEUMANN));
         scalar_bdr_ptr.Append(fn && scalar ? SF[l] : NULL);
         vector_bdr_ptr.Append(fn && !scalar ? VF[l] : NULL);
      }
      if (scalar) scalar_rhs_ptr = srcS; else vector_rhs_ptr = srcV;
      general_scalar_ptr.Append(lamS); general_scalar_ptr.Append(muS);
      general_vector_ptr.Append(NULL);
   }
};
static double decoyS(const Vector &x, double) { return (5.0 + x(0)) * unit; }
static void decoyV(const Vector &x, double, Vector &y) { y.SetSize(x.Size()); y = 3.0 * unit; y(0) += unit * x(x.Size() - 1); }
// a problem set on the solver before the one to be solved, of which nothing may remain
struct Decoy : public PoissonProblem
{
   Decoy(const vector<int> &labels, bool scalar)
   {
      battr.SetSize(0); bdr_type.SetSize(0); scalar_bdr_ptr.SetSize(0); vector_bdr_ptr.SetSize(0);
      int open = 0; if (flowp() && config.GetOption<bool>("discretization/full-discrete-galerkin", false)) for (int l : labels) if (TYPES[l] == "neumann") open = l;      // closed flows are not for every discretization
      for (int l : labels) { battr.Append(l); bdr_type.Append(l == open ? BoundaryType::NEUMANN : BoundaryType::DIRICHLET); scalar_bdr_ptr.Append(scalar && l != open ? decoyS : NULL); vector_bdr_ptr.Append(scalar || l == open ? NULL : decoyV); }
      if (scalar) scalar_rhs_ptr = decoyS; else vector_rhs_ptr = decoyV;
   }
};
struct Flow : public FlowProblem
{
   Flow(const vector<int> &labels) { battr.SetSize(0); bdr_type.SetSize(0); vector_bdr_ptr.SetSize(0); for (int l : labels) { battr.Append(l); bdr_type.Append(BoundaryType::DIRICHLET); vector_bdr_ptr.Append(flowV); } }
};

static Mesh *rect(Rng &r, const YAML::Node &c)
{
   int n[3] = {c["nx"].as<int>(), c["ny"].as<int>(), c["nz"].as<int>()};
   bool tri = c["simplex"].as<bool>();
   Mesh *m = new Mesh(dim == 2 ? Mesh::MakeCartesian2D(n[0], n[1], tri ? Element::TRIANGLE : Element::QUADRILATERAL, true, n[0], n[1], r.flip())
                               : Mesh::MakeCartesian3D(n[0], n[1], n[2], tri ? Element::TETRAHEDRON : Element::HEXAHEDRON, n[0], n[1], n[2], r.flip()));
   LEN.assign(n, n + dim);
   auto at = c["attr"].as<vector<int>>();
   for (int b = 0; b < m->GetNBE(); b++)
   {
      Array<int> v; m->GetBdrElementVertices(b, v);
      for (int s = 0; s < 2 * dim; s++)
      {
         bool all = true;
         for (int i = 0; i < v.Size(); i++) all = all && fabs(m->GetVertex(v[i])[s / 2] - (s % 2 ? n[s / 2] : 0)) < 1e-9;
         if (all) m->SetBdrAttribute(b, at[s]);
      }
   }
   int ne = m->GetNE(), k = min(c["ns"].as<int>(), ne), style = c["style"].as<int>();
   vector<int> lab(ne); map<int, int> rank;
   for (int e = 0; e < ne; e++)
   {
      Vector x; m->GetElementCenter(e, x);
      lab[e] = style == 0 ? r.in(1, k) : style == 1 ? 1 + (int) (x(0) * k / n[0]) % k : style == 2 ? 1 + ((int) x(0) + 2 * (int) x(1)) % k : 1 + e * k / ne;
      rank[lab[e]];
   }
   int q = 1; for (auto &x : rank) x.second = q++;
   for (int e = 0; e < ne; e++) m->SetAttribute(e, rank[lab[e]]);
   if (c["dist"].as<bool>())
      for (int v = 0; v < m->GetNV(); v++)
      {
         double *x = m->GetVertex(v); bool in = true;
         for (int d = 0; d < dim; d++) in = in && x[d] > 0.01 && x[d] < n[d] - 0.01;
         if (in) for (int d = 0; d < dim; d++) x[d] += r.in(-5, 5) / 32.0;
      }
   m->SetAttributes();
   if (c["curv"].as<int>()) m->SetCurvature(c["curv"].as<int>(), r.flip());
   return m;
}
// global side (2*axis + high) of a side of a placed component, or -1 inside
static int globalSide(const CompScenario &c, int m, int s)
{
   double x[3] = {c.size / 2, c.size / 2, c.size / 2};
   x[s / 2] = s % 2 ? c.size : 0.0;
   if (dim == 2) rot2(c.place[m].q, x[0], x[1]);
   for (int d = 0; d < dim; d++)
   {
      double y = x[d] + c.place[m].t[d];
      if (fabs(y) < 1e-6) return 2 * d;
      if (fabs(y - LEN[d]) < 1e-6) return 2 * d + 1;
   }
   return -1;
}

static unique_ptr<MultiBlockSolver> sol;
static int NV, NS;
static int vdimOf(int v) { return pde == "poisson" || pde == "advdiff" || v == 1 ? 1 : dim; }
static const double W = 32.0, W2 = W * W;
// some element corners of a subdomain with the values of a function there
static string sample(Rng &r, GridFunction *g, Mesh *mesh, int n = 5)
{
   vector<string> out;
   for (int k = 0; k < n; k++)
   {
      int e = r.in(0, mesh->GetNE() - 1);
      const IntegrationRule *ir = Geometries.GetVertices(mesh->GetElementBaseGeometry(e));
      const IntegrationPoint &ip = ir->IntPoint(r.in(0, ir->GetNPoints() - 1));
      ElementTransformation *T = mesh->GetElementTransformation(e);
      T->SetIntPoint(&ip);
      Vector x(dim), y; T->Transform(ip, x);
      if (e >= g->FESpace()->GetNE()) { y.SetSize(1); y(0) = 1e30; }     // a field of another mesh
      else if (g->VectorDim() > 1) g->GetVectorValue(*T, ip, y); else { y.SetSize(1); y(0) = g->GetValue(*T, ip); }
      vector<long> X, Y;
      for (int d = 0; d < dim; d++) X.push_back(iv(x(d) * W));
      for (int d = 0; d < y.Size(); d++) Y.push_back(iv(y(d) * W2 / unit, 0.03));
      out.push_back("[" + jint(X) + "," + jint(Y) + "]");
   }
   return jarr(out);
}
static string points(Rng &r)
{
   vector<string> out;
   for (int m = 0; m < NS; m++) for (int v = 0; v < NV; v++) out.push_back(sample(r, sol->GetGridFunction(m * NV + v), sol->GetMesh(m)));
   return jarr(out);
}
#endif
