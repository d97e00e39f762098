// Mixed bilinear forms with terms on faces.   argv: scenario file
#include "meshes.hpp"
#include "dg_mixed_bilin.hpp"
#include "yaml-cpp/yaml.h"
static int val(int k, int e1, int e2, int i, int j) { return ((k * 5 + e1 * 3 + e2 * 7 + i * 2 + j * 11) % 13) - 6; }
struct DomTerm : public BilinearFormIntegrator
{
   int k, v1, v2; DomTerm(int k_, int a, int b) : k(k_), v1(a), v2(b) {}
   void AssembleElementMatrix2(const FiniteElement &tr, const FiniteElement &te, ElementTransformation &T, DenseMatrix &m) override
   { m.SetSize(te.GetDof() * v2, tr.GetDof() * v1); int e = T.ElementNo + 1; for (int i = 0; i < m.Height(); i++) for (int j = 0; j < m.Width(); j++) m(i, j) = val(k, e, e, i + 1, j + 1); }
};
struct FaceTerm : public MixedBilinearFormFaceIntegrator
{
   int k, v1, v2; FaceTerm(int k_, int a, int b) : k(k_), v1(a), v2(b) {}
   void AssembleFaceMatrix(const FiniteElement &tr1, const FiniteElement &tr2, const FiniteElement &te1, const FiniteElement &te2, FaceElementTransformations &T, DenseMatrix &m) override
   {
      bool two = T.Elem2No >= 0; int e1 = T.Elem1No + 1, e2 = two ? T.Elem2No + 1 : 0;
      m.SetSize(v2 * (te1.GetDof() + (two ? te2.GetDof() : 0)), v1 * (tr1.GetDof() + (two ? tr2.GetDof() : 0)));
      for (int i = 0; i < m.Height(); i++) for (int j = 0; j < m.Width(); j++) m(i, j) = val(k, e1, e2, i + 1, j + 1);
   }
   using MixedBilinearFormFaceIntegrator::AssembleFaceMatrix;
};
static string maps(FiniteElementSpace &f)
{
   vector<string> r; Array<int> v;
   for (int e = 0; e < f.GetNE(); e++) { f.GetElementVDofs(e, v); vector<long> w; for (int i = 0; i < v.Size(); i++) w.push_back(v[i] + 1); r.push_back(jint(w)); }
   return jarr(r);
}
int main(int, char **argv)
{
   ifstream in(argv[1]); string line;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      auto I = [&](const char *k) { return s[k].as<int>(); };
      Mesh *m;
      if (I("dim") == 2) m = grid2d(I("nx"), I("ny"), s["simplex"].as<bool>(), 1, I("seed") % 2, I("nb"), I("seed"), 0);
      else
      {
         m = new Mesh(Mesh::MakeCartesian3D(I("nx"), I("ny"), 1, Element::HEXAHEDRON, 1., 1., 1., false)); Rng r(I("seed"));
         for (int b = 0; b < m->GetNBE(); b++) m->SetBdrAttribute(b, 1 + r.in(0, I("nb") - 1));
         m->SetAttributes();
      }
      int dim = m->Dimension(), v1 = I("v1"), v2 = I("v2"), nattr = m->bdr_attributes.Max();
      L2_FECollection c1(I("o1"), dim), c2(I("o2"), dim);
      FiniteElementSpace trial(m, &c1, v1, s["b1"].as<bool>() ? Ordering::byVDIM : Ordering::byNODES), test(m, &c2, v2, s["b2"].as<bool>() ? Ordering::byVDIM : Ordering::byNODES);
      vector<string> fi, fb;
      for (int f = 0; f < m->GetNumFaces(); f++) { auto *t = m->GetInteriorFaceTransformations(f); if (t) fi.push_back(jint({t->Elem1No + 1, t->Elem2No + 1})); }
      for (int b = 0; b < m->GetNBE(); b++) { auto *t = m->GetBdrFaceTransformations(b); if (t) fb.push_back("{\"e\":" + to_string(t->Elem1No + 1) + ",\"a\":" + to_string(m->GetBdrAttribute(b)) + "}"); }
      emit(Ev("Begin").raw("mesh", "{\"ne\":" + to_string(m->GetNE()) + ",\"fi\":" + jarr(fi) + ",\"fb\":" + jarr(fb) + ",\"trial\":" + maps(trial) + ",\"test\":" + maps(test) + "}"));
      vector<MixedBilinearFormDGExtension *> F; vector<Array<int> *> marks;
      F.push_back(new MixedBilinearFormDGExtension(&trial, &test));
      for (size_t n = 0; n < s["ops"].size(); n++)
      {
         YAML::Node O = s["ops"][n]; string op = O["op"].as<string>(); int f = O["f"].as<int>() - 1, k = O["k"].as<int>();
         if (op == "new") { F.push_back(new MixedBilinearFormDGExtension(&trial, &test)); emit(Ev("New")); continue; }
         if (op == "copy") { F.push_back(new MixedBilinearFormDGExtension(&trial, &test, F[f])); emit(Ev("Copy").i("f", f + 1)); continue; }
         Ev e("Add"); e.s("op", op).i("f", f + 1).i("k", k);
         if (op == "dom") F[f]->AddDomainIntegrator(new DomTerm(k, v1, v2));
         else if (op == "int") F[f]->AddInteriorFaceIntegrator(new FaceTerm(k, v1, v2));
         else if (op == "bdr") F[f]->AddBdrFaceIntegrator(new FaceTerm(k, v1, v2));
         else
         {
            Array<int> *a = new Array<int>(nattr); vector<long> w; marks.push_back(a);
            for (int i = 0; i < nattr; i++) { (*a)[i] = O["m"][i].as<int>(); if ((*a)[i]) w.push_back(i + 1); }
            F[f]->AddBdrFaceIntegrator(new FaceTerm(k, v1, v2), *a); e.raw("m", jint(w));
         }
         emit(e);
      }
      for (size_t f = 0; f < F.size(); f++)
      {
         vector<string> mk; for (auto *p : *F[f]->GetBFBFI_Marker()) mk.push_back(p ? "true" : "false");
         emit(Ev("Has").i("f", f + 1).i("ni", F[f]->GetFBFI()->Size()).i("nb", F[f]->GetBFBFI()->Size()).raw("marked", jarr(mk)));
      }
      for (int f = F.size() - 1; f >= 0; f--)
      {
         F[f]->Assemble((I("seed") + f) % 2); F[f]->Finalize((I("seed") / 2) % 2); DenseMatrix D; F[f]->SpMat().ToDenseMatrix(D);
         vector<string> rows; for (int i = 0; i < D.Height(); i++) { vector<long> w; for (int j = 0; j < D.Width(); j++) w.push_back(fx(D(i, j), 1)); rows.push_back(jint(w)); }
         emit(Ev("Assemble").i("f", f + 1).raw("mat", jarr(rows)));
      }
      for (int f = F.size() - 1; f >= 0; f--) delete F[f];      // a copy leaves the shared terms alone
      for (auto *a : marks) delete a;
      emit(Ev("End"));
      delete m;
   }
   return 0;
}
