// Both sides of the interface faces as the topology handler prepares them.
#ifndef VERIF_FACES_HPP
#define VERIF_FACES_HPP
#include "topology_handler.hpp"
#include "meshes.hpp"
inline void emitFaces(TopologyHandler &th, Mesh *m1, Mesh *m2, Array<InterfaceInfo> *ii)
{
   const int dim = m1->Dimension(); const double sc = 65536.0;
   for (int i = 0; i < ii->Size(); i++)
   {
      FaceElementTransformations *t1 = NULL, *t2 = NULL;
      th.GetInterfaceTransformations(m1, m2, &(*ii)[i], t1, t2);
      Geometry::Type g = m1->GetFaceGeometry(m1->GetBdrFace((*ii)[i].BE1));
      vector<string> x0, x1, x2, n1, n2, be1, be2;
      auto add = [&](const IntegrationPoint &ip)
      {
         t1->SetAllIntPoints(&ip); t2->SetAllIntPoints(&ip);
         Vector p(dim), nor(dim); vector<long> v;
         t1->Transform(ip, p); v.clear(); for (int d = 0; d < dim; d++) v.push_back(fx(p(d), sc)); x0.push_back(jint(v)); v.clear();
         t1->Elem1->Transform(t1->GetElement1IntPoint(), p); v.clear(); for (int d = 0; d < dim; d++) v.push_back(fx(p(d), sc)); x1.push_back(jint(v));
         t2->Elem1->Transform(t2->GetElement1IntPoint(), p); v.clear(); for (int d = 0; d < dim; d++) v.push_back(fx(p(d), sc)); x2.push_back(jint(v));
         CalcOrtho(t1->Jacobian(), nor); v.clear(); for (int d = 0; d < dim; d++) v.push_back(fx(nor(d), sc)); n1.push_back(jint(v));
         CalcOrtho(t2->Jacobian(), nor); v.clear(); for (int d = 0; d < dim; d++) v.push_back(fx(nor(d), sc)); n2.push_back(jint(v));
      };
      const IntegrationRule *vx = Geometries.GetVertices(g);
      for (int k = 0; k < vx->GetNPoints(); k++) add(vx->IntPoint(k));
      const IntegrationRule &ir = IntRules.Get(g, 3);
      for (int k = 0; k < ir.GetNPoints(); k++) add(ir.IntPoint(k));
      for (int side = 0; side < 2; side++)
      {
         ElementTransformation *T = side ? m2->GetBdrElementTransformation((*ii)[i].BE2) : m1->GetBdrElementTransformation((*ii)[i].BE1);
         for (int k = 0; k < vx->GetNPoints(); k++)
         { Vector p(dim); T->Transform(vx->IntPoint(k), p); vector<long> v; for (int d = 0; d < dim; d++) v.push_back(fx(p(d), sc)); (side ? be2 : be1).push_back(jint(v)); }
      }
      // centre of the element on side 1, for the direction of the normal
      Vector ce; m1->GetElementCenter(t1->Elem1No, ce); vector<long> cc; for (int d = 0; d < dim; d++) cc.push_back(fx(ce(d), 64));
      emit(Ev("Face").i("nv", vx->GetNPoints()).i("e1", t1->Elem1No).i("e2", t2->Elem1No).raw("x0", jarr(x0)).raw("x1", jarr(x1)).raw("x2", jarr(x2)).raw("n1", jarr(n1)).raw("n2", jarr(n2))
           .raw("be1", jarr(be1)).raw("be2", jarr(be2)).ai("c", cc));
   }
}
#endif
