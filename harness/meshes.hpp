// Small random meshes for the drivers.
#ifndef VERIF_MESHES_HPP
#define VERIF_MESHES_HPP
#include "mfem.hpp"
#include "trace.hpp"
#include <map>
#include <set>
using namespace mfem;
using namespace std;
using namespace vt;

// An nx x ny grid, labelled 1..K (all labels used), distorted, with nb boundary attributes.
inline Mesh *grid2d(int nx, int ny, bool tri, int k, int style, int nb, int seed, int curv)
{
   Rng r(seed * 31 + 5);
   Mesh *m = new Mesh(Mesh::MakeCartesian2D(nx, ny, tri ? Element::TRIANGLE : Element::QUADRILATERAL, true, nx, ny, false));
   const int ne = m->GetNE();
   vector<int> lab(ne);
   for (int e = 0; e < ne; e++)
   {
      Vector c; m->GetElementCenter(e, c);
      switch (style)
      {
         case 0: lab[e] = r.in(1, k); break;                          // anything
         case 1: lab[e] = 1 + (int) (c(0) * k / nx) % k; break;         // strips
         case 2: lab[e] = 1 + ((int) c(0) + 2 * (int) c(1)) % k; break; // patches
         default: lab[e] = 1 + (e * k) / ne;                           // blocks in order
      }
   }
   set<int> used(lab.begin(), lab.end());
   map<int, int> rank; int q = 1;
   for (int x : used) rank[x] = q++;
   for (int e = 0; e < ne; e++) m->SetAttribute(e, rank[lab[e]]);
   for (int b = 0; b < m->GetNBE(); b++) m->SetBdrAttribute(b, 1 + (style == 0 ? r.in(0, nb - 1) : b % nb));
   for (int v = 0; v < m->GetNV(); v++)
   {
      double *x = m->GetVertex(v);
      x[0] += r.in(-2, 2) / 16.0; x[1] += r.in(-2, 2) / 16.0;
   }
   m->SetAttributes();
   if (curv) m->SetCurvature(curv, r.flip());
   return m;
}
// vertex ids of a mesh by its coordinates in a reference mesh
struct VertexIds
{
   map<vector<double>, int> id; int dim;
   VertexIds(Mesh &m) : dim(m.Dimension()) { for (int v = 0; v < m.GetNV(); v++) id[key(m.GetVertex(v))] = v; }
   vector<double> key(const double *x) { return vector<double>(x, x + dim); }
   long operator()(const double *x) { auto it = id.find(key(x)); return it == id.end() ? -1 : it->second; }
   vector<long> operator()(Mesh &m, const Array<int> &v) { vector<long> r; for (int i = 0; i < v.Size(); i++) r.push_back((*this)(m.GetVertex(v[i]))); return r; }
};
#endif
