#pragma once
#include "mfem.hpp"
#include <functional>
#include <cmath>
// Coefficients that jump from element to element: a smooth function times a number that depends on the element's centre.
static double grain(mfem::ElementTransformation &T)
{
   mfem::Vector c; T.Transform(mfem::Geometries.GetCenter(T.GetGeometryType()), c);
   double s = 0; for (int d = 0; d < c.Size(); d++) s += (7 - 2 * d) * c(d);
   return 1.0 + 0.4 * std::sin(s);
}
struct Material : public mfem::FunctionCoefficient
{
   bool jumps;
   Material(std::function<double(const mfem::Vector &)> f, bool j) : mfem::FunctionCoefficient(f), jumps(j) {}
   double Eval(mfem::ElementTransformation &T, const mfem::IntegrationPoint &ip) override { return mfem::FunctionCoefficient::Eval(T, ip) * (jumps ? grain(T) : 1.0); }
};
struct TensorMaterial : public mfem::MatrixFunctionCoefficient
{
   bool jumps;
   TensorMaterial(int dim, std::function<void(const mfem::Vector &, mfem::DenseMatrix &)> f, bool j) : mfem::MatrixFunctionCoefficient(dim, f), jumps(j) {}
   void Eval(mfem::DenseMatrix &K, mfem::ElementTransformation &T, const mfem::IntegrationPoint &ip) override { mfem::MatrixFunctionCoefficient::Eval(K, T, ip); if (jumps) K *= grain(T); }
};
