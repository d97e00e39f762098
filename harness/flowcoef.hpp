#pragma once
#include "mfem.hpp"
// The installed MFEM compares mesh pointers where later ones, which the flow field of advection-diffusion relies on, compare sizes.
void mfem::VectorGridFunctionCoefficient::Eval(mfem::Vector &v, mfem::ElementTransformation &T, const mfem::IntegrationPoint &ip)
{
   if (T.mesh->GetNE() != GridFunc->FESpace()->GetMesh()->GetNE()) mfem::mfem_error("a flow field on another mesh");
   GridFunc->GetVectorValue(T, ip, v);
}
void mfem::VectorGridFunctionCoefficient::Eval(mfem::DenseMatrix &m, mfem::ElementTransformation &T, const mfem::IntegrationRule &ir)
{
   VectorCoefficient::Eval(m, T, ir);
}
