From ac23ef10b762882a4d805ed38306c0caf4625865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:36 +0000
Subject: [PATCH 01/45] fix: looking up a missing option no longer rewrites the
 list it is looked up in

Non-const operator[] of yaml-cpp turns a list into a map when it is asked for a
key it does not have, so that GetOption("a/b", fallback) destroyed a list "a".
---
 src/input_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 17a57f7..ff39e5d 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -58,12 +58,14 @@ YAML::Node InputParser::FindNodeFromDict(const std::string &keys, YAML::Node inp
    int dd = 0;
    for (std::string s; std::getline(key_iterator, s, '/'); )
    {
-      if (!(nodes.back()[s]))
+      // Non-const access to a missing key alters the parent (a list would become a map).
+      const YAML::Node parent = nodes.back();
+      if (!(parent[s]))
       {
          if (create)
             nodes.back()[s] = YAML::Node();
          else
-            return nodes.back()[s];
+            return YAML::Node(YAML::NodeType::Undefined);
       }
 
       nodes.push_back(nodes.back()[s]);
-- 
2.43.0


From 65bbeb489cd3b7289726b80f82b7c663d5a23613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 02/45] fix: close the configuration file when it holds no
 boundary data

---
 src/component_topology_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..86caee4 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
-- 
2.43.0


From 7a7b89cd8988a832d4211d3966b18a4131e8a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:28 +0000
Subject: [PATCH 03/45] fix: close the group of a port that is already set up
 when reading a port file

---
 src/component_topology_handler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 86caee4..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -459,7 +459,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From 14a71d72c052dd6532f9182186a8072584755ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:19 +0000
Subject: [PATCH 04/45] fix: contract a tensor with every entry of the vector
 in TensorAddMultOnJ

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..be29674 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -658,7 +658,7 @@ void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M
       {
          dx = x.HostRead();
          tdata = tensor.GetData(k) + i;
-         for (int j = 0; j < tensor.SizeJ(); j++)
+         for (int j = 0; j < tensor.SizeJ(); j++, dx++)
          {
             (*dM) += (*tdata) * (*dx);
             tdata += stride;
-- 
2.43.0


From 9a3c1afdadd0d01a43a2e4202240d7a1afa7f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 05/45] fix: a block smoother works with the operator it was
 given last

SetOperator replaced the operator but kept the inverses of the diagonal
blocks, the number of blocks and the offsets of the former operator (or
none at all after default construction, so that Mult did nothing).
---
 src/block_smoother.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..bf810ae 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -48,6 +48,21 @@ void BlockSmoother::SetOperator(const Operator &a)
    }
    height = oper->Height();
    width = oper->Width();
+
+   num_row_blocks = oper->NumRowBlocks();
+   num_col_blocks = oper->NumColBlocks();
+   assert(num_row_blocks == num_col_blocks);
+   row_offsets = oper->RowOffsets();
+   col_offsets = oper->ColOffsets();
+
+   DeletePointers(diag_inv);
+   diag_inv.SetSize(num_row_blocks);
+   diag_inv = NULL;
+   for (int b = 0; b < num_row_blocks; b++)
+   {
+      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
+      diag_inv[b]->Invert();
+   }
 }
 
 void BlockSmoother::PrintOperator()
-- 
2.43.0


From 601566c2a64f0ddfb7bbb9cd0b0cb8cd193931d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:17 +0000
Subject: [PATCH 06/45] fix: the profile report sums over the ranks and does
 not change the profile

Non-root ranks passed MPI_IN_PLACE as send buffer, which is an error on
more than one rank, and the sums were written back to the root's own
counts, so that a second report counted the other ranks twice.
---
 include/etc.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/etc.hpp b/include/etc.hpp
index 9aad33e..70cd2ea 100644
--- a/include/etc.hpp
+++ b/include/etc.hpp
@@ -58,7 +58,7 @@ public:
     TimeProfiler(const std::string &title_, MPI_Comm comm_=MPI_COMM_WORLD)
         : title(title_), comm(comm_)
     {
-        MPI_Comm_rank(MPI_COMM_WORLD, &rank);
+        MPI_Comm_rank(comm, &rank);
         calls.SetSize(0);
         names.clear();
         indices.clear();
@@ -126,8 +126,11 @@ public:
             times[k] = timers[k]->RealTime();
         double total = times.Sum();
 
-        MPI_Reduce(MPI_IN_PLACE, times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
-        MPI_Reduce(MPI_IN_PLACE, calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        Array<int> total_calls(calls);
+
+        // only the root can reduce in place.
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : times.GetData(), times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : total_calls.GetData(), total_calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
 
         if (rank == 0)
         {
@@ -139,7 +142,7 @@ public:
             printf("%20s\t%20s\t%20s\t%20s\n", "Function", "Total time", "Calls", "Time per call");
             for (int k = 0; k < nfunc; k++)
             {
-                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], calls[k], times[k] / calls[k]);
+                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], total_calls[k], times[k] / total_calls[k]);
             }
             if (compute_sum)
                 printf("%20s\t%20.5e\t%20d\t%20.5e\n", "Total time", total, 1, total);
-- 
2.43.0


From fae4307299009320e25525047111723e1f8dd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:48 +0000
Subject: [PATCH 07/45] fix: the maximum size of an integer parameter counts
 both ends of its range

The samples of a parameter at its maximum size left out one value, and a
range of a single value could not be sampled at all.
---
 include/parameter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parameter.hpp b/include/parameter.hpp
index 31f18b1..283a9d0 100644
--- a/include/parameter.hpp
+++ b/include/parameter.hpp
@@ -62,7 +62,7 @@ public:
    virtual void SetParam(const int &param_index, InputParser &parser);
    virtual void SetRandomParam(InputParser &parser);
 
-   virtual void SetMaximumSize() { SetSize(maxval - minval); }
+   virtual void SetMaximumSize() { SetSize(maxval - minval + 1); }
 };
 
 class FilenameParam : public IntegerParam
-- 
2.43.0


From 30f3399558f261f109fbad203a5bd12807c92830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:21 +0000
Subject: [PATCH 08/45] fix: the linear elasticity problems know their number
 of parameters

param_num was never set, so the number of parameters was arbitrary and
setting parameters by index could be refused.
---
 src/parameterized_problem.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..9d07253 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1047,7 +1047,8 @@ LinElastDisp::LinElastDisp()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1086,7 +1087,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1142,7 +1144,8 @@ LinElastDispLattice::LinElastDispLattice()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1199,7 +1202,8 @@ LinElastForceCantilever::LinElastForceCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_force::rforce_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1259,7 +1263,8 @@ LinElastFrameWind::LinElastFrameWind()
    param_map["density"] = 3;
    param_map["g"] = 4;
 
-   param_ptr.SetSize(5);
+   param_num = 5;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_problem::_lambda);
    param_ptr[1] = &(function_factory::linelast_problem::_mu);
    param_ptr[2] = &(function_factory::linelast_frame_wind::qwind_f);
@@ -1452,7 +1457,8 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_map["bx"] = 38;
    param_map["by"] = 39;
 
-   param_ptr.SetSize(40);
+   param_num = 40;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_cwtrain::l_ux);
    param_ptr[1] = &(function_factory::linelast_cwtrain::l_uy);
    param_ptr[2] = &(function_factory::linelast_cwtrain::r_fx);
-- 
2.43.0


From d232d254a17619b8d54a48bb5020d7e5fca08ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:21 +0000
Subject: [PATCH 09/45] fix: the unloaded boundary of the wind-loaded frame is
 attribute 5

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 9d07253..d262ed0 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1241,7 +1241,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From b68f2be399426c8fc4ae975942b974e150d32135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:11 +0000
Subject: [PATCH 10/45] fix: the driving force has as many components as the
 space

Assigning the three-component parameter vector resized the result to 3
in two dimensions.
---
 src/parameterized_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index d262ed0..c13b771 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -222,7 +222,8 @@ void force(const Vector &x, double t, Vector &y)
 {
    const int dim = x.Size();
    y.SetSize(dim);
-   y = f;
+   for (int d = 0; d < dim; d++)
+      y(d) = f(d);
 }
 
 }  // namespace periodic_flow_past_array
-- 
2.43.0


From 550876654cce95a6d32d0b28fd2e6617c856c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:02 +0000
Subject: [PATCH 11/45] fix: unselected components of the training loads are
 zero

They were left as they were, so that a load or displacement component
that was not selected took whatever value the vector held before.
---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index c13b771..0eba381 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -383,6 +383,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -391,6 +392,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -399,6 +401,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -407,6 +410,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -415,6 +419,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From 338019c546a71f1feed5950a07bfc39188f48c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 12/45] fix: reduced convection gradient writes through a stale
 view of another call's data

---
 src/hyperreduction_integ.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..35bbb35 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -514,12 +514,13 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
       gradEF.Add(x(k), *((*gradEFs)[k]));
    gradEF *= w;
 
-   ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   // not the member ELV, which may still refer to the data of another call.
+   DenseMatrix conv(dim, nbasis);
+   Mult(gradEF, *shape1, conv);
 
    for (int k = 0; k < nbasis; k++)
    {
-      ELV.GetColumnReference(k, vec2);
+      conv.GetColumnReference(k, vec2);
       (*gradEFs)[k]->AddMult(vec1, vec2, w);
    }
 
@@ -527,7 +528,7 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    for (int k = 0; k < nbasis; k++)
    {
       jac.GetColumnReference(k, jac_col);
-      ELV.GetColumnReference(k, vec2);
+      conv.GetColumnReference(k, vec2);
       shape1->AddMultTranspose(vec2, jac_col);
    }
 }
-- 
2.43.0


From cc90c2e35ac0f00cb1ea5e0b32e3b3798d9758b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 13/45] fix: convection with a prescribed velocity ignores it
 in its Jacobian and reduced forms

---
 src/hyperreduction_integ.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 35bbb35..2e90763 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      // a prescribed convecting velocity does not depend on the solution.
+      if (vQ)
+         continue;
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +441,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +457,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   // a prescribed convecting velocity does not depend on the solution.
+   if (vQ)
+      return;
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +492,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +523,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -516,7 +536,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
 
    // not the member ELV, which may still refer to the data of another call.
    DenseMatrix conv(dim, nbasis);
-   Mult(gradEF, *shape1, conv);
+   if (vQ)
+      conv = 0.0;   // a prescribed convecting velocity does not depend on the solution.
+   else
+      Mult(gradEF, *shape1, conv);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From 3e36b0f11a4571c67601871fcebccdcbfd544fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 14/45] fix: gradient of the Lax-Friedrichs flux is NaN where
 both states vanish

---
 src/interfaceinteg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..dc31675 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1379,6 +1379,10 @@ void DGLaxFriedrichsFluxIntegrator::ComputeGradFluxDotN(
    if (!ndofs2 && !u1_lg_u2)
       return;
 
+   /* the dissipation is quadratic at rest, where the magnitude has no derivative. */
+   if ((u1mag == 0.0) && (u2mag == 0.0))
+      return;
+
    // [ u ] = u1 - u2
    Vector du(u1);
    du.Add(-1.0, u2);
-- 
2.43.0


From b472fda7373931e08a9c552ffc2a14f0540fee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:18 +0000
Subject: [PATCH 15/45] fix: reduced Lax-Friedrichs face gradient uses the
 neighbour of another face

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index dc31675..0fb6ce8 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1830,7 +1830,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From ae7d1b71074c56aca15c66891c4918b0392b11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:31 +0000
Subject: [PATCH 16/45] fix: Lax-Friedrichs flux evaluates its coefficient at
 another point of a reoriented interface face

---
 src/interfaceinteg.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index 0fb6ce8..0a62403 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1459,7 +1459,7 @@ void DGLaxFriedrichsFluxIntegrator::AssembleQuadVectorBase(
    timer.Start("fomvec_interface/assemble");
 
    w = iw;
-   if (Q) { w *= Q->Eval(*Tr1, ip); }
+   if (Q) { w *= Q->Eval(*Tr1->Elem1, eip1); }
 
    AddMult_a_VWt(-w, shape1, flux, elvect1);
    if (ndofs2)
@@ -1532,7 +1532,7 @@ void DGLaxFriedrichsFluxIntegrator::AssembleQuadGradBase(
    }
 
    w = iw;
-   if (Q) { w *= Q->Eval(*Tr1, ip); }
+   if (Q) { w *= Q->Eval(*Tr1->Elem1, eip1); }
 }
 
 void DGLaxFriedrichsFluxIntegrator::AssembleFaceVector(
@@ -1777,7 +1777,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleVector_Fast(
    timer.Start("eqpvec_Fast_interior/assemble");
 
    w = qw;
-   if (Q) { w *= Q->Eval(T, ip); }
+   if (Q) { w *= Q->Eval(*T.Elem1, eip1); }
 
    assert(y.Size() == x.Size());
    shapes1->AddMultTranspose(flux, y, -w);
@@ -1834,7 +1834,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
 
    double w = qw;
    if (Q) 
-      w *= Q->Eval(T, ip);
+      w *= Q->Eval(*T.Elem1, eip1);
 
    AddwRtAP(*shapes1, gradu1, *shapes1, jac, -w);
    if (el2)
@@ -2121,7 +2121,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleVector_Fast(
    timer.Start("eqpvec_Fast_interior/assemble");
 
    w = qw;
-   if (Q) { w *= Q->Eval(Tr1, ip); }
+   if (Q) { w *= Q->Eval(*Tr1.Elem1, eip1); }
 
    assert(y1.Size() == x1.Size());
    assert(y2.Size() == x2.Size());
@@ -2180,7 +2180,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
 
    double w = qw;
    if (Q) 
-      w *= Q->Eval(Tr1, ip);
+      w *= Q->Eval(*Tr1.Elem1, eip1);
 
    timer.Stop("eqpgrad_Fast_interface/eval");
 // {
-- 
2.43.0


From 9f4132b096f12b9a346754025ca97b672c562b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:46 +0000
Subject: [PATCH 17/45] fix: vector diffusion forms built without a coefficient
 dereference NULL

---
 src/dg_bilinear.cpp    | 4 ++--
 src/interfaceinteg.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_bilinear.cpp b/src/dg_bilinear.cpp
index cc432e9..da6de47 100644
--- a/src/dg_bilinear.cpp
+++ b/src/dg_bilinear.cpp
@@ -111,7 +111,7 @@ void DGVectorDiffusionIntegrator::AssembleFaceMatrix(
          w = ip.weight/2;
          const double w2 = w / Trans.Elem2->Weight();
          // const double wL2 = w2 * lambda->Eval(*Trans.Elem2, eip2);
-         const double wM2 = w2 * mu->Eval(*Trans.Elem2, eip2);
+         const double wM2 = w2 * (mu ? mu->Eval(*Trans.Elem2, eip2) : 1.0);
          // nL2.Set(wL2, nor);
          nM2.Set(wM2, nor);
          // wLM = (wL2 + 2.0*wM2);
@@ -127,7 +127,7 @@ void DGVectorDiffusionIntegrator::AssembleFaceMatrix(
       {
          const double w1 = w / Trans.Elem1->Weight();
          // const double wL1 = w1 * lambda->Eval(*Trans.Elem1, eip1);
-         const double wM1 = w1 * mu->Eval(*Trans.Elem1, eip1);
+         const double wM1 = w1 * (mu ? mu->Eval(*Trans.Elem1, eip1) : 1.0);
          // nL1.Set(wL1, nor);
          nM1.Set(wM1, nor);
          // wLM += (wL1 + 2.0*wM1);
diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index 0a62403..c2eb6c7 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -513,7 +513,7 @@ void InterfaceDGVectorDiffusionIntegrator::AssembleInterfaceMatrix(
          w = ip.weight/2;
          const double w2 = w / Trans2.Elem1->Weight();
          // const double wL2 = w2 * lambda->Eval(*Trans.Elem2, eip2);
-         const double wM2 = w2 * mu->Eval(*Trans2.Elem1, eip2);
+         const double wM2 = w2 * (mu ? mu->Eval(*Trans2.Elem1, eip2) : 1.0);
          // nL2.Set(wL2, nor);
          nM2.Set(wM2, nor);
          // wLM = (wL2 + 2.0*wM2);
@@ -529,7 +529,7 @@ void InterfaceDGVectorDiffusionIntegrator::AssembleInterfaceMatrix(
       {
          const double w1 = w / Trans1.Elem1->Weight();
          // const double wL1 = w1 * lambda->Eval(*Trans.Elem1, eip1);
-         const double wM1 = w1 * mu->Eval(*Trans1.Elem1, eip1);
+         const double wM1 = w1 * (mu ? mu->Eval(*Trans1.Elem1, eip1) : 1.0);
          // nL1.Set(wL1, nor);
          nM1.Set(wM1, nor);
          // wLM += (wL1 + 2.0*wM1);
-- 
2.43.0


From d663a37c5b91a6bc402f65c06bb3f268f301ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:25 +0000
Subject: [PATCH 18/45] fix: interface faces of a submesh decomposition are
 parametrized against their own face transformation

---
 src/topology_handler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/topology_handler.cpp b/src/topology_handler.cpp
index 3f5670a..5e95da8 100644
--- a/src/topology_handler.cpp
+++ b/src/topology_handler.cpp
@@ -439,8 +439,10 @@ Array<int> SubMeshTopologyHandler::FindParentInterfaceInfo(const int pface,
       Infs[0] = face_inf[0];
       Infs[1] = face_inf[1];
    } else {
-      Infs[0] = face_inf[1];
-      Infs[1] = face_inf[0];
+      // The face of imesh has to keep the orientation 0 its own face transformation is based on.
+      // The relative orientation of the two sides is a reflection, thus its own inverse.
+      Infs[0] = 64 * (face_inf[1] / 64) + face_inf[0] % 64;
+      Infs[1] = 64 * (face_inf[0] / 64) + face_inf[1] % 64;
    }
 
    return Infs;
-- 
2.43.0


From 111e551d71542ff5fd08b145fcd78196078d875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:43 +0000
Subject: [PATCH 19/45] fix: Temam boundary term sizes its normal by the
 boundary element's dimension

---
 src/dg_linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_linear.cpp b/src/dg_linear.cpp
index afafd48..d7ae08e 100644
--- a/src/dg_linear.cpp
+++ b/src/dg_linear.cpp
@@ -491,7 +491,7 @@ void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
 void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
    const FiniteElement &el, ElementTransformation &Tr, Vector &elvect)
 {
-   int dim = el.GetDim();
+   int dim = el.GetDim()+1;
    int dof = el.GetDof();
    Vector nor(dim), Qvec, gn(dim);
    double un;
-- 
2.43.0


From 6ac35b3400a5b2c62cfaee6d079f0c07e832eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:26 +0000
Subject: [PATCH 20/45] fix: CGOptimizer kept the converged flag of an earlier
 solve, and went on from a converged start

---
 src/linalg_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index be29674..75d79a7 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -891,9 +891,16 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
    xi1.SetSize(sol.Size());
    h.SetSize(sol.Size());
 
+   converged = false;
+
    double Jmin = Objective(rhs, sol);
    double res0 = sqrt(Jmin);
    printf("Initial iteration: ||r|| = %.4E\n", res0);
+   if (res0 < abs_tol)
+   {
+      converged = true;
+      return;
+   }
 
    Gradient(rhs, sol, g);
 
-- 
2.43.0


From c9277f4ab24ce437c0799d1ff6fae2a0c18c41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:26 +0000
Subject: [PATCH 21/45] fix: CGOptimizer aborted at stationary points and on
 flat line searches

---
 src/linalg_utils.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 75d79a7..12d455c 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -851,7 +851,7 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
       if ( (c-a) < b * lin_tol + eps ) break;
       
       double b_new = b - 0.5 * ( pow(b-a, 2) * (fb-fc) - pow(b-c, 2) * (fb-fa) ) / ( (b-a) * (fb-fc) - (b-c) * (fb-fa) );
-      if ((b_new > c) || (b_new < a) || (abs(log10((c-b) / (b-a))) > 1.0))
+      if (!((b_new >= a) && (b_new <= c)) || (abs(log10((c-b) / (b-a))) > 1.0))
          if ( b > 0.5 * (a+c) )
             b_new = b - Cr * (b-a);
          else
@@ -873,8 +873,9 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
          J_arr[1] = fbx, J_arr[2] = fb;
       }
 
-      fb = J_arr.Min();
-      int idx = J_arr.Find(fb); assert(idx > 0);
+      // the minimum is inside the bracket, also when round-off makes it tie with an end.
+      int idx = (J_arr[2] < J_arr[1]) ? 2 : 1;
+      fb = J_arr[idx];
       fa = J_arr[idx-1]; fc = J_arr[idx+1];
       a = x_arr[idx-1]; b = x_arr[idx]; c = x_arr[idx+1];
    }
@@ -907,6 +908,9 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
    g *= -1.0; xi = g; h = g;
    double gg0 = g * g;
 
+   // sol is already a stationary point: there is no direction to search along.
+   if (gg0 == 0.0) return;
+
    double b0 = ib / sqrt(gg0);
 
    double gg, gg1, dgg, dgg1, res;
@@ -935,6 +939,7 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
          printf("CG minimization finished.");
          break;
       }
+      if (dgg1 == 0.0) break;
          
       gamma = dgg / gg;
       gamma_FR = dgg1 / gg;
@@ -946,6 +951,8 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
       
       g.Set(-1.0, xi);
       add(g, gamma, h, xi);
+      // restart along the steepest descent if the new direction does not go down.
+      if (!(g * xi > 0.0)) xi = g;
       h = xi;
    }
 
-- 
2.43.0


From 586f01d3cd1922208c8b005a5f4fec007cefabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 22/45] fix: gmsh2mfem dropped the z coordinates of 3D meshes

---
 utils/gmsh2mfem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/gmsh2mfem.cpp b/utils/gmsh2mfem.cpp
index 4012253..6afdec7 100644
--- a/utils/gmsh2mfem.cpp
+++ b/utils/gmsh2mfem.cpp
@@ -39,18 +39,18 @@ int main(int argc, char *argv[])
 
    // Promote to high order mesh
    if (order_ >1)
-      mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+      mesh.SetCurvature(order_, true, mesh.SpaceDimension(), Ordering::byVDIM);
    
    // Force mesh to be nonconforming
    if (force_nc_)
    {
       if (mesh.GetNodalFESpace())
       {
-         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, mesh.SpaceDimension(), Ordering::byVDIM);
       }
       else
       {
-         mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(order_, true, mesh.SpaceDimension(), Ordering::byVDIM);
       }
    }
    
-- 
2.43.0


From 0f0b96fa66935b9f8ae401ac1774a1c5e6ed7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 23/45] fix: mesh utilities built their default file name from
 a dangling pointer

---
 utils/1d_mesh.cpp        | 4 +++-
 utils/cubic_mesh.cpp     | 4 +++-
 utils/rectangle_mesh.cpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/1d_mesh.cpp b/utils/1d_mesh.cpp
index 9938eee..fed6d6c 100644
--- a/utils/1d_mesh.cpp
+++ b/utils/1d_mesh.cpp
@@ -75,6 +75,7 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
+   std::string defaultName;
    if (strlen(meshFileString) == 0) {
       ostringstream oss;
       oss << "1d";
@@ -88,7 +89,8 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      defaultName = oss.str();
+      meshFileString = defaultName.c_str();
    }
    ofstream ofs(meshFileString);
    ofs.precision(8);
diff --git a/utils/cubic_mesh.cpp b/utils/cubic_mesh.cpp
index 2fcac5c..e462a61 100644
--- a/utils/cubic_mesh.cpp
+++ b/utils/cubic_mesh.cpp
@@ -182,6 +182,7 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
+   std::string defaultName;
    if (strlen(meshFileString) == 0) {
       ostringstream oss;
       if (el_type_ == Element::HEXAHEDRON)
@@ -221,7 +222,8 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      defaultName = oss.str();
+      meshFileString = defaultName.c_str();
    }
    ofstream ofs(meshFileString);
    ofs.precision(8);
diff --git a/utils/rectangle_mesh.cpp b/utils/rectangle_mesh.cpp
index 862c8a8..07af1bd 100644
--- a/utils/rectangle_mesh.cpp
+++ b/utils/rectangle_mesh.cpp
@@ -165,6 +165,7 @@ printf("%s\n", meshFileString);
    }
 
    // Output the resulting mesh to a file
+   std::string defaultName;
    if (strlen(meshFileString) == 0) {
       ostringstream oss;
       if (el_type_ == Element::QUADRILATERAL)
@@ -204,7 +205,8 @@ printf("%s\n", meshFileString);
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      defaultName = oss.str();
+      meshFileString = defaultName.c_str();
    }
    ofstream ofs(meshFileString);
    ofs.precision(8);
-- 
2.43.0


From af6a71a4a0be446e84a83943e14cd83a2dc0b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:25 +0000
Subject: [PATCH 24/45] fix: training meshes next to the original mesh also
 when its directory has a dot

---
 utils/python/linelast_cwtrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/python/linelast_cwtrain.py b/utils/python/linelast_cwtrain.py
index c192640..b3cfd02 100644
--- a/utils/python/linelast_cwtrain.py
+++ b/utils/python/linelast_cwtrain.py
@@ -23,7 +23,7 @@ def shift_mesh_battrs(num_attr, path):
     first_lines = all_lines[0:bdr_start+2]
     last_lines = all_lines[bdr_start+2+bdr_len:]
     f.close()
-    prefix = path.split('.')[0]
+    prefix = os.path.splitext(path)[0]
     for i in range(num_attr):
         filename = prefix + "_"+ str(i) + ".mesh"
         shift_battrs = [(b + i ) if (b + i) == num_attr else (b + i )%num_attr for b in battrs]
-- 
2.43.0


From 27e9895cf67c3fb7c2e88bb2676d170ea2ecfe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:25 +0000
Subject: [PATCH 25/45] fix: lattice cantilever uses the size it is given

---
 utils/python/linelast_comp.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils/python/linelast_comp.py b/utils/python/linelast_comp.py
index fab9990..74a91ca 100644
--- a/utils/python/linelast_comp.py
+++ b/utils/python/linelast_comp.py
@@ -78,8 +78,6 @@ def SimpleL():
     return
 
 def LatticeCantilever(nx, ny):
-    nx = 2
-    ny = 2
     l = 4.0
     w = 1.0
 
-- 
2.43.0


From badf050684fb7cb3670e1be0a6b6132990368fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:25 +0000
Subject: [PATCH 26/45] fix: random channels start over at a dead end

---
 utils/python/channel_config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/python/channel_config.py b/utils/python/channel_config.py
index 7fb9a39..30103d8 100644
--- a/utils/python/channel_config.py
+++ b/utils/python/channel_config.py
@@ -127,10 +127,16 @@ class ChannelConfig(Configuration):
     
     def CreateRandomConfig(self, extension, filename):
         config = deepcopy(self)
-        for k in range(extension):
+        k = 0
+        while (k < extension):
             avail_faces, avail_locs = config.getAvailableFaces()
+            if (len(avail_locs) == 0):
+                # the channel ran into a dead end: start over.
+                config, k = deepcopy(self), 0
+                continue
             idx = np.random.randint(len(avail_locs))
             config.addMesh(0, avail_locs[idx])
+            k += 1
         config.close()
         config.save(filename)
         return
-- 
2.43.0


From 7e17b74f0da431f7b5cda5e33d9d9c06c0035a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 27/45] fix: GetBlockIndex without a variable index aborted
 exactly when variables are not separated

---
 src/rom_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..8d727ad 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -199,7 +199,7 @@ const int ROMHandlerBase::GetBlockIndex(const int m, const int v)
 {
    if (v < 0)
    {
-      assert(separate_variable);
+      assert(!separate_variable);
       return m;
    }
 
-- 
2.43.0


From 2ee304c493f16e4e72bde20e300a7e4b563ff8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 28/45] fix: ProjectToRefBasis dereferenced a missing operator
 before checking for it

---
 src/rom_handler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 8d727ad..ff386b3 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -720,11 +720,12 @@ SparseMatrix* MFEMROMHandler::ProjectToRefBasis(const int &i, const int &j, cons
    GetReferenceBasis(i, basis_i);
    GetReferenceBasis(j, basis_j);
 
-   assert(basis_i->NumRows() == mat->Height());
-   assert(basis_j->NumRows() == mat->Width());
-
    if (mat)
+   {
+      assert(basis_i->NumRows() == mat->Height());
+      assert(basis_j->NumRows() == mat->Width());
       return mfem::SparseRtAP(*basis_i, *mat, *basis_j);
+   }
    else
       return new SparseMatrix(basis_i->NumCols(), basis_j->NumCols());
 }
-- 
2.43.0


From 73d2bc44ffe242be42b8a80c44c4a8621545587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 29/45] fix: LoadOperatorFromFile freed the previous monolithic
 operator twice

---
 src/rom_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index ff386b3..7643fdd 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -904,6 +904,7 @@ void MFEMROMHandler::LoadOperatorFromFile(const std::string filename)
    assert(save_operator == ROMBuildingLevel::GLOBAL);
    delete romMat;
    delete romMat_mono;
+   romMat_mono = NULL;
 
    hid_t file_id;
    herr_t errf = 0;
-- 
2.43.0


From f77f21e285b3f24da9b262c3ae1c38e4fc98b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 30/45] fix: SetupDirectSolver leaked the previous
 factorization

---
 src/rom_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 7643fdd..37483f9 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -1052,7 +1052,8 @@ void MFEMROMHandler::SetupDirectSolver()
       return;
 
    assert(romMat_mono);
-   delete romMat_hypre, mumps;
+   delete romMat_hypre;
+   delete mumps;
 
    // TODO: need to change when the actual parallelization is implemented.
    sys_glob_size = romMat_mono->NumRows();
-- 
2.43.0


From 26924c1076403b6bca5cc6dd91950c1215904822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 31/45] fix: NonlinearSolve replaced the factorization of the
 linear reduced operator by that of its last Jacobian

---
 src/rom_handler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 37483f9..1c6cdaa 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -662,10 +662,10 @@ void MFEMROMHandler::NonlinearSolve(Operator &oper, BlockVector* U, Solver *prec
    Solver *J_solver = NULL;
    if (linsol_type == SolverType::DIRECT)
    {
-      mumps = new MUMPSSolver(MPI_COMM_SELF);
-      mumps->SetMatrixSymType(mat_type);
-      mumps->SetPrintLevel(jac_print_level);
-      J_solver = mumps;
+      MUMPSSolver *direct_solver = new MUMPSSolver(MPI_COMM_SELF);
+      direct_solver->SetMatrixSymType(mat_type);
+      direct_solver->SetPrintLevel(jac_print_level);
+      J_solver = direct_solver;
    }
    else
    {
@@ -706,6 +706,8 @@ void MFEMROMHandler::NonlinearSolve(Operator &oper, BlockVector* U, Solver *prec
    else
       mfem_error("MFEMROMHandler::NonlinearSolve- Unknown ROM nonlinear solver type!\n");
 
+   delete J_solver;
+
    LiftUpGlobal(*reduced_sol, *U);
 }
 
-- 
2.43.0


From 3390ff514a9b3662a885146a0c14b053ffe602b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 32/45] fix: projections onto domain bases ignored the ordering
 of the reduced blocks

---
 src/rom_handler.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 1c6cdaa..b6ac0be 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -819,10 +819,7 @@ void MFEMROMHandler::ProjectComponentToDomainBasis(
    idx = c;
    if (separate_variable)
       for (int v = 0; v < num_var; v++)
-      {
-         idx[v] *= num_var;
-         idx[v] += v;
-      }
+         idx[v] = GetBlockIndex(c, v);
 
    assert((mats.NumRows() == size) && (mats.NumCols() == size));
 
@@ -859,8 +856,8 @@ void MFEMROMHandler::ProjectInterfaceToDomainBasis(
    if (separate_variable)
       for (int v = 0; v < num_var; v++)
       {
-         idx[v] = c1 * num_var + v;
-         idx[v + num_var] = c2 * num_var + v;
+         idx[v] = GetBlockIndex(c1, v);
+         idx[v + num_var] = GetBlockIndex(c2, v);
       }
    else
    {
@@ -882,8 +879,8 @@ void MFEMROMHandler::ProjectVariableToDomainBasis(
    Array<int> idx_i(size), idx_j(size);
    for (int m = 0; m < numSub; m++)
    {
-      idx_i[m] = m * num_var + vi;
-      idx_j[m] = m * num_var + vj;
+      idx_i[m] = GetBlockIndex(m, vi);
+      idx_j[m] = GetBlockIndex(m, vj);
    }
 
    assert((mats.NumRows() == size) && (mats.NumCols() == size));
-- 
2.43.0


From 703a6eb3fa7f065ff3796b6aa7b8cf986aaf8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 33/45] fix: block reduced operator kept its size when a
 reference basis was enriched

---
 src/rom_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index b6ac0be..abf24e3 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -1085,6 +1085,12 @@ void MFEMROMHandler::AppendReferenceBasis(const int &idx, const DenseMatrix &mat
    // Reset the block offsets and domain num_basis.
    SetBlockSizes();
 
+   // The reduced operator for the previous basis does not fit the new block sizes.
+   delete romMat;
+   romMat = new BlockMatrix(rom_block_offsets);
+   romMat->owns_blocks = true;
+   operator_loaded = false;
+
    printf("spatial basis-%d dimension updated: %d x %d\n",
           idx, ref_basis[idx]->NumRows(), ref_basis[idx]->NumCols());
 }
-- 
2.43.0


From c9b9bf7bdbfd61bf4d981a3ead99736bc293b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 34/45] fix: SaveBasisVisualization with separate variable
 bases took variables for components

---
 src/rom_handler.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index abf24e3..1c5f59f 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -972,30 +972,35 @@ void MFEMROMHandler::SaveBasisVisualization(
       std::string file_prefix = visual_prefix;
       file_prefix += "_" + std::to_string(c);
 
+      // component and variables of this reference basis.
+      const int comp = (separate_variable) ? c / num_var : c;
+      const int var0 = (separate_variable) ? c % num_var : 0;
+      const int num_basis_var = (separate_variable) ? 1 : num_var;
+
       int midx = -1;
       for (int m = 0; m < numSub; m++)
-         if (topol_handler->GetMeshType(m) == c) { midx = m; break; }
+         if (topol_handler->GetMeshType(m) == comp) { midx = m; break; }
       assert(midx >= 0);
 
       Mesh *mesh = fes[midx * num_var]->GetMesh();
-      const int order = fes[midx * num_var]->FEColl()->GetOrder();
+      const int order = fes[midx * num_var + var0]->FEColl()->GetOrder();
       ParaViewDataCollection coll = ParaViewDataCollection(file_prefix.c_str(), mesh);
 
-      Array<int> var_offsets(num_ref_basis[c] * num_var + 1);
+      Array<int> var_offsets(num_ref_basis[c] * num_basis_var + 1);
       var_offsets[0] = 0;
       for (int k = 0, vidx = 1; k < num_ref_basis[c]; k++)
-         for (int v = 0, idx = midx * num_var; v < num_var; v++, idx++, vidx++)
+         for (int v = 0, idx = midx * num_var + var0; v < num_basis_var; v++, idx++, vidx++)
             var_offsets[vidx] = fes[idx]->GetVSize();
       var_offsets.PartialSum();
       BlockVector basis_view(ref_basis[c]->GetData(), var_offsets);
 
-      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_var);
+      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_basis_var);
       basis_gf = NULL;
       for (int k = 0, idx = 0; k < num_ref_basis[c]; k++)
       {
-         for (int v = 0, fidx = midx * num_var; v < num_var; v++, idx++, fidx++)
+         for (int v = 0, fidx = midx * num_var + var0; v < num_basis_var; v++, idx++, fidx++)
          {
-            std::string field_name = var_names[v] + "_basis_" + std::to_string(k);
+            std::string field_name = var_names[var0 + v] + "_basis_" + std::to_string(k);
             basis_gf[idx] = new GridFunction(fes[fidx], basis_view.GetBlock(idx), 0);
             coll.RegisterField(field_name.c_str(), basis_gf[idx]);   
          }
-- 
2.43.0


From 884a59a58a2096cc75597365b0c000f85cb92d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 35/45] fix: enforce elastic Dirichlet conditions weakly
 without full DG as well

---
 src/linelast_solver.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..c282fd3 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -420,22 +420,19 @@ void LinElastSolver::SetupBCOperators()
 void LinElastSolver::SetupDomainBCOperators()
 {
    MFEM_ASSERT(as.Size() == numSub, "BilinearForm bs != numSub.\n");
-   if (full_dg)
+   for (int m = 0; m < numSub; m++)
    {
-      for (int m = 0; m < numSub; m++)
+      for (int b = 0; b < global_bdr_attributes.Size(); b++)
       {
-         for (int b = 0; b < global_bdr_attributes.Size(); b++)
-         {
-            int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
-            if (idx < 0)
-               continue;
-            if (!BCExistsOnBdr(b))
-               continue;
-
-            if (bdr_type[b] == BoundaryType::DIRICHLET)
-               as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
-                  *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
-         }
+         int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
+         if (idx < 0)
+            continue;
+         if (!BCExistsOnBdr(b))
+            continue;
+
+         if (bdr_type[b] == BoundaryType::DIRICHLET)
+            as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
+               *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
       }
    }
 }
-- 
2.43.0


From ec234339fb2de1f9dc6e9d4fa91a4a3ed89b78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 36/45] fix: mark complementary-flux boundaries of a
 parameterized problem by attribute

---
 src/stokes_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 2ff664a..b16bb58 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1138,7 +1138,10 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
             if (problem->battr[b] == -1)
             { nz_dbcs = false; break; }
             else
-               nz_dbcs[b] = false;
+            {
+               int idx = global_bdr_attributes.Find(problem->battr[b]);
+               if (idx >= 0) nz_dbcs[idx] = false;
+            }
          }
       }
       SetComplementaryFlux(nz_dbcs);
-- 
2.43.0


From 0ce7491c2021d7dc0bde146928a3630126ac8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 37/45] fix: time-stamped saves respect disabled saving,
 default file name and partial visualization

---
 src/multiblock_solver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index d946c71..54ba470 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -485,6 +485,8 @@ void MultiBlockSolver::SaveVisualization(const int step, const double time)
 
    for (int m = 0; m < paraviewColls.Size(); m++)
    {
+      // subdomains left out of the visualization do not have a collection.
+      if (!paraviewColls[m]) continue;
       paraviewColls[m]->SetCycle(step);
       paraviewColls[m]->SetTime(time);
    }
@@ -529,6 +531,13 @@ void MultiBlockSolver::SaveSolution(std::string filename)
 
 void MultiBlockSolver::SaveSolutionWithTime(std::string filename, const int step, const double time)
 {
+   if (!save_sol) return;
+
+   if (filename == "")
+   {
+      filename = sol_dir + "/" + sol_prefix + ".h5";
+   }
+
    SaveSolution(filename);
    printf("Saving time/time step ...");
 
-- 
2.43.0


From de9124a43e31469838ba2bdc6b593cc6666bab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 38/45] fix: advection-diffusion visualization of a part of the
 subdomains

---
 src/advdiff_solver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/advdiff_solver.cpp b/src/advdiff_solver.cpp
index 9b16800..740c204 100644
--- a/src/advdiff_solver.cpp
+++ b/src/advdiff_solver.cpp
@@ -182,8 +182,6 @@ void AdvDiffSolver::SaveVisualization()
    if (!visual.save) return;
 
    assert(paraviewColls.Size() > 0);
-   for (int k = 0; k < paraviewColls.Size(); k++)
-      assert(paraviewColls[k]);
 
    flow_visual.SetSize(numSub);
    flow_visual = NULL;
@@ -222,7 +220,8 @@ void AdvDiffSolver::SaveVisualization()
    }
    else
       for (int m = 0; m < numSub; m++)
-         paraviewColls[m]->RegisterField("flow", flow_visual[m]);
+         // subdomains left out of the visualization do not have a collection.
+         if (paraviewColls[m]) paraviewColls[m]->RegisterField("flow", flow_visual[m]);
 
    MultiBlockSolver::SaveVisualization();
 }
-- 
2.43.0


From b7c599d632a159897ce9e0ffdf339b2eb43681a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 39/45] fix: precomputed interface samples ignored the offset
 of the component basis

---
 include/rom_interfaceform.hpp |  3 ++-
 src/rom_interfaceform.cpp     | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/rom_interfaceform.hpp b/include/rom_interfaceform.hpp
index 4193c71..37a177c 100644
--- a/include/rom_interfaceform.hpp
+++ b/include/rom_interfaceform.hpp
@@ -141,7 +141,8 @@ private:
    void PrecomputeEQPSample(const IntegrationRule &ir,
                             FaceElementTransformations *tr1, FaceElementTransformations *tr2,
                             FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-                            const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample);
+                            const DenseMatrix &basis1, const DenseMatrix &basis2,
+                            const int &basis1_offset, const int &basis2_offset, EQPSample &eqp_sample);
 };
 
 } // namespace mfem
diff --git a/src/rom_interfaceform.cpp b/src/rom_interfaceform.cpp
index 13e5dca..916d6e2 100644
--- a/src/rom_interfaceform.cpp
+++ b/src/rom_interfaceform.cpp
@@ -814,7 +814,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
             topol_handler->GetInterfaceTransformations(mesh1, mesh2, &(*interface_infos)[itf], tr1, tr2);
 
             PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2,
-                                *basis1, *basis2, *sample);
+                                *basis1, *basis2, comp_basis_dof_offsets[c1],
+                                comp_basis_dof_offsets[c2], *sample);
          }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
          if (c1 == c2)
@@ -826,7 +827,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
 void ROMInterfaceForm::PrecomputeEQPSample(
    const IntegrationRule &ir, FaceElementTransformations *tr1, FaceElementTransformations *tr2,
    FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-   const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample)
+   const DenseMatrix &basis1, const DenseMatrix &basis2,
+   const int &basis1_offset, const int &basis2_offset, EQPSample &eqp_sample)
 {
    const int nbasis1 = basis1.NumCols();
    const int nbasis2 = basis2.NumCols();
@@ -837,7 +839,13 @@ void ROMInterfaceForm::PrecomputeEQPSample(
    Array<int> vdofs1, vdofs2;
    fes1->GetElementVDofs(tr1->Elem1No, vdofs1);
    fes2->GetElementVDofs(tr2->Elem1No, vdofs2);
-   
+
+   // component bases can have extra dofs before the ones of this form.
+   for (int v = 0; v < vdofs1.Size(); v++)
+      vdofs1[v] += basis1_offset;
+   for (int v = 0; v < vdofs2.Size(); v++)
+      vdofs2[v] += basis2_offset;
+
    int dim = fe1->GetDim();
    int ndofs1 = fe1->GetDof();
    int ndofs2 = fe2->GetDof();
-- 
2.43.0


From 66d7a30c461e0ccc5cd52e6b233d0293b3d54f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 40/45] fix: coordinates of 2D sample points carried an
 uninitialised third component

---
 src/rom_nonlinearform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_nonlinearform.cpp b/src/rom_nonlinearform.cpp
index 9b7bf00..4378108 100644
--- a/src/rom_nonlinearform.cpp
+++ b/src/rom_nonlinearform.cpp
@@ -1541,7 +1541,7 @@ void ROMNonlinearForm::SaveDomainEQPCoords(const int k, hid_t file_id, const std
       ElementTransformation *T = fes->GetElementTransformation(el);
       const IntegrationPoint &ip = ir->IntPoint(eqp_sample->info.qp);
 
-      double x[3];
+      double x[3] = {0.0, 0.0, 0.0};
       Vector transip(x, 3);
       T->Transform(ip, transip);
 
-- 
2.43.0


From 68724707a515f44bb70aa44e4d13e99951a19e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 41/45] fix: interface term of a hyper-reduced Navier-Stokes
 model assumed blocks ordered by subdomain

---
 src/steady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 7a3ae61..8c9950a 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -263,7 +263,7 @@ SteadyNSEQPROM::SteadyNSEQPROM(
    u_offsets = 0;
    for (int k = 0; k < numSub; k++)
    {
-      u_offsets[k+1] = block_offsets[1 + k * num_var] - block_offsets[k * num_var];
+      u_offsets[k+1] = block_offsets[midxs[k]+1] - block_offsets[midxs[k]];
    }
    u_offsets.PartialSum();
 
-- 
2.43.0


From dd5485a74a38d04b1322667dea98425189ba43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 42/45] fix: Jacobian of a reduced Navier-Stokes model aborted
 where the linear operator has a zero entry

---
 src/steady_ns_solver.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 8c9950a..8817117 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -215,7 +215,7 @@ Operator& SteadyNSTensorROM::GetGradient(const Vector &x) const
 {
    delete jac_mono;
    delete jac_hypre;
-   jac_mono = new SparseMatrix(*linearOp);
+   SparseMatrix jac_nlin(linearOp->Height(), linearOp->Width());
    DenseMatrix jac_comp;
 
    for (int m = 0; m < numSub; m++)
@@ -228,9 +228,11 @@ Operator& SteadyNSTensorROM::GetGradient(const Vector &x) const
       TensorAddMultTranspose(*hs[m], x_comp, 0, jac_comp);
       TensorAddMultTranspose(*hs[m], x_comp, 1, jac_comp);
 
-      jac_mono->AddSubMatrix(*block_idxs[m], *block_idxs[m], jac_comp);
+      jac_nlin.AddSubMatrix(*block_idxs[m], *block_idxs[m], jac_comp);
    }
-   jac_mono->Finalize();
+   jac_nlin.Finalize();
+   // the nonlinear part can fill entries where the linear operator is zero.
+   jac_mono = Add(*linearOp, jac_nlin);
    
    if (direct_solve)
    {
@@ -319,6 +321,9 @@ Operator& SteadyNSEQPROM::GetGradient(const Vector &x) const
    jac_mono = new SparseMatrix(*linearOp);
    timer.Stop("GetGradient/lin");
 
+   // the nonlinear part can fill entries where the linear operator is zero.
+   SparseMatrix *sum = NULL;
+
    if (itf)
    {
       timer.Start("GetGradient/itf");
@@ -344,13 +349,16 @@ Operator& SteadyNSEQPROM::GetGradient(const Vector &x) const
       AddToBlockMatrix(midxs, midxs, u_mats, jac);
       jac.Finalize();
       SparseMatrix *tmp = jac.CreateMonolithic();
-      (*jac_mono) += *tmp;
+      sum = Add(*jac_mono, *tmp);
+      delete jac_mono;
+      jac_mono = sum;
       
       delete tmp;
       timer.Stop("GetGradient/itf");
    }
 
    timer.Start("GetGradient/nlin");
+   SparseMatrix jac_nlin(linearOp->Height(), linearOp->Width());
    DenseMatrix *jac_comp;
    for (int m = 0; m < numSub; m++)
    {
@@ -359,10 +367,13 @@ Operator& SteadyNSEQPROM::GetGradient(const Vector &x) const
 
       // NOTE(kevin): jac_comp is owned by hs[m]. No need of deleting it.
       jac_comp = dynamic_cast<DenseMatrix *>(&hs[m]->GetGradient(x_comp));
-      jac_mono->AddSubMatrix(*block_idxs[m], *block_idxs[m], *jac_comp);
+      jac_nlin.AddSubMatrix(*block_idxs[m], *block_idxs[m], *jac_comp);
    }
+   jac_nlin.Finalize();
+   sum = Add(*jac_mono, jac_nlin);
+   delete jac_mono;
+   jac_mono = sum;
    timer.Stop("GetGradient/nlin");
-   jac_mono->Finalize();
 
    timer.Stop("GetGradient");
    
-- 
2.43.0


From 085f6e943e6878b66a6389c42b557b8999961f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 43/45] fix: train per-variable bases for advection-diffusion

GetGlobalBasisTagList did not know the variables of adv-diff, so training with
model_reduction/separate_variable_basis ended in 'Unknown solver type'.
---
 src/main_workflow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index cec992a..1dd3328 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -121,6 +121,7 @@ std::vector<BasisTag> GetGlobalBasisTagList(const TopologyHandlerMode &topol_mod
       else if (solver_type == "stokes")      var_list = StokesSolver::GetVariableNames();
       else if (solver_type == "steady-ns")   var_list = SteadyNSSolver::GetVariableNames();
       else if (solver_type == "linelast")   var_list = LinElastSolver::GetVariableNames();
+      else if (solver_type == "adv-diff")   var_list = AdvDiffSolver::GetVariableNames();
       else if (solver_type == "unsteady-ns")   var_list = UnsteadyNSSolver::GetVariableNames();
       else
       {
-- 
2.43.0


From c63714611fd3ca39375fd29bb1f1256724792dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 44/45] fix: unified visualization of advection-diffusion with
 a computed flow

The flow's grid functions belong to the flow solver's own meshes and spaces and
cannot be transferred to the parent mesh of the visualization.
---
 src/advdiff_solver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/advdiff_solver.cpp b/src/advdiff_solver.cpp
index 740c204..7a2080a 100644
--- a/src/advdiff_solver.cpp
+++ b/src/advdiff_solver.cpp
@@ -30,7 +30,8 @@ AdvDiffSolver::AdvDiffSolver()
 AdvDiffSolver::~AdvDiffSolver()
 {
    DeletePointers(flow_coeffs);
-   if (!stokes_solver) DeletePointers(flow_visual);
+   // the flow owned by stokes_solver is deleted there.
+   if (flow_fes.Size() > 0) DeletePointers(flow_visual);
    DeletePointers(global_flow_visual);
    delete global_flow_fes;
    delete stokes_solver;
@@ -187,7 +188,9 @@ void AdvDiffSolver::SaveVisualization()
    flow_visual = NULL;
 
    const int stokes_numvar = (stokes_solver) ? stokes_solver->GetNumVar() : 0;
-   if (!stokes_solver)
+   // the spaces of stokes_solver, on its own meshes, cannot be transferred to pmesh.
+   const bool project_flow = (!stokes_solver) || visual.unified_view;
+   if (project_flow)
    {
       flow_fes.SetSize(numSub);
       for (int m = 0; m < numSub; m++)
@@ -199,7 +202,7 @@ void AdvDiffSolver::SaveVisualization()
 
    for (int m = 0; m < numSub; m++)
    {
-      if (stokes_solver)
+      if (!project_flow)
          flow_visual[m] = stokes_solver->GetGridFunction(m * stokes_numvar);
       else
       {
-- 
2.43.0


From 7122375bcebed161b061b8d1a909ae7faec3b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 45/45] fix: unsteady solutions saved for restart hold the
 current step

UnsteadyNSSolver::Solve saved U, which is only updated from the current step
when the visualization is, so that restart files kept the fields of another
step with the number and time of this one.
---
 src/unsteady_ns_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index bda721f..8bde51a 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -124,6 +124,8 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
           (((step+1) % restart_interval) == 0))
       {
          restart_file = string_format(file_fmt, sol_dir.c_str(), sol_prefix.c_str(), step+1);
+         /* copy to original solution variable */
+         SortBySubdomains(*U_step, *U);
          SaveSolutionWithTime(restart_file, step+1, time);
       }
 
-- 
2.43.0

