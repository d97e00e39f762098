// Parameterized problems: parameters, boundary roles and fields.  argv: scenario file, "set" or "eval"
#include "parameterized_problem.hpp"
#include "etc.hpp"
#include "trace.hpp"
#include "fork.hpp"
#include <map>
#include <memory>
using namespace vt;
using namespace function_factory;
static const double W = 300, U = 10000;
static map<string, function<double *()>> vars_()
{
   map<string, function<double *()>> m;
#define V(n, x) m[n] = []() -> double * { return &(x); }
   V("p0.k", poisson0::k); V("p0.offset", poisson0::offset);
   V("pc.offset", poisson_component::offset); V("pc.bdr_offset", poisson_component::bdr_offset); V("pc.bdr_idx", poisson_component::bdr_idx);
   V("ps.L", poisson_spiral::L); V("ps.Lw", poisson_spiral::Lw); V("ps.k", poisson_spiral::k); V("ps.s", poisson_spiral::s);
   V("flow.nu", flow_problem::nu); V("ch.L", flow_problem::channel_flow::L); V("ch.U", flow_problem::channel_flow::U); V("ch.x0", flow_problem::channel_flow::x0);
   using namespace flow_problem;
   V("bfs.u0", backward_facing_step::u0); V("bfs.y0", backward_facing_step::y0); V("bfs.y1", backward_facing_step::y1);
   V("lid.u0", lid_driven_cavity::u0); V("lid.L", lid_driven_cavity::L);
   auto vec = [&](string n, Vector &v, int k, int base) { for (int i = 0; i < k; i++) { Vector *p = &v; m[n + to_string(i + base)] = [p, i]() -> double * { return p->Size() > i ? &(*p)(i) : NULL; }; } };
   vec("pc.k", poisson_component::k, 3, 0); vec("pc.bdr_k", poisson_component::bdr_k, 3, 0);
   vec("cf.u0_", component_flow::u0, 3, 1); vec("cf.du_", component_flow::du, 3, 1); vec("cf.offsets_", component_flow::offsets, 3, 1);
   for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
      m["cf.k_" + to_string(i + 1) + "_" + to_string(j + 1)] = [i, j]() -> double * { return component_flow::k.NumRows() > i ? &component_flow::k(i, j) : NULL; };
   vec("bfs.amp", backward_facing_step::amp, 2, 0); vec("bfs.ky", backward_facing_step::ky, 2, 0);
   vec("bfs.freq", backward_facing_step::freq, 2, 0); vec("bfs.t_offset", backward_facing_step::t_offset, 2, 0);
   vec("per.f_", periodic_flow_past_array::f, 3, 1);
   V("le.lambda", linelast_problem::_lambda); V("le.mu", linelast_problem::_mu); V("le.rdisp_f", linelast_disp::rdisp_f); V("le.rforce_f", linelast_force::rforce_f);
   V("fw.qwind_f", linelast_frame_wind::qwind_f); V("fw.density", linelast_frame_wind::density); V("fw.g", linelast_frame_wind::g);
   V("ad.q0", advdiff_problem::advdiff_flow_past_array::q0); V("ad.dq", advdiff_problem::advdiff_flow_past_array::dq); V("ad.qoffset", advdiff_problem::advdiff_flow_past_array::qoffset);
   vec("ad.qk_", advdiff_problem::advdiff_flow_past_array::qk, 3, 1);
#define T(n) V("tr." #n, linelast_cwtrain::n)
   T(lx); T(ly); T(rx); T(ry); T(dx); T(dy); T(ux); T(uy); T(bx); T(by); T(l_ux); T(l_uy); T(r_fx); T(r_fy); T(u_fx); T(u_fy); T(d_fx); T(d_fy); T(b_fx); T(b_fy);
   T(xu_amp); T(xf_amp); T(yu_amp); T(yf_amp); T(bxf_amp); T(byf_amp); T(xu_freq); T(xf_freq); T(yu_freq); T(yf_freq); T(bxf_freq); T(byf_freq);
   T(xu_offset); T(xf_offset); T(yu_offset); T(yf_offset); T(bxf_offset); T(byf_offset);
#undef V
#undef T
   return m;
}
static map<string, function<double *()>> VARS = vars_();
static long un(double v, double s) { double t = v * s; if (!(fabs(t) < (double) BIG)) return BIG; long r = lround(t); return fabs(t - r) > 1e-6 * max(1.0, fabs(t)) ? BIG - 1 : r; }
static string dumpvars()
{ string r = "{"; for (auto &x : VARS) { double *p = x.second(); r += (r.size() > 1 ? "," : "") + q(x.first) + ":" + to_string(p ? un(*p, W) : -BIG); } return r + "}"; }
static string roles(const Array<BoundaryType> &b) { vector<long> r; for (int i = 0; i < b.Size(); i++) r.push_back((int) b[i]); return jint(r); }
static unique_ptr<ParameterizedProblem> P;
static bool adv;
static void state(Ev &e)
{
   vector<long> b; for (int i = 0; i < P->battr.Size(); i++) b.push_back(P->battr[i]);
   e.s("name", P->GetProblemName()).i("np", P->GetNumParams()).raw("vars", dumpvars()).ai("battr", b).raw("bdr", roles(P->bdr_type));
   e.raw("fbdr", adv ? roles(advdiff_problem::flow_problem->bdr_type) : "[]");
}
template<class A> static string nn(const A &a) { vector<string> r; for (int i = 0; i < a.Size(); i++) r.push_back(a[i] ? "true" : "false"); return jarr(r); }
static string slots()
{
   return string("{\"srhs\":[") + (P->scalar_rhs_ptr ? "true" : "false") + "],\"vrhs\":[" + (P->vector_rhs_ptr ? "true" : "false") + "],\"sbdr\":" + nn(P->scalar_bdr_ptr)
          + ",\"vbdr\":" + nn(P->vector_bdr_ptr) + ",\"ic\":" + nn(P->ic_ptr) + ",\"gs\":" + nn(P->general_scalar_ptr) + ",\"gv\":" + nn(P->general_vector_ptr) + "}";
}
static void select(const string &p) { config.dict_ = YAML::Node(); config.dict_["parameterized_problem"]["name"] = p; }
static void evalAll(Rng &r, int dim)
{
   vector<long> x, x0; for (int i = 0; i < dim; i++) { x.push_back(r.in(-6, 6)); x0.push_back(r.in(-3, 3)); }
   int t = r.in(-4, 4), du = r.in(-2, 2);
   Vector X(dim); for (int i = 0; i < dim; i++) X(i) = 0.5 * x[i];
   flow_problem::x0.SetSize(dim); for (int i = 0; i < dim; i++) flow_problem::x0(i) = 0.5 * x0[i];
   flow_problem::del_u = 0.5 * du;
   auto out = [&](const char *s, int i, const vector<long> &y, int n) { emit(Ev("Eval").s("s", s).i("i", i + 1).ai("x", x).ai("x0", x0).i("t", t).i("du", du).ai("y", y).i("size", n)); };
   auto vec = [&](const char *s, int i, GeneralVectorFunction *f)
   {
      if (!f) return;
      Vector y(dim); for (int k = 0; k < dim; k++) y(k) = 1000 + r.in(1, 9);      // leftovers of an earlier evaluation
      f(X, 0.5 * t, y);
      vector<long> v; for (int k = 0; k < y.Size(); k++) v.push_back(fx(y(k), U));
      out(s, i, v, y.Size());
   };
   auto sca = [&](const char *s, int i, GeneralScalarFunction *f) { if (f) out(s, i, {fx(f(X, 0.5 * t), U)}, 1); };
   if (P->GetProblemName() == "poisson_spiral")
   {
      double L = poisson_spiral::L, s = poisson_spiral::s, lw = poisson_spiral::Lw; int m = r.in(0, 2), th = r.in(0, 3);
      if (!(L > 0 && s > 0 && lw > 0 && m * lw < 0.249 * s * L)) { m = 0; if (!(L > 0 && s > 0 && lw > 0)) return; }
      double rad = s * L * (th ? th : 4) / 8.0 + m * lw;
      X = 0.5 * L; if (th == 0) X(0) += rad; else if (th == 1) X(1) += rad; else if (th == 2) X(0) -= rad; else X(1) -= rad;
      emit(Ev("Spiral").i("m", m).i("th", th).ai("y", vector<long>{fx(P->scalar_rhs_ptr(X, 0.5 * t), U)}));
      return;
   }
   sca("srhs", 0, P->scalar_rhs_ptr); vec("vrhs", 0, P->vector_rhs_ptr);
   for (int i = 0; i < P->scalar_bdr_ptr.Size(); i++) sca("sbdr", i, P->scalar_bdr_ptr[i]);
   for (int i = 0; i < P->vector_bdr_ptr.Size(); i++) vec("vbdr", i, P->vector_bdr_ptr[i]);
   for (int i = 0; i < P->ic_ptr.Size(); i++) vec("ic", i, P->ic_ptr[i]);
   for (int i = 0; i < P->general_scalar_ptr.Size(); i++) sca("gs", i, P->general_scalar_ptr[i]);
   for (int i = 0; i < P->general_vector_ptr.Size(); i++) vec("gv", i, P->general_vector_ptr[i]);
}
int main(int argc, char **argv)
{
   ifstream in(argv[1]); string line; bool ev = string(argv[2]) == "eval";
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node s = YAML::Load(line);
      P.reset(); adv = false;
      { Ev e("Begin"); e.raw("vars", dumpvars()); emit(e); }
      for (auto o : s)
      {
         string op = o["op"].as<string>();
         if (op == "new")
         {
            string p = o["p"].as<string>(); P.reset(); adv = p == "advdiff_flow_past_array";
            select(p); P.reset(InitParameterizedProblem());
            Ev e("New"); e.s("p", p).raw("slots", slots()); state(e); emit(e);
         }
         else if (op == "name")
         {
            string n = o["n"].as<string>(); double v = o["v"].as<double>();
            if (!survives([&]() { P->SetParams(n, v / W); })) { emit(Ev("Refused").s("what", "name").s("n", n).i("v", v)); continue; }
            P->SetParams(n, v / W); Ev e("Name"); e.s("n", n).i("v", v).i("ix", P->GetParamIndex(n)); state(e); emit(e);
         }
         else if (op == "index")
         {
            vector<long> ix, vs; for (auto x : o["ix"]) ix.push_back(x.as<long>()); for (auto x : o["v"]) vs.push_back(x.as<long>());
            Array<int> I(ix.size()); Vector V(vs.size()); for (size_t i = 0; i < ix.size(); i++) { I[i] = ix[i]; V(i) = vs[i] / W; }
            if (!survives([&]() { P->SetParams(I, V); })) { emit(Ev("Refused").s("what", "index").ai("ix", ix).ai("v", vs)); continue; }
            P->SetParams(I, V); Ev e("Index"); e.ai("ix", ix).ai("v", vs); state(e); emit(e);
         }
         else if (op == "single")
         {
            vector<string> ns; vector<long> vs; for (auto x : o["n"]) ns.push_back(x.as<string>()); for (auto x : o["v"]) vs.push_back(x.as<long>());
            if (ns[0] == ns[1]) { ns.resize(1); vs.resize(1); }
            bool there = o["seed"].as<int>() % 7 != 0; string p = P->GetProblemName();
            config.dict_ = YAML::Node(); config.dict_["parameterized_problem"]["name"] = p; config.dict_["single_run"]["other"]["k"] = 3;
            if (there) for (size_t i = 0; i < ns.size(); i++) config.SetOption<double>("single_run/" + p + "/" + ns[i], vs[i] / W);
            if (!survives([&]() { P->SetSingleRun(); })) { emit(Ev("Refused").s("what", "single").as("n", ns).ai("v", vs).b("there", there)); continue; }
            P->SetSingleRun(); Ev e("Single"); e.as("n", ns).ai("v", vs); state(e); emit(e);
         }
         else if (op == "bad")
         {
            int k = o["seed"].as<int>(); Rng r(k);
            if (k % 3 == 0)
            { static const char *bad[] = {"", "K", "nu ", "u0", "qk", "nosuch", "lambda_", "k3", "bdr_k3", "amp2", "f_x"}; string n = bad[r.in(0, 10)];
              if (n == "u0" && (P->GetProblemName() == "backward_facing_step" || P->GetProblemName() == "lid_driven_cavity")) n = "nosuch";
              if (!survives([&]() { P->SetParams(n, 1.0); }) && !survives([&]() { P->GetParamIndex(n); })) emit(Ev("Refused").s("what", "name").s("n", n).i("v", 1)); else emit(Ev("Accepted")); }
            else if (k % 3 == 1)
            { Array<int> I(2); I[0] = 0; I[1] = 1; Vector V(r.flip() ? 1 : 3); V = 1.0; vector<long> v(V.Size(), 300);
              if (!survives([&]() { P->SetParams(I, V); })) emit(Ev("Refused").s("what", "index").ai("ix", vector<long>{0, 1}).ai("v", v)); else emit(Ev("Accepted")); }
            else
            { string p = r.flip() ? "poisson" : "stokes"; YAML::Node old = YAML::Clone(config.dict_); 
              if (!survives([&]() { select(p); delete InitParameterizedProblem(); })) emit(Ev("Refused").s("what", "problem").s("p", p)); else emit(Ev("Accepted")); }
         }
         else if (op == "eval" && ev) { Rng r(o["seed"].as<int>() + 1); evalAll(r, o["dim"].as<int>()); }
      }
   }
   P.reset();
   return 0;
}
