// Histories of starts, stops, misuse and reports of real TimeProfilers on one or more ranks.  argv: scenario file
#include "mfem.hpp"
#include "etc.hpp"
#include "trace.hpp"
#include <map>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
using namespace std;
using namespace vt;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e6 + t.tv_nsec * 1e-3; }
static int rk, np;
template<class F> static bool survives(F f)
{
   fflush(stdout); fflush(stderr);
   pid_t p = fork();
   if (p == 0)
   {
      for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) signal(s, SIG_DFL);
      int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
      f(); _exit(0);
   }
   int st = 0; waitpid(p, &st, 0);
   return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// everything all ranks print during f, on rank 0
template<class F> static vector<string> captured(F f)
{
   fflush(stdout);
   int old = dup(1); string fn = "out." + to_string(rk);
   int n = open(fn.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); dup2(n, 1); close(n);
   f();
   fflush(stdout); dup2(old, 1); close(old);
   MPI_Barrier(MPI_COMM_WORLD);
   vector<string> r;
   if (rk == 0) for (int k = 0; k < np; k++) { ifstream in("out." + to_string(k)); string l; while (getline(in, l)) r.push_back(l); }
   MPI_Barrier(MPI_COMM_WORLD);
   return r;
}
static string trim(string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static void report(Ev &e, const vector<string> &lines, const string &title, bool sum)
{
   vector<string> rows; long nt = 0, ns = 0, other = 0, stime = 0;
   for (const string &l : lines)
   {
      if (l == title) { nt++; continue; }
      if (l.empty() || l.find_first_not_of('=') == string::npos) continue;
      vector<string> f; stringstream ss(l); string x; while (getline(ss, x, '\t')) f.push_back(trim(x));
      if (f.size() != 4) { other++; continue; }
      if (f[0] == "Function") continue;
      if (f[0] == "Total time") { ns++; stime = fx(atof(f[1].c_str()), 1e6); continue; }
      Ev w("row"); w.s("n", f[0]).i("time", fx(atof(f[1].c_str()), 1e6)).i("calls", atol(f[2].c_str())).i("each", fx(atof(f[3].c_str()), 1e6));
      rows.push_back(w.str());
   }
   e.i("ntitle", nt).i("others", other).raw("rows", jarr(rows)).b("sum", sum).i("nsum", ns).i("stime", stime);
}
int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   MPI_Comm_rank(MPI_COMM_WORLD, &rk); MPI_Comm_size(MPI_COMM_WORLD, &np);
   ifstream in(argv[1]); string line; int count = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node sc = YAML::Load(line);
      map<int, string> mine;
      vector<long> ranks; for (int k = 0; k < np; k++) ranks.push_back(k);
      string title = "profile " + to_string(count);
      // half of the runs use a communicator in which the ranks are reversed
      MPI_Comm comm = MPI_COMM_WORLD; bool rev = count++ % 2;
      if (rev) MPI_Comm_split(MPI_COMM_WORLD, 0, np - rk, &comm);
      { Ev b("Begin"); b.ai("ranks", ranks); mine[-1] = b.str(); }
      TimeProfiler *p = new TimeProfiler(rev ? "other" : title, comm);
      if (rev) p->SetTitle(title);
      map<string, double> t0, t1;
      for (int i = 0; i < (int) sc.size(); i++)
      {
         string op = sc[i]["op"].as<string>(), n = sc[i]["n"].as<string>(); int r = sc[i]["r"].as<int>(), k = sc[i]["k"].as<int>();
         bool me = r == rk;
         if (op == "Start" && me)
         { t0[n] = now(); p->Start(n); t1[n] = now(); Ev e("Start"); e.i("r", rk).s("n", n); mine[i] = e.str(); if (k % 3 == 0) { double w = now(); while (now() - w < 150.0 * k); } }
         else if (op == "Stop" && me)
         { double a = now() - t1[n]; p->Stop(n); double b = now() - t0[n]; Ev e("Stop"); e.i("r", rk).s("n", n).i("lo", (long) a).i("hi", (long) b + 1); mine[i] = e.str(); }
         else if (op.substr(0, 3) == "Bad" && me)
         {
            string w = op.substr(3);
            bool ok = survives([&]() { if (w == "Start") p->Start(n); else if (w == "Stop") p->Stop(n); else p->Print("x"); });
            Ev e("Bad"); e.s("what", w).i("r", rk).s("n", n).b("accepted", ok); mine[i] = e.str();
         }
         else if (op == "Print")
         {
            string t = "report " + to_string(i); bool sum = k % 2;
            vector<string> out = captured([&]() { if (sum) p->Print(t, true); else p->Print(t); });
            if (rk == 0) { Ev e("Print"); report(e, out, t, sum); mine[i] = e.str(); }
         }
         else if (op == "End")
         {
            bool on = k % 2;
            config.dict_ = YAML::Node(); if (k < 2) config.dict_["time_profile"][title] = on; else if (on) config.SetOption<bool>("time_profile/" + title, true);
            config.dict_["time_profile"]["another"] = true;
            vector<string> out = captured([&]() { delete p; });
            if (rk == 0) { Ev e("End"); e.b("on", on); report(e, out, title, false); mine[i] = e.str(); }
         }
      }
      if (rev) MPI_Comm_free(&comm);
      // collect in scenario order
      string all; for (auto &x : mine) all += to_string(x.first) + " " + x.second + "\n";
      if (rk) { int n = all.size(); MPI_Send(&n, 1, MPI_INT, 0, 7, MPI_COMM_WORLD); MPI_Send(&all[0], n, MPI_CHAR, 0, 8, MPI_COMM_WORLD); }
      else
      {
         for (int k = 1; k < np; k++)
         {
            int n; MPI_Recv(&n, 1, MPI_INT, k, 7, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
            string s(n, ' '); MPI_Recv(&s[0], n, MPI_CHAR, k, 8, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
            stringstream ss(s); string l; while (getline(ss, l)) { size_t q = l.find(' '); int at = atoi(l.c_str()); if (at >= 0) mine[at] = l.substr(q + 1); }
         }
         for (auto &x : mine) fprintf(tf(), "%s\n", x.second.c_str());
         fflush(tf());
      }
   }
   MPI_Finalize();
   return 0;
}
