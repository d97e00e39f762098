// Loads configurations in a parallel run of the real InputParser; every rank records what it holds.
// argv: scenario file (JSON lines: {"text":..., "forced":..., "where": ...}).  Only rank 0 sees the real file.
#include "input_parser.hpp"
#include "trace.hpp"
#include "cfgdump.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace std;
using namespace vt;

int main(int argc, char **argv)
{
   MPI_Init(&argc, &argv);
   int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   string tr = string(getenv("VERIF_TRACE")) + "." + to_string(rank);
   FILE *f = fopen(tr.c_str(), "w");
   if (!f) harness_error("trace");
   ifstream in(argv[1]);
   string dir = "rank" + to_string(rank);
   mkdir(dir.c_str(), 0755);
   if (chdir(dir.c_str())) harness_error("chdir");
   string line; int k = 0;
   while (getline(in, line))
   {
      if (line.empty()) continue;
      YAML::Node sc = YAML::Load(line);
      remove("input.yml");
      if (rank == 0) { ofstream o("input.yml"); o << sc["text"].as<string>(); }
      else if (sc["decoy"].as<bool>()) { ofstream o("input.yml"); o << "decoy: " << rank << "\n"; }
      MPI_Barrier(MPI_COMM_WORLD);
      if (sc["late"].as<int>() == rank) usleep(3000);     // vary the order in which ranks arrive
      {
         InputParser c("input.yml", sc["forced"].as<string>());
         Ev e("Rank"); e.i("k", k).i("rank", rank).raw("dump", dump(c));
         fprintf(f, "%s\n", e.str().c_str()); fflush(f);
      }
      k++;
      MPI_Barrier(MPI_COMM_WORLD);
   }
   fclose(f);
   MPI_Finalize();
   return 0;
}
