// A topology given by its component types and port list alone (no meshes).
#ifndef VERIF_FAKETOPO_HPP
#define VERIF_FAKETOPO_HPP
#include "topology_handler.hpp"
#include <vector>
#include <string>
using namespace mfem;
using namespace std;
class FakeTopology : public TopologyHandler
{
public:
   FakeTopology(const vector<int> &types, const vector<vector<int>> &ps, const vector<string> &names)
      : TopologyHandler(TopologyHandlerMode::COMPONENT)
   {
      numSub = types.size();
      num_comp = names.size();
      comp_names = names;
      mesh_types.SetSize(numSub);
      for (int m = 0; m < numSub; m++) mesh_types[m] = types[m] - 1;
      num_ports = ps.size();
      port_infos.SetSize(num_ports);
      for (int p = 0; p < num_ports; p++)
      {
         port_infos[p].PortAttr = 5 + p;
         port_infos[p].Mesh1 = ps[p][0] - 1;
         port_infos[p].Mesh2 = ps[p][1] - 1;
         port_infos[p].Attr1 = ps[p][2];
         port_infos[p].Attr2 = ps[p][3];
      }
   }
   Mesh *GetMesh(const int) override { return NULL; }
   Mesh *GetGlobalMesh() override { return NULL; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override { }
   void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override { }
};
#endif
