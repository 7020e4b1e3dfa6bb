// Runs a deck on a text-file mesh that carries the node sets listed in sets.txt (one "name:id id ..." per line, ids from 1),
// as a mesh format with node sets would provide them.
#include <fstream>
#include <iostream>
#include <sstream>
#include <Epetra_ConfigDefs.h>
#ifdef HAVE_MPI
#include <Epetra_MpiComm.h>
#else
#include <Epetra_SerialComm.h>
#endif
#include <Teuchos_YamlParameterListHelpers.hpp>
#include "Peridigm.hpp"
#include "Peridigm_HorizonManager.hpp"
#include "Peridigm_TextFileDiscretization.hpp"

using namespace std;

class Marked : public PeridigmNS::TextFileDiscretization {
public:
  Marked(const Teuchos::RCP<const Epetra_Comm>& comm, const Teuchos::RCP<Teuchos::ParameterList>& params)
    : PeridigmNS::TextFileDiscretization(comm, params) {
    Teuchos::RCP< map<string, vector<int> > > sets = getNodeSets();
    Teuchos::RCP<const Epetra_BlockMap> owned = getGlobalOwnedMap(1);
    ifstream in("sets.txt");
    string line;
    while(getline(in, line)){
      size_t colon = line.find(':');
      vector<int>& members = (*sets)[line.substr(0, colon)];
      istringstream ids(line.substr(colon + 1));
      int id;
      while(ids >> id)
        if(owned->LID(id - 1) != -1)
          members.push_back(id - 1);
    }
  }
};

int main(int argc, char *argv[]) {
  MPI_Init(&argc, &argv);
  int status = 0;
  try {
    Teuchos::RCP<Teuchos::ParameterList> params = Teuchos::rcp(new Teuchos::ParameterList());
    params->set("Verbose", false);
    Teuchos::updateParametersFromYamlFile(argv[1], params.ptr());
    Teuchos::RCP<const Epetra_Comm> comm = Teuchos::rcp(new Epetra_MpiComm(MPI_COMM_WORLD));
    PeridigmNS::HorizonManager::self().loadHorizonInformationFromBlockParameters(params->sublist("Blocks"));
    Teuchos::RCP<Teuchos::ParameterList> mesh = Teuchos::sublist(params, "Discretization");
    Teuchos::RCP<PeridigmNS::Discretization> disc = Teuchos::rcp(new Marked(comm, mesh));
    PeridigmNS::Peridigm peridigm(MPI_COMM_WORLD, params, disc);
    peridigm.executeSolvers();
  }
  catch(std::exception& e){
    cout << e.what() << endl;
    status = 10;
  }
  MPI_Finalize();
  return status;
}
