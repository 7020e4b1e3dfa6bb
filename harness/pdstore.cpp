// Runs a script of operations on blocks and their data managers and writes their complete contents after every operation.
// Ids in scripts and output start at 1; every rank writes its own part to dump.<rank>.
#include <Epetra_ConfigDefs.h>
#include <Epetra_MpiComm.h>
#include <Epetra_Import.h>
#include <Epetra_Vector.h>
#include <Teuchos_ParameterList.hpp>
#include <mpi.h>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <vector>
#include "Peridigm_ContactBlock.hpp"
#include "Peridigm_Field.hpp"
#include "Peridigm_NeighborhoodData.hpp"
using namespace PeridigmNS;
using namespace std;
typedef Teuchos::RCP<const Epetra_BlockMap> MapPtr;

struct Dist { vector<int> owner, perm; vector< vector<int> > fam; };
struct Maps { MapPtr own, over, own3, over3, bond; Teuchos::RCP<Epetra_Vector> blocks; Teuchos::RCP<NeighborhoodData> nbr; };

class Store : public ContactBlock {
public:
  Store(string name, int id, Teuchos::ParameterList& p) : ContactBlock(name, id, p) {}
  void start(Maps& m, vector<int> fields){
    BlockBase::initialize(m.own, m.over, m.own3, m.over3, m.bond, m.blocks, m.nbr);
    initializeDataManager(fields);
  }
  vector<int> fields;           // positions in the list of fields
  int dist;
  Teuchos::RCP<Epetra_Vector> mother[2];
};

static int nPoints, rankId, nRanks;
static vector<int> blk;
static vector<Dist> dists;
static vector<int> fieldId;
static Epetra_MpiComm* comm;

static MapPtr makeMap(const vector<int>& ids, int size){
  int dummy = 0;
  return Teuchos::rcp(new Epetra_BlockMap(-1, ids.size(), ids.empty() ? &dummy : const_cast<int*>(&ids[0]), size, 0, *comm));
}

static Maps makeMaps(const Dist& d){
  vector<int> own, over, bondIds, bondSizes;
  set<int> ghosts;
  for(size_t i=0 ; i<d.perm.size() ; ++i){
    int g = d.perm[i];
    if(d.owner[g] != rankId) continue;
    own.push_back(g);
    if(!d.fam[g].empty()){ bondIds.push_back(g); bondSizes.push_back(d.fam[g].size()); }
    ghosts.insert(d.fam[g].begin(), d.fam[g].end());
  }
  over = own;
  for(size_t i=0 ; i<d.perm.size() ; ++i)
    if(ghosts.count(d.perm[i]) && d.owner[d.perm[i]] != rankId) over.push_back(d.perm[i]);
  Maps m;
  m.own = makeMap(own, 1); m.over = makeMap(over, 1); m.own3 = makeMap(own, 3); m.over3 = makeMap(over, 3);
  int dummy = 0;
  m.bond = Teuchos::rcp(new Epetra_BlockMap(-1, bondIds.size(), bondIds.empty() ? &dummy : &bondIds[0],
                                            bondSizes.empty() ? &dummy : &bondSizes[0], 0, *comm));
  m.blocks = Teuchos::rcp(new Epetra_Vector(*m.own));
  vector<int> list, ptr;
  for(size_t i=0 ; i<own.size() ; ++i){
    (*m.blocks)[i] = blk[own[i]];
    ptr.push_back(list.size());
    list.push_back(d.fam[own[i]].size());
    for(size_t j=0 ; j<d.fam[own[i]].size() ; ++j) list.push_back(m.over->LID(d.fam[own[i]][j]));
  }
  m.nbr = Teuchos::rcp(new NeighborhoodData);
  m.nbr->SetNumOwned(own.size());
  m.nbr->SetNeighborhoodListSize(list.size());
  for(size_t i=0 ; i<own.size() ; ++i){ m.nbr->OwnedIDs()[i] = i; m.nbr->NeighborhoodPtr()[i] = ptr[i]; }
  copy(list.begin(), list.end(), m.nbr->NeighborhoodList());
  return m;
}

static PeridigmField::Step stepOf(const string& s){
  return s == "N" ? PeridigmField::STEP_N : s == "NP1" ? PeridigmField::STEP_NP1 : PeridigmField::STEP_NONE;
}

static void put(Epetra_Vector& v, int lid, istringstream& in){
  double x;
  for(int i=v.Map().FirstPointInElement(lid) ; in >> x ; ++i) v[i] = x;
}

static void line(FILE* out, const char* head, Epetra_Vector& v, int lid, int size){
  fprintf(out, "%s", head);
  for(int i=0 ; i<size ; ++i) fprintf(out, " %.17g", v[v.Map().FirstPointInElement(lid)+i]);
  fprintf(out, "\n");
}

static void dump(FILE* out, vector<Store*>& stores){
  char head[100];
  fprintf(out, "D\n");
  set<int> globals;
  const char* names[] = {"NONE", "N", "NP1"};
  for(size_t k=0 ; k<stores.size() ; ++k){
    Store& s = *stores[k];
    for(size_t f=0 ; f<fieldId.size() ; ++f){
      FieldSpec spec = FieldManager::self().getFieldSpec(fieldId[f]);
      for(int i=0 ; i<3 ; ++i){
        bool has = s.hasData(fieldId[f], stepOf(names[i]));
        fprintf(out, "H %d %d %s %d\n", (int)k+1, (int)f+1, names[i], has);
        if(!has) continue;
        Epetra_Vector& v = *s.getData(fieldId[f], stepOf(names[i]));
        if(spec.getRelation() == PeridigmField::GLOBAL){
          sprintf(head, "G %d %d %s", (int)k+1, (int)f+1, names[i]);
          line(out, head, v, 0, v.MyLength());
        }
        else for(int l=0 ; l<v.Map().NumMyElements() ; ++l){
          sprintf(head, "V %d %d %s %d", (int)k+1, (int)f+1, names[i], v.Map().GID(l)+1);
          line(out, head, v, l, v.Map().ElementSize(l));
        }
      }
    }
    for(int w=0 ; w<2 ; ++w)
      for(int l=0 ; l<s.mother[w]->Map().NumMyElements() ; ++l){
        sprintf(head, "M %d %d %d", (int)k+1, w+1, s.mother[w]->Map().GID(l)+1);
        line(out, head, *s.mother[w], l, w ? 3 : 1);
      }
    Teuchos::RCP<NeighborhoodData> n = s.getNeighborhoodData();
    for(int i=0 ; i<n->NumOwnedPoints() ; ++i){
      int* p = n->NeighborhoodList() + n->NeighborhoodPtr()[i];
      fprintf(out, "F %d %d", (int)k+1, s.getOverlapScalarPointMap()->GID(n->OwnedIDs()[i])+1);
      for(int j=1 ; j<=p[0] ; ++j) fprintf(out, " %d", s.getOverlapScalarPointMap()->GID(p[j])+1);
      fprintf(out, "\n");
    }
  }
}

int main(int argc, char** argv){
  MPI_Init(&argc, &argv);
  {
  Epetra_MpiComm c(MPI_COMM_WORLD);
  comm = &c;
  rankId = c.MyPID();
  nRanks = c.NumProc();
  ifstream in("script");
  ostringstream name;
  name << "dump." << rankId;
  FILE* out = fopen(name.str().c_str(), "w");
  vector<Store*> stores;
  string text, op;
  Teuchos::ParameterList params;
  while(getline(in, text)){
    istringstream ss(text);
    ss >> op;
    int a, b, k, f, r, g;
    string st;
    if(op == "points"){ ss >> nPoints; blk.resize(nPoints); for(int i=0 ; i<nPoints ; ++i) ss >> blk[i]; continue; }
    if(op == "dist"){
      dists.push_back(Dist());
      Dist& d = dists.back();
      d.fam.resize(nPoints);
      for(int i=0 ; i<nPoints ; ++i){ ss >> a; d.owner.push_back(a-1); }
      for(int i=0 ; i<nPoints ; ++i){ ss >> a; d.perm.push_back(a-1); }
      continue;
    }
    if(op == "fam"){ ss >> g; while(ss >> a) dists.back().fam[g-1].push_back(a-1); continue; }
    if(op == "field"){
      string label;
      ss >> a >> b >> k >> label;
      fieldId.push_back(FieldManager::self().getFieldId(PeridigmField::Relation(a), PeridigmField::Length(b), PeridigmField::Temporal(k), label));
      continue;
    }
    if(op == "store"){
      ss >> b >> k;
      ostringstream nm;
      nm << "block_" << b;
      Store* s = new Store(nm.str(), b, params);
      s->dist = k-1;
      vector<int> ids;
      while(ss >> f){ s->fields.push_back(f-1); ids.push_back(fieldId[f-1]); }
      Maps m = makeMaps(dists[s->dist]);
      s->start(m, ids);
      s->mother[0] = Teuchos::rcp(new Epetra_Vector(*m.own));
      s->mother[1] = Teuchos::rcp(new Epetra_Vector(*m.own3));
      stores.push_back(s);
      continue;
    }
    if(op == "W"){
      ss >> k >> f >> st >> r >> g;
      if(r-1 == rankId){
        Epetra_Vector& v = *stores[k-1]->getData(fieldId[f-1], stepOf(st));
        put(v, v.Map().LID(g-1), ss);
      }
    }
    else if(op == "X"){
      ss >> k >> f >> st >> r;
      if(r-1 == rankId) put(*stores[k-1]->getData(fieldId[f-1], stepOf(st)), 0, ss);
    }
    else if(op == "M"){
      ss >> k >> a >> g;
      Epetra_Vector& v = *stores[k-1]->mother[a-1];
      if(v.Map().LID(g-1) >= 0) put(v, v.Map().LID(g-1), ss);
    }
    else if(op == "I"){
      ss >> k >> f >> st >> a;
      stores[k-1]->importData(stores[k-1]->mother[a-1], fieldId[f-1], stepOf(st), Insert);
    }
    else if(op == "E"){
      ss >> k >> f >> st >> a >> b;
      if(b) stores[k-1]->mother[a-1]->PutScalar(0.0);
      stores[k-1]->exportData(stores[k-1]->mother[a-1], fieldId[f-1], stepOf(st), b ? Add : Insert);
    }
    else if(op == "U"){ ss >> k; stores[k-1]->updateState(); }
    else if(op == "S"){ ss >> k; stores[k-1]->getDataManager()->scatterToGhosts(); }
    else if(op == "C"){ ss >> k >> a; stores[k-1]->getDataManager()->copyLocallyOwnedDataFromDataManager(*stores[a-1]->getDataManager()); }
    else if(op == "R"){
      ss >> k >> a;
      Store& s = *stores[k-1];
      s.dist = a-1;
      Maps m = makeMaps(dists[s.dist]);
      s.rebalance(m.own, m.over, m.own3, m.over3, m.bond, m.blocks, m.nbr);
      for(int w=0 ; w<2 ; ++w){
        Teuchos::RCP<Epetra_Vector> moved = Teuchos::rcp(new Epetra_Vector(w ? *m.own3 : *m.own));
        Epetra_Import imp(moved->Map(), s.mother[w]->Map());
        moved->Import(*s.mother[w], imp, Insert);
        s.mother[w] = moved;
      }
    }
    dump(out, stores);
  }
  fprintf(out, "END\n");
  fclose(out);
  for(size_t i=0 ; i<stores.size() ; ++i) delete stores[i];
  }
  MPI_Finalize();
  return 0;
}
