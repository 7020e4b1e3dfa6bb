// Moves points with their coordinates, volumes and families between ranks and writes where everything is after each operation.
// Script (ids start at 1): "points n", n lines "p owner x y z volume neighbors...", then operations:
// "B" balances the load; "T owner1..n perm1..n" moves the neighbor lists to the given owners (the rest is moved by this driver).
#include <Epetra_ConfigDefs.h>
#include <Epetra_BlockMap.h>
#include <Epetra_Import.h>
#include <Epetra_MpiComm.h>
#include <Epetra_Vector.h>
#include <Teuchos_RCP.hpp>
#include <mpi.h>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <vector>
#include "Peridigm_ProximitySearch.hpp"
#include "PdZoltan.h"
#include "quick_grid/QuickGrid.h"
using namespace std;
using QUICKGRID::QuickGridData;

struct Point { int id; double x[3], v; vector<int> fam; };
static Epetra_MpiComm* comm;
static int nPoints;

static QuickGridData make(const vector<Point>& pts){
  QuickGridData d = QUICKGRID::allocatePdGridData(pts.size(), 3);
  d.globalNumPoints = nPoints;
  int size = 0;
  for(size_t i=0 ; i<pts.size() ; ++i) size += 1 + pts[i].fam.size();
  d.sizeNeighborhoodList = size;
  d.neighborhood = shared_ptr<int>(new int[size+1], [](int* p){ delete [] p; });
  int k = 0;
  for(size_t i=0 ; i<pts.size() ; ++i){
    d.myGlobalIDs.get()[i] = pts[i].id;
    for(int j=0 ; j<3 ; ++j) d.myX.get()[3*i+j] = pts[i].x[j];
    d.cellVolume.get()[i] = pts[i].v;
    d.neighborhoodPtr.get()[i] = k;
    d.neighborhood.get()[k++] = pts[i].fam.size();
    for(size_t j=0 ; j<pts[i].fam.size() ; ++j) d.neighborhood.get()[k++] = pts[i].fam[j];
  }
  return d;
}

static vector<Point> read(const QuickGridData& d){
  vector<Point> out(d.numPoints);
  for(size_t i=0 ; i<d.numPoints ; ++i){
    out[i].id = d.myGlobalIDs.get()[i];
    for(int j=0 ; j<3 ; ++j) out[i].x[j] = d.myX.get()[3*i+j];
    out[i].v = d.cellVolume.get()[i];
    int* p = d.neighborhood.get() + d.neighborhoodPtr.get()[i];
    if(p[0] < 0 || d.neighborhoodPtr.get()[i] + p[0] >= d.sizeNeighborhoodList){ out[i].fam.push_back(-100); continue; }
    out[i].fam.assign(p+1, p+1+p[0]);
  }
  return out;
}

static void dump(FILE* out, const vector<Point>& pts, const vector<int>* overlap){
  fprintf(out, "D\n");
  for(size_t i=0 ; i<pts.size() ; ++i){
    const Point& p = pts[i];
    fprintf(out, "P %d %.17g %.17g %.17g %.17g", p.id+1, p.x[0], p.x[1], p.x[2], p.v);
    for(size_t j=0 ; j<p.fam.size() ; ++j) fprintf(out, " %d", p.fam[j]+1);
    fprintf(out, "\n");
  }
  if(overlap){
    fprintf(out, "O");
    for(size_t i=0 ; i<overlap->size() ; ++i) fprintf(out, " %d", (*overlap)[i]+1);
    fprintf(out, "\n");
  }
}

static Teuchos::RCP<Epetra_BlockMap> makeMap(vector<int> ids, int size){
  int n = ids.size();
  ids.push_back(0);
  return Teuchos::rcp(new Epetra_BlockMap(-1, n, &ids[0], size, 0, *comm));
}

int main(int argc, char** argv){
  MPI_Init(&argc, &argv);
  {
  Epetra_MpiComm c(MPI_COMM_WORLD);
  comm = &c;
  ifstream in("script");
  ostringstream name;
  name << "dump." << c.MyPID();
  FILE* out = fopen(name.str().c_str(), "w");
  string text, op;
  vector<Point> pts;
  QuickGridData data;
  int seen = 0, a;
  while(getline(in, text)){
    istringstream ss(text);
    ss >> op;
    if(op == "points"){ ss >> nPoints; continue; }
    if(op == "p"){
      int owner;
      Point p;
      p.id = seen++;
      ss >> owner >> p.x[0] >> p.x[1] >> p.x[2] >> p.v;
      while(ss >> a) p.fam.push_back(a-1);
      if(owner-1 == c.MyPID()) pts.push_back(p);
      if(seen == nPoints){ data = make(pts); dump(out, pts, 0); }
      continue;
    }
    if(op == "B"){
      data = PDNEIGH::getLoadBalancedDiscretization(data);
      pts = read(data);
      dump(out, pts, 0);
      continue;
    }
    // "T"
    vector<int> owner(nPoints), perm(nPoints), current, overlap, list, target;
    for(int i=0 ; i<nPoints ; ++i){ ss >> owner[i]; --owner[i]; }
    for(int i=0 ; i<nPoints ; ++i){ ss >> perm[i]; --perm[i]; }
    for(int i=0 ; i<nPoints ; ++i) if(owner[perm[i]] == c.MyPID()) target.push_back(perm[i]);
    set<int> mine, far;
    for(size_t i=0 ; i<pts.size() ; ++i){ current.push_back(pts[i].id); mine.insert(pts[i].id); }
    for(size_t i=0 ; i<pts.size() ; ++i)
      for(size_t j=0 ; j<pts[i].fam.size() ; ++j) if(!mine.count(pts[i].fam[j])) far.insert(pts[i].fam[j]);
    overlap = current;
    overlap.insert(overlap.end(), far.rbegin(), far.rend());
    Teuchos::RCP<Epetra_BlockMap> curOwn = makeMap(current, 1), curOver = makeMap(overlap, 1), tarOwn = makeMap(target, 1), tarOver;
    for(size_t i=0 ; i<pts.size() ; ++i){
      list.push_back(pts[i].fam.size());
      for(size_t j=0 ; j<pts[i].fam.size() ; ++j) list.push_back(curOver->LID(pts[i].fam[j]));
    }
    int size = list.size(), newSize, *newList;
    list.push_back(0);
    PeridigmNS::ProximitySearch::RebalanceNeighborhoodList(curOwn, curOver, size, &list[0], tarOwn, tarOver, newSize, newList);
    // coordinates and volumes
    Teuchos::RCP<Epetra_BlockMap> cur4 = makeMap(current, 4), tar4 = makeMap(target, 4);
    Epetra_Vector from(*cur4), to(*tar4);
    for(size_t i=0 ; i<pts.size() ; ++i){ for(int j=0 ; j<3 ; ++j) from[4*i+j] = pts[i].x[j]; from[4*i+3] = pts[i].v; }
    Epetra_Import importer(*tar4, *cur4);
    to.Import(from, importer, Insert);
    pts.resize(target.size());
    int k = 0;
    for(size_t i=0 ; i<target.size() ; ++i){
      pts[i].id = target[i];
      for(int j=0 ; j<3 ; ++j) pts[i].x[j] = to[4*i+j];
      pts[i].v = to[4*i+3];
      pts[i].fam.clear();
      int n = k < newSize ? newList[k++] : -1;
      if(n < 0 || k + n > newSize){ pts[i].fam.push_back(-100); continue; }
      for(int j=0 ; j<n ; ++j){ int lid = newList[k++]; pts[i].fam.push_back(lid >= 0 && lid < tarOver->NumMyElements() ? tarOver->GID(lid) : -100); }
    }
    if(k != newSize) pts.resize(0);
    delete [] newList;
    vector<int> over(tarOver->MyGlobalElements(), tarOver->MyGlobalElements() + tarOver->NumMyElements());
    data = make(pts);
    dump(out, pts, &over);
  }
  fprintf(out, "END\n");
  fclose(out);
  }
  MPI_Finalize();
  return 0;
}
