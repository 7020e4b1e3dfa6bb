// Builds a simulation from deck.yaml and writes its tangent together with differences of its internal force.
// Script: "run" executes the deck's solvers; "dt v" sets the time step; "u ..." sets the displacement of every point (three numbers
// per point in the order of the ids); "store" makes the current state the state of the last completed step;
// "lib h" writes the tangent and the force differences obtained with the library functions;
// "nox h" the same through the interface of the nonlinear solver; "kept h" the tangent left by the solvers and force differences.
#include <Epetra_ConfigDefs.h>
#include <Epetra_FECrsMatrix.h>
#include <Epetra_Map.h>
#include <Epetra_Vector.h>
#include <Teuchos_RCP.hpp>
#include <mpi.h>
#include <cstdio>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include "Peridigm.hpp"
#include "Peridigm_Factory.hpp"
using namespace std;
using Teuchos::RCP;

static RCP<PeridigmNS::Peridigm> sim;
static vector<double> disp;
static double dt = 1.0;
static FILE* out;

static int nPoints(){ return sim->getX()->Map().NumGlobalElements(); }

// displacement of every point, one component of one point moved by h
static void place(int col, double h){
  const Epetra_BlockMap& map = sim->getX()->Map();
  Epetra_Vector &x = *sim->getX(), &u = *sim->getU(), &y = *sim->getY(), &v = *sim->getV();
  for(int i=0 ; i<map.NumMyElements() ; ++i)
    for(int c=0 ; c<3 ; ++c){
      int g = 3*map.GID(i) + c;
      u[3*i+c] = disp[g] + (g == col ? h : 0.0);
      y[3*i+c] = x[3*i+c] + u[3*i+c];
      v[3*i+c] = g == col ? h/dt : 0.0;
    }
}

static void matrix(){
  RCP<const Epetra_FECrsMatrix> k = sim->getTangentStiffnessMatrix();
  for(int r=0 ; r<k->NumMyRows() ; ++r){
    int n, *cols;
    double* vals;
    k->ExtractMyRowView(r, n, vals, cols);
    fprintf(out, "R %d", k->GRID(r));
    for(int j=0 ; j<n ; ++j) fprintf(out, " %d %.17g", k->GCID(cols[j]), vals[j]);
    fprintf(out, "\n");
  }
}

static void column(int col, const Epetra_BlockMap& map, int size, const vector<double>& d){
  for(int i=0 ; i<(int)d.size() ; ++i)
    if(d[i] != 0.0) fprintf(out, "D %d %d %.17g\n", size == 1 ? map.GID(i) : 3*map.GID(i/3) + i%3, col, d[i]);
}

static void byForces(double h){
  for(int col=0 ; col<3*nPoints() ; ++col){
    vector<double> d(sim->getForce()->MyLength());
    for(int s=0 ; s<2 ; ++s){
      place(col, s ? -h : h);
      sim->computeInternalForce();
      for(size_t i=0 ; i<d.size() ; ++i) d[i] += (s ? -1 : 1) * (*sim->getForce())[i] / (2*h);
    }
    column(col, sim->getForce()->Map(), 3, d);
  }
  place(-1, 0.0);
  sim->computeInternalForce();
}

static void byResidual(double h){
  const Epetra_Map& map = sim->getTangentStiffnessMatrix()->RowMap();
  Epetra_Vector s(map), f(map);
  RCP<const Epetra_FECrsMatrix> k = sim->getTangentStiffnessMatrix();
  sim->getU()->PutScalar(0.0);
  for(int i=0 ; i<map.NumMyElements() ; ++i) s[i] = disp[map.GID(i)];
  sim->m_noxTriggerJacobianUpdate = 1;
  sim->m_noxJacobianUpdateCounter = 0;
  sim->computeF(s, f);
  sim->computeJacobian(s, const_cast<Epetra_FECrsMatrix&>(*k));
  matrix();
  for(int col=0 ; col<3*nPoints() ; ++col){
    vector<double> d(f.MyLength());
    for(int g=0 ; g<2 ; ++g){
      int l = map.LID(col);
      if(l >= 0) s[l] = disp[col] + (g ? -h : h);
      sim->computeF(s, f);
      if(l >= 0) s[l] = disp[col];
      for(size_t i=0 ; i<d.size() ; ++i) d[i] += (g ? -1 : 1) * f[i] / (2*h);
    }
    column(col, map, 1, d);
  }
  sim->computeF(s, f);
}

int main(int argc, char** argv){
  int rank, status = 0;
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  ostringstream name;
  name << "dump." << rank;
  out = fopen(name.str().c_str(), "w");
  try {
    PeridigmNS::PeridigmFactory factory;
    sim = factory.create("deck.yaml", MPI_COMM_WORLD);
    disp.assign(3*nPoints(), 0.0);
    const Epetra_BlockMap& map = sim->getX()->Map();
    fprintf(out, "O");
    for(int i=0 ; i<map.NumMyElements() ; ++i) fprintf(out, " %d", map.GID(i));
    fprintf(out, "\n");
    ifstream in("script");
    string text, op;
    while(getline(in, text)){
      istringstream ss(text);
      ss >> op;
      double h = 0.0;
      if(op == "run") sim->executeSolvers();
      else if(op == "dt"){ ss >> dt; sim->setTimeStep(dt); }
      else if(op == "u"){ for(size_t i=0 ; i<disp.size() ; ++i) ss >> disp[i]; }
      else if(op == "store"){ place(-1, 0.0); sim->computeInternalForce(); sim->updateState(); }
      else {
        ss >> h;
        fprintf(out, "M %s\n", op.c_str());
        if(op == "lib"){ place(-1, 0.0); sim->computeInternalForce(); sim->evaluateTangentStiffnessMatrix(); matrix(); byForces(h); }
        else if(op == "nox") byResidual(h);
        else if(op == "kept"){ matrix(); byForces(h); }
      }
    }
    fprintf(out, "END\n");
    sim = Teuchos::null;
  }
  catch(exception& e){ cout << e.what() << endl; status = 10; }
  fclose(out);
  if(status) MPI_Abort(MPI_COMM_WORLD, status);
  MPI_Finalize();
  return status;
}
