// Runs sequences of requests on the field registry.  Each sequence starts with the registry of a new process; a request is
// first tried in a child process, because a refusal may end the process.  The whole registry is written after each request.
// Input (file "requests"): "seq" starts a sequence; "R relation length temporal label", "L label", "I id", "H label".
#include "Peridigm_Field.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
using namespace PeridigmNS;
using namespace std;

struct Request { char kind; int rel, len, tmp, id; string label; };

static const int REFUSED = -1;

static int perform(const Request& q){
  FieldManager& m = FieldManager::self();
  if(q.kind == 'R') return m.getFieldId(PeridigmField::Relation(q.rel), PeridigmField::Length(q.len), PeridigmField::Temporal(q.tmp), q.label);
  if(q.kind == 'L'){ int a = m.getFieldId(q.label), b = m.getFieldSpec(q.label).getId(); return a == b ? a : -7; }
  if(q.kind == 'I') return m.getFieldSpec(q.id).getId();
  return m.hasField(q.label);
}

static int attempt(const Request& q){
  fflush(NULL);
  pid_t p = fork();
  if(p == 0){
    if(!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(9);
    try { perform(q); } catch(...) { _exit(3); }
    _exit(0);
  }
  int status = 0;
  if(p < 0 || waitpid(p, &status, 0) != p) exit(77);
  if(WIFSIGNALED(status)) return WTERMSIG(status) == SIGABRT ? REFUSED : -8;
  if(WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 3) return REFUSED;
  try { return perform(q); } catch(...) { return REFUSED; }
}

static void spec(FILE* out, const char* head, const FieldSpec& s){
  fprintf(out, "%s %d %d %d %d %s\n", head, s.getId(), s.getRelation(), s.getLength(), s.getTemporal(), s.getLabel().c_str());
}

static void dump(FILE* out){
  FieldManager& m = FieldManager::self();
  vector<FieldSpec> all = m.getFieldSpecs(), global = m.getGlobalFieldSpecs();
  vector<string> labels = m.getFieldLabels();
  for(size_t i=0 ; i<all.size() ; ++i){
    spec(out, "S", all[i]);
    spec(out, "J", m.getFieldSpec(all[i].getId()));
    spec(out, "N", m.getFieldSpec(all[i].getLabel()));
    fprintf(out, "G %d %d\n", all[i].getId(), (int)m.isGlobalSpec(all[i].getId()));
    fprintf(out, "K %d %d %s\n", m.hasField(all[i].getLabel()) ? 1 : 0, m.getFieldId(all[i].getLabel()), all[i].getLabel().c_str());
  }
  for(size_t i=0 ; i<global.size() ; ++i) spec(out, "W", global[i]);
  for(size_t i=0 ; i<labels.size() ; ++i) fprintf(out, "B %s\n", labels[i].c_str());
}

int main(int argc, char** argv){
  ifstream in("requests");
  vector< vector<Request> > seqs;
  string text;
  while(getline(in, text)){
    istringstream ss(text);
    string op;
    ss >> op;
    if(op == "seq"){ seqs.push_back(vector<Request>()); continue; }
    Request q;
    q.kind = op[0];
    q.rel = q.len = q.tmp = q.id = 0;
    if(op == "R") ss >> q.rel >> q.len >> q.tmp;
    if(op == "I") ss >> q.id;
    else { ss >> ws; getline(ss, q.label); }
    seqs.back().push_back(q);
  }
  for(size_t i=0 ; i<seqs.size() ; ++i){
    pid_t p = fork();
    if(p == 0){
      ostringstream name;
      name << "registry." << i;
      FILE* out = fopen(name.str().c_str(), "w");
      fprintf(out, "D 0\n");
      dump(out);
      for(size_t k=0 ; k<seqs[i].size() ; ++k){
        int r = attempt(seqs[i][k]);
        fprintf(out, "D %d\n", r);
        dump(out);
      }
      fprintf(out, "END\n");
      fclose(out);
      _exit(0);
    }
    int status = 0;
    if(p < 0 || waitpid(p, &status, 0) != p) return 77;
  }
  return 0;
}
