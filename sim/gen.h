#pragma once
#include "sim.h"
// Input generation and per-function corpus.
typedef std::vector<Bytes> Vals;                  // one entry per argument
struct Gen {
  std::vector<float> dict; std::map<std::string, std::vector<float>> fdict; std::vector<const std::vector<float> *> fnd; const std::vector<float> *local = nullptr; // constants of the whole library, of one header
  std::vector<std::vector<Vals>> corpus;          // per function
  std::vector<int> base, layer; std::map<std::string, std::vector<int>> by_base, by_file, by_word;
  std::vector<int> calls;                         // functions that do not print
  std::vector<char> prints;
  void init(const char *dictfile);
  Vals make(int fn, Rng &r, int style);           // style: -1 mixed, 6 hostile
  Vals pick(int fn, Rng &r, bool hostile);        // corpus or fresh or mutated
  void mutate(int fn, Vals &v, Rng &r, bool one); // one component of one argument
  std::vector<std::vector<int>> mates; std::vector<int> allhot; size_t nmates = 0; void find_mates();
  int partner(int fn, Rng &r);
  void warm(int fn, Rng &r, int n);
  void learn(const Scenario &sc);                 // keeps the inputs of a run that reached new code
  void aim(int fn, Rng &r);                       // inputs aimed at the comparisons the code makes
  void keep(int fn, const Vals &v, Rng &r);
  bool tryvals(int fn, Rng &r, const Vals &v);
  float flt(Rng &r, int style);
  void floats(Rng &r, float *f, int n, int style);
  Bytes value(int fn, int i, Rng &r, int style, const Vals &sofar);
};
extern Gen G;
// Builds scenarios.
struct Builder {
  Scenario sc; Rng &r; std::vector<int> owner;    // owner: -1 shared input, else context id
  explicit Builder(Rng &rr) : r(rr) {}
  int obj(int type, int count, const Bytes &b, int own, bool ro);
  // alias: chance that an output is one of the call's own private inputs
  int op(int fn, int ctx, const Vals &v, double share, double alias, double ropr, bool reuse_private = false);
};
std::string fname(int fn);
u32 vlen(int fn, int i, const Vals &v);
