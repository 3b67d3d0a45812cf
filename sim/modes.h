#pragma once
#include "gen.h"
struct Found { bool any = false; std::string cls, text; int op = -1; };
struct Mode { const char *prop; u32 mon; u64 cap; };
struct Ctx { std::string prop; Rng r; u64 seed; std::string variant; bool thorough = false; };
// scenario construction and judging, per property
bool build(const std::string &prop, int fn, Rng &r, Scenario &sc, Exec &ex, int round);
Found judge(Scenario &sc, Result &res);
Found run_judge(Scenario &sc, Exec &ex, Result &res);  // execute + judge
Exec replay_exec(const Scenario &sc);
bool nontrivial(const Scenario &sc, const Result &res);
std::string to_text(const Scenario &sc, const Found &f, u64 hash);
bool from_text(const char *path, Scenario &sc, std::string &cls, u64 &hash);
void minimise(Scenario &sc, const Found &f, int budget);
std::string sample(const Scenario &sc, const Result &res);
// prints
bool is_print_prop(const std::string &p);
bool print_build(const std::string &prop, Rng &r, Scenario &sc, Exec &ex, int round, const std::string &variant);
Found print_judge(Scenario &sc, Exec &ex, Result &res);
extern std::map<std::string, u64> g_counts;
