// Exploration core: exhaustive enumeration of cases over worker processes, oracles, replay, evidence.
#pragma once
#include "rt.h"
#include "model.h"
#include <functional>
#include <set>

struct Check { std::string oracle; std::vector<Case> cases; std::string param; };
std::string check_to_text(const Check&, const std::string& prop, const std::string& why);
bool check_from_text(const std::string&, Check&, std::string& prop);

// An oracle runs the real interpreter on the cases and judges the outcome: empty = property holds.
typedef std::string (*Oracle)(const Check&);
extern const std::map<std::string, Oracle> oracles;

struct Stop {};                              // thrown when exploration has to stop

// Depth-first enumeration of all choice sequences
struct Chooser {
  std::vector<int> path, width; size_t at = 0;
  int pick(int n) { if (at == path.size()) { path.push_back(0); width.push_back(n); } return path[at++]; }
  bool next() { at = 0; while (!path.empty()) { if (++path.back() < width.back()) return true; path.pop_back(); width.pop_back(); } return false; }
};

struct Ctx {
  std::string prop; bool thorough = false; int worker = 0, workers = 1;
  long index = 0; const char* section = "";
  void sec(const char* name);                // names a part of the exploration
  bool take() { return index++ % workers == worker; } // is the next case this worker's?
  void run(const Check& c);
  void model(const Case& c) { run(Check{"model", {c}, ""}); }
  void all(const std::function<void(Chooser&)>& f) { Chooser c; do { f(c); } while (c.next()); }
  // breadth-first exploration of the model's states under a set of session events (each one or more lines)
  void bfs(const std::vector<std::string>& argv, const std::vector<std::string>& prefix, const std::vector<std::string>& alphabet,
           const std::vector<std::string>& probe, size_t max_states, int max_depth, const std::map<std::string, std::string>& files = {});
  // every sequence of events up to a length
  void histories(const std::vector<std::string>& argv, const std::vector<std::string>& prefix, const std::vector<std::string>& alphabet,
           const std::vector<std::string>& probe, int depth, const std::map<std::string, std::string>& files = {});
};

size_t line_bar(const std::string& s, size_t p);
std::vector<std::string> lines_of(const std::string& s); // split "a|b|c" into lines, each with its newline
Case session(const std::string& s);          // interactive session from "line|line|..."
Case program(const std::string& s);          // run a program file from "line|line|..."
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string join(const std::vector<std::string>& v, const char* sep);

// shared counters
struct Shared {
  volatile long states, transitions, traces, cases, violations, unreproduced, saturated, impl_blocks;
  volatile int stop;
  volatile long sections_done;
};
extern Shared* shared;
uint64_t visit_state(uint64_t h);
std::string compare_model(const Case& c, const Result& r, const mdl::Outcome& o);
void impl_run(const Case& c, Result& r, const RunOpts& o = RunOpts());
std::string normal(const std::string&);

typedef void (*Generator)(Ctx&);
extern const std::map<std::string, Generator> generators;
