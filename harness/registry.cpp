#include "gen.h"
#define ORACLES O(model_) O(stderr) O(renum) O(cont) O(mem) O(report) O(same) O(status) O(opts) O(idle) O(banner) O(lines) O(tail) O(irq) O(irqm) O(cmd) O(cli)
#define GENS R(C01) R(C02) R(C03) R(C04) R(C05) R(C06) R(C07) R(C08) R(C09) R(C10) R(C11) R(C12) R(C13) R(C14) R(C15) R(C16) R(C17) R(C18) R(C19) R(C20) R(C21) R(C23) R(C24) R(C25) R(C22) R(C26) R(C27) R(C28)
#define O(n) std::string oracle_##n(const Check& k);
ORACLES
#undef O
#define R(id) void gen_##id(Ctx&); void more_##id(Ctx&); __attribute__((weak)) void vals_##id(Ctx&); __attribute__((weak)) void axes_##id(Ctx&); __attribute__((weak)) void giant_##id(Ctx&); __attribute__((weak)) void deep_##id(Ctx&); __attribute__((weak)) void last_##id(Ctx&); __attribute__((weak)) void state_##id(Ctx&); __attribute__((weak)) void cross_##id(Ctx&); __attribute__((weak)) void reps_##id(Ctx&); __attribute__((weak)) void wide_##id(Ctx&); __attribute__((weak)) void near_##id(Ctx&); __attribute__((weak)) void both_##id(Ctx&); __attribute__((weak)) void whole_##id(Ctx&);
GENS
#undef R
static std::string trim_(std::string s) { if (!s.empty() && s.back() == '_') s.pop_back(); return s; }
#define O(n) {trim_(#n), oracle_##n},
const std::map<std::string, Oracle> oracles = { ORACLES };
#define R(id) {#id, [](Ctx& c) { gen_##id(c); more_##id(c); if (vals_##id) vals_##id(c); if (axes_##id) axes_##id(c); if (giant_##id) giant_##id(c); if (deep_##id) deep_##id(c); if (last_##id) last_##id(c); if (state_##id) state_##id(c); if (cross_##id) cross_##id(c); if (reps_##id) reps_##id(c); if (wide_##id) wide_##id(c); if (near_##id) near_##id(c); if (both_##id) both_##id(c); if (whole_##id) whole_##id(c); }},
const std::map<std::string, Generator> generators = { GENS };
