// Reference model: a tree-walking interpreter of the language as documented, written independently
// of the implementation (no bytecode, no evaluation stacks, no hash tables). Its state is a value:
// copyable, hashable, so it can be explored.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <deque>
#include <cstdint>
#include "rt.h"

namespace mdl {

enum SymKind : uint8_t { VAR, ARRAY, DEFFN, UNKNOWN };

struct Arr { unsigned dims = 0; unsigned max[2] = {0, 0}; std::vector<double> n; std::vector<std::string> s; };

struct Code;
struct Ex;
struct Def { std::shared_ptr<const Code> keep; const Ex* body; int param; std::string line; bool imm; bool str; };

struct Sym {
  std::string name; SymKind kind = VAR; bool str = false;
  double num = 0; std::string s;
  std::shared_ptr<Arr> arr; std::shared_ptr<const Def> def;
};

enum ExOp : uint8_t { NUM, STR, SVAR, PAREN, NEG, POW, MUL, DIV, ADD, SUB, CAT, REL, NOT, AND, OR, CALL, DISCARD };
struct Ex { ExOp op; bool str = false; double n = 0; std::string s; int sym = -1; int k = 0; std::vector<const Ex*> a; };

enum StOp : uint8_t { S_LINE, S_CLEAR, S_CLS, S_DEF, S_DIM, S_END, S_FOR, S_NEXT, S_GOSUB, S_GOTO, S_IFLINE, S_IF, S_ELSE,
  S_INPUT, S_LINPUT, S_LET, S_ON, S_PRINT, S_RAND, S_SEED, S_READ, S_RESTORE, S_RESTLINE, S_RETURN, S_STOP };
struct LV { int sym; std::vector<const Ex*> idx; };
struct PItem { char k; const Ex* e; }; // n s(tring) , ; S(pc) T(ab)
struct St { StOp op; std::vector<const Ex*> e; LV lv{-1, {}}; std::vector<LV> items; std::vector<PItem> p; std::vector<unsigned> lines; int target = -1; std::string s; bool flag = false; };
struct CLine { unsigned num = 0; std::string text; std::vector<St> st; };
struct Code { bool imm = false; std::vector<CLine> lines; std::vector<std::pair<int, std::string>> data; std::map<unsigned, int> index; std::deque<Ex> pool; };

struct Pos { std::shared_ptr<const Code> code; int line = 0, st = 0; };
struct ForL { Pos pos; int sym; double step, limit; };

struct ErrRec { char kind; std::vector<std::string> lines; size_t at = 0; }; // R runtime, P parse, F file; bytes of input read by then

struct Line { unsigned num; std::string text; };
typedef std::vector<Line> Prog;

struct Model {
  // options
  bool kw = false, trace = false, tracefor = false;
  bool deep_limit = true;
  const Case* env = nullptr;
  // program
  std::shared_ptr<const Prog> prog; // null: none was ever created
  std::shared_ptr<const Code> code; // compiled program, null when out of date
  std::vector<Sym> syms; std::map<std::string, int> names;
  std::vector<ForL> fors; std::vector<Pos> rets;
  Pos cur; bool stopped = false; Pos stop_pos;
  size_t pdata = 0, idata = 0; unsigned col = 1;
  bool in_fn = false;
  // environment
  std::map<std::string, std::string> files; std::vector<std::string> sys;
  const std::string* in = nullptr; size_t inpos = 0;
  size_t rndpos = 0; uint32_t rng; long nowcalls = 0; long rand_calls = 0; std::vector<unsigned> seeds;
  // observable results
  std::string out; std::vector<ErrRec> errs; int status = 0; bool quit = false, eof = false;
  bool diverged = false, deep = false, rterror = false; // deep: an evaluation depth limit was met
  long steps = 0; long fuel = 20000; long cmdno = 0;
  bool names_dirty = false;
  std::vector<std::string> dontcare_files; // content unspecified after a failed write
  uint64_t (*visit)(uint64_t) = nullptr; // called with state hashes

  Model();
  void start(const Case& c, const std::string* in);
  bool prompt();                  // one round of the command loop; false when the session is over
  void interpret(const std::string& line);
  bool load(const std::string& name);
  void run_program();
  bool compile();
  void immediate(const std::string& text);
  uint64_t hash() const;
  void command(const std::string& cmd, const std::string& rest);
private:
  void clear_names(); void clear_values(); void reset_control();
  void run();
  void exec();
  bool get_line(std::string& l, size_t cap, bool& nl);
  double num(const Ex*, int nd, int sd); std::string str(const Ex*, int nd, int sd);
  void discard(const Ex*, int nd, int sd);
  double call(const Ex*, int nd, int sd, std::string* rs);
  std::vector<unsigned> indexes(const std::vector<const Ex*>& e, std::vector<double>& raw);
  Arr& array(Sym&); size_t cell(Sym& s, const std::vector<double>& raw);
  void assign_num(const LV&, const std::vector<double>& raw, double v);
  void assign_str(const LV&, const std::vector<double>& raw, const std::string& v);
  std::vector<double> eval_idx(const LV&, int nd, int sd);
  void dim(const LV&);
  void print(const St&); void input(const St&); void line_input(const St&);
  void go(unsigned line);
  void for_dump(const char* tag); void for_head(const char* tag);
  std::string next_data();
  void puts_(const std::string& s) { out += s; out += '\n'; }
  [[noreturn]] void err();
  bool program_changed();
  void list(const std::string&); void renum(const std::string&); void save(const std::string&);
};

struct Outcome { std::string out; std::vector<ErrRec> errs; int status = 0; std::map<std::string, std::string> files; std::vector<std::string> sys; bool diverged = false, deep = false, rterror = false; long steps = 0; std::vector<std::string> dontcare; };

// a break in the model: at the at-th point where one may be taken while the cmd-th line entered is executed
struct BreakSpec { long cmd = -1, at = -1, n = 0; };
extern BreakSpec brk;

// complete execution of a case (arguments, files, input) in the model
void run_case(const Case& c, Outcome& o, bool deep_limit = true, uint64_t (*visit)(uint64_t) = nullptr, long fuel = 20000);

// lexical helpers, also used by generators
struct Tok { int t; double n; std::string s; unsigned pos, end; };
enum { T_EOL = 1000, T_ERR, T_ID, T_NUM, T_STR, T_NE, T_LE, T_GE, T_KW = 2000 };
extern const char* const KEYWORDS[]; extern const int NKEYWORDS;
extern const char* const BUILTINS[]; extern const int NBUILTINS;
std::vector<Tok> lex_all(const std::string& text, bool kw);
bool to_number(const std::string& s, size_t& pos, double& v); // run-time conversion
std::string fmt_g(double v);
std::string upper(std::string s);
}
