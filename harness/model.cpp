#include "model.h"
#include <cmath>
#include <cstring>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <algorithm>

namespace mdl {

struct RtErr {}; struct ParseErr {}; struct Diverge {};

std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static bool al(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static bool dg(int c) { return c >= '0' && c <= '9'; }
std::string fmt_g(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); return b; }

const char* const KEYWORDS[] = {"AND","CLEAR","CLS","DATA","DEF","DIM","ELSE","END","FOR","GOSUB","GOTO","IF","INPUT","LET","LINE",
  "NEXT","NOT","ON","OR","PRINT","RANDOMIZE","READ","REM","RESTORE","RETURN","STEP","STOP","THEN","TO"};
enum { AND_ = T_KW, CLEAR_, CLS_, DATA_, DEF_, DIM_, ELSE_, END_, FOR_, GOSUB_, GOTO_, IF_, INPUT_, LET_, LINE_, NEXT_, NOT_, ON_, OR_,
  PRINT_, RANDOMIZE_, READ_, REM_, RESTORE_, RETURN_, STEP_, STOP_, THEN_, TO_ };
const int NKEYWORDS = sizeof KEYWORDS / sizeof *KEYWORDS;

enum { F_ABS, F_ASC, F_ATN, F_CHR, F_COS, F_EXP, F_FIX, F_GET, F_HEX, F_INKEY, F_INT, F_LEFT, F_LEN, F_LOG, F_MID, F_RIGHT, F_RND, F_SGN, F_SIN, F_SPACE, F_SQR, F_STR, F_TAN, F_TIME, F_USR, F_VAL };
const char* const BUILTINS[] = {"ABS","ASC","ATN","CHR$","COS","EXP","FIX","GET$","HEX$","INKEY$","INT","LEFT$","LEN","LOG","MID$","RIGHT$","RND","SGN","SIN","SPACE$","SQR","STR$","TAN","TIME$","USR","VAL"};
static const char* const BARGS[] = {"n","s","n","n","n","n","","","","","n","sn","s","n","snn","sn","d","n","n","","n","n","n","d","","s"};
const int NBUILTINS = sizeof BUILTINS / sizeof *BUILTINS;
static int builtin_of(const std::string& up) { for (int i = 0; i < NBUILTINS; i++) if (up == BUILTINS[i]) return i; return -1; }

// ------------------------------------------------------------------ lexical structure
static int kw_at(const std::string& t, size_t p) { // keyword that begins at p
  for (int i = 0; i < NKEYWORDS; i++) {
    size_t n = strlen(KEYWORDS[i]); if (p + n > t.size()) continue;
    bool ok = true; for (size_t j = 0; j < n && ok; j++) { char c = t[p + j]; if (c >= 'a' && c <= 'z') c -= 32; ok = c == KEYWORDS[i][j]; }
    if (ok) return i;
  }
  return -1;
}

struct Lexer {
  const std::string& t; bool kw; size_t p = 0;
  Lexer(const std::string& t, bool kw) : t(t), kw(kw) {}
  int at(size_t i) const { return i < t.size() ? (unsigned char)t[i] : -1; }
  void blanks() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\r')) p++; }
  Tok next() {
    blanks();
    Tok k; k.pos = p; k.n = 0; k.t = T_EOL;
    if (p >= t.size()) { k.end = p; return k; }
    int c = at(p);
    auto done = [&](int ty) { k.t = ty; k.end = p; return k; };
    if (c >= 127) { p++; return done(T_ERR); }
    if (al(c)) {
      if (kw) {
        int w = kw_at(t, p);
        if (w >= 0) { k.s = KEYWORDS[w]; p += k.s.size(); return done(T_KW + w); }
        k.s = t[p++];
        bool cut = false;
        while (p < t.size() && (al(at(p)) || dg(at(p)))) {
          if (al(at(p)) && kw_at(t, p) >= 0) { cut = true; break; }
          if (k.s.size() >= 126) return done(T_ERR);
          k.s += t[p++];
        }
        if (!cut && at(p) == '$') k.s += t[p++];
        return done(T_ID);
      }
      while (p < t.size() && (al(at(p)) || dg(at(p)))) { if (k.s.size() >= 126) { p++; return done(T_ERR); } k.s += t[p++]; }
      if (at(p) == '$') k.s += t[p++];
      std::string u = upper(k.s);
      for (int i = 0; i < NKEYWORDS; i++) if (u == KEYWORDS[i]) return done(T_KW + i);
      return done(T_ID);
    }
    if (dg(c) || c == '.') {
      bool digits = false;
      while (dg(at(p))) { k.s += t[p++]; digits = true; }
      if (at(p) == '.') { k.s += t[p++]; while (dg(at(p))) { k.s += t[p++]; digits = true; } }
      if (at(p) == 'e' || at(p) == 'E') {
        size_t q = p + 1; if (at(q) == '+' || at(q) == '-') q++;
        if (dg(at(q))) { while (p < q) k.s += t[p++]; while (dg(at(p))) k.s += t[p++]; }
      }
      if (k.s.size() > 127 || !digits) return done(T_ERR);
      k.n = strtod(k.s.c_str(), nullptr);
      return done(T_NUM);
    }
    if (c == '"') {
      p++;
      for (;;) {
        int d = at(p);
        if (d == -1) return done(T_ERR);
        if (d >= 127) { p++; return done(T_ERR); }
        p++;
        if (d == '"') break;
        k.s += (char)d;
      }
      if (k.s.size() > 127) return done(T_ERR);
      return done(T_STR);
    }
    p++;
    if (c == '<') { if (at(p) == '>') { p++; return done(T_NE); } if (at(p) == '=') { p++; return done(T_LE); } return done('<'); }
    if (c == '>') { if (at(p) == '=') { p++; return done(T_GE); } return done('>'); }
    return done(c == '\n' ? T_EOL : c);
  }
  bool datum(std::string& s) { // one DATA item; stops before the separator
    blanks(); s.clear();
    if (at(p) == '"') {
      p++;
      for (;;) { int d = at(p); if (d == -1 || d >= 127) return false; p++; if (d == '"') break; s += (char)d; }
      return s.size() <= 127;
    }
    for (;;) {
      int d = at(p);
      if (d == -1 || d == '"' || d == ',' || d == ':') break;
      if (d >= 127) { return s.size() <= 127; } // the separator which follows will be invalid
      s += (char)d; p++;
    }
    if (s.size() > 127) return false;
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r')) s.pop_back();
    return true;
  }
};

std::vector<Tok> lex_all(const std::string& text, bool kw) {
  std::vector<Tok> v; Lexer l(text, kw);
  for (;;) { v.push_back(l.next()); if (v.back().t == T_EOL) return v; }
}

// [blanks][sign]digits[.digits][exponent][blanks]
bool to_number(const std::string& s, size_t& pos, double& v) {
  size_t p = pos; auto at = [&](size_t i) { return i < s.size() ? (unsigned char)s[i] : 0; };
  while (at(p) == ' ' || at(p) == '\t') p++;
  std::string t; bool d = false;
  if (at(p) == '+' || at(p) == '-') t += s[p++];
  if (at(p) == '0' && (at(p + 1) == 'x' || at(p + 1) == 'X')) return false;
  while (dg(at(p))) { t += s[p++]; d = true; }
  if (at(p) == '.') { t += s[p++]; while (dg(at(p))) { t += s[p++]; d = true; } }
  if (!d) return false;
  if (at(p) == 'e' || at(p) == 'E') {
    size_t q = p + 1; if (at(q) == '+' || at(q) == '-') q++;
    if (dg(at(q))) { while (p < q) t += s[p++]; while (dg(at(p))) t += s[p++]; }
  }
  v = strtod(t.c_str(), nullptr);
  while (at(p) == ' ' || at(p) == '\t') p++;
  pos = p; return true;
}

// ------------------------------------------------------------------ syntax
struct Parser {
  Model& m; Code& code; bool kw;
  std::vector<Sym>& syms; std::map<std::string, int>& names;
  Lexer* lx = nullptr; Tok t; CLine* L = nullptr; int open_if = -1; int depth = 0;
  Parser(Model& m, Code& c, bool kw) : m(m), code(c), kw(kw), syms(m.syms), names(m.names) {}
  [[noreturn]] void fail() { throw ParseErr(); }
  void next() { t = lx->next(); }
  void match(int k) { if (t.t != k) fail(); next(); }
  Ex* node(ExOp op, bool str) { code.pool.emplace_back(); Ex* e = &code.pool.back(); e->op = op; e->str = str; return e; }
  St& add(StOp op) { L->st.emplace_back(); L->st.back().op = op; return L->st.back(); }

  int symbol(const std::string& name, bool paren, SymKind kind, bool& isnew) {
    std::string key = upper(name) + (paren ? "(" : "");
    auto it = names.find(key); isnew = it == names.end();
    if (!isnew) return it->second;
    int id = (int)syms.size(); syms.emplace_back(); syms[id].name = name; syms[id].kind = kind; syms[id].str = name.back() == '$';
    names[key] = id; return id;
  }
  // variable or array element; kind is what a parenthesised name has to be (UNKNOWN: anything)
  LV ident(SymKind kind) {
    if (t.t != T_ID) fail();
    std::string name = t.s; next();
    LV lv{-1, {}};
    if (t.t == '(') {
      do { next(); lv.idx.push_back(numeric()); } while (t.t == ',');
      match(')');
    }
    if (builtin_of(upper(name)) >= 0) fail();
    bool fresh, paren = !lv.idx.empty();
    lv.sym = symbol(name, paren, paren ? kind : VAR, fresh);
    if (!fresh && paren) {
      Sym& s = syms[lv.sym];
      if (s.kind == UNKNOWN) s.kind = kind;
      else if (kind != UNKNOWN && s.kind != kind) fail();
    }
    return lv;
  }
  int simple_num() {
    LV lv = ident(UNKNOWN);
    if (!lv.idx.empty() || syms[lv.sym].str) fail();
    return lv.sym;
  }
  const Ex* numeric() { const Ex* e = expr(); if (e->str) fail(); return e; }
  const Ex* stringy() { const Ex* e = expr(); if (!e->str) fail(); return e; }
  const Ex* bin(ExOp op, const Ex* a, const Ex* b, bool str = false, int k = 0) { Ex* e = node(op, str); e->a = {a, b}; e->k = k; return e; }

  const Ex* expr() {
    const Ex* a = conj();
    while (t.t == OR_) { next(); const Ex* b = conj(); if (a->str || b->str) fail(); a = bin(OR, a, b); }
    return a;
  }
  const Ex* conj() {
    const Ex* a = inv();
    while (t.t == AND_) { next(); const Ex* b = inv(); if (a->str || b->str) fail(); a = bin(AND, a, b); }
    return a;
  }
  const Ex* inv() {
    int n = 0; while (t.t == NOT_) { n++; next(); }
    const Ex* a = rel();
    if (n && a->str) fail();
    while (n--) { Ex* e = node(NOT, false); e->a = {a}; a = e; }
    return a;
  }
  const Ex* rel() {
    const Ex* a = sum();
    int k = t.t;
    if (k == '=' || k == '<' || k == '>' || k == T_NE || k == T_LE || k == T_GE) {
      next(); const Ex* b = sum(); if (a->str != b->str) fail();
      return bin(REL, a, b, false, k);
    }
    return a;
  }
  const Ex* sum() {
    const Ex* a = term();
    if (a->str) { while (t.t == '+') { next(); const Ex* b = term(); if (!b->str) fail(); a = bin(CAT, a, b, true); } }
    else while (t.t == '+' || t.t == '-') { ExOp op = t.t == '+' ? ADD : SUB; next(); const Ex* b = term(); if (b->str) fail(); a = bin(op, a, b); }
    return a;
  }
  const Ex* term() {
    const Ex* a = neg();
    while (t.t == '*' || t.t == '/') { ExOp op = t.t == '*' ? MUL : DIV; next(); const Ex* b = neg(); if (a->str || b->str) fail(); a = bin(op, a, b); }
    return a;
  }
  const Ex* neg() {
    int n = 0; while (t.t == '-') { n++; next(); }
    const Ex* a = power();
    if (n && a->str) fail();
    if (n % 2) { Ex* e = node(NEG, false); e->a = {a}; a = e; }
    return a;
  }
  const Ex* power() {
    const Ex* a = primary();
    if (!a->str && t.t == '^') { next(); const Ex* b = power(); if (b->str) fail(); return bin(POW, a, b); }
    return a;
  }
  const Ex* primary() {
    if (t.t == T_NUM) { Ex* e = node(NUM, false); e->n = t.n; next(); return e; }
    if (t.t == T_STR) { Ex* e = node(STR, true); e->s = t.s; next(); return e; }
    if (t.t == '(') { next(); const Ex* e = expr(); match(')'); return e; }
    if (t.t != T_ID) fail();
    int b = builtin_of(upper(t.s));
    if (b >= 0) {
      const char* args = BARGS[b];
      if (!*args) fail();
      bool str = t.s.back() == '$';
      next();
      Ex* e = node(CALL, str); e->k = b;
      if (*args == 'd') {
        if (t.t == '(') { next(); if (t.t != ')') e->a.push_back(expr()); match(')'); }
        return e;
      }
      match('(');
      for (int i = 0; args[i]; i++) { if (i) match(','); e->a.push_back(args[i] == 'n' ? numeric() : stringy()); }
      match(')');
      return e;
    }
    LV lv = ident(UNKNOWN);
    Ex* e = node(lv.idx.empty() ? SVAR : PAREN, syms[lv.sym].str); e->sym = lv.sym; e->a = lv.idx;
    return e;
  }
  unsigned lineno() {
    if (t.t != T_NUM || !(t.n > 0 && t.n <= 65535 && std::floor(t.n) == t.n)) fail();
    unsigned n = (unsigned)t.n; next(); return n;
  }
  bool ends() { return t.t == T_EOL || t.t == ':' || t.t == ELSE_; }

  void line() {
    open_if = -1;
    do { // statements separated by colons
      if (t.t == ':' && started) next();
      started = true;
      while (statement()) ;
    } while (t.t == ':');
    if (t.t != T_EOL) fail();
  }
  bool started = false;

  void assignment() {
    LV lv = ident(ARRAY); match('=');
    const Ex* e = expr();
    if (e->str != syms[lv.sym].str) fail();
    St& s = add(S_LET); s.lv = lv; s.e = {e};
  }
  // true: another statement has to follow directly (after THEN and ELSE)
  bool statement() {
    bool more = false; bool ifline = false;
    switch (t.t) {
      case CLEAR_: next(); add(S_CLEAR); break;
      case CLS_: next(); add(S_CLS); break;
      case DATA_:
        for (;;) {
          std::string s; if (!lx->datum(s)) fail();
          code.data.push_back({(int)code.lines.size(), s}); // the line being parsed
          next(); if (t.t != ',') break;
        }
        break;
      case DEF_: {
        next(); if (t.t != T_ID) fail();
        std::string name = t.s; bool str = name.back() == '$', fresh;
        if (builtin_of(upper(name)) >= 0) fail();
        int id = symbol(name, true, DEFFN, fresh);
        if (syms[id].kind == UNKNOWN) syms[id].kind = DEFFN; else if (syms[id].kind != DEFFN) fail();
        next(); match('('); int par = simple_num(); match(')'); match('=');
        const Ex* e = str ? stringy() : numeric();
        St& s = add(S_DEF); s.lv.sym = id; s.target = par; s.e = {e}; s.flag = str;
        break;
      }
      case DIM_:
        do {
          next(); LV lv = ident(ARRAY); if (lv.idx.empty()) fail();
          add(S_DIM).lv = lv;
        } while (t.t == ',');
        break;
      case END_: next(); add(S_END); break;
      case FOR_: {
        next(); int v = simple_num(); match('='); const Ex* a = numeric(); match(TO_); const Ex* b = numeric(); const Ex* c = nullptr;
        if (t.t == STEP_) { next(); c = numeric(); }
        St& s = add(S_FOR); s.lv.sym = v; s.e = {a, b, c};
        break;
      }
      case GOSUB_: { next(); unsigned n = lineno(); add(S_GOSUB).lines = {n}; break; }
      case GOTO_: { next(); unsigned n = lineno(); add(S_GOTO).lines = {n}; break; }
      case IF_: {
        next(); const Ex* c = numeric(); match(THEN_);
        if (t.t == T_NUM) {
          unsigned n = lineno(); St& s = add(S_IFLINE); s.e = {c}; s.lines = {n};
          open_if = -1; ifline = true;
          if (t.t != ELSE_) add(S_ELSE); // false: next line
        }
        else { add(S_IF).e = {c}; open_if = (int)L->st.size() - 1; more = true; }
        break;
      }
      case INPUT_: {
        next(); St s; s.op = S_INPUT;
        prompt(s);
        for (;;) { s.items.push_back(ident(ARRAY)); if (t.t != ',') break; next(); }
        L->st.push_back(s);
        break;
      }
      case LET_: next(); if (t.t != T_ID) fail(); assignment(); break;
      case LINE_: {
        next(); match(INPUT_); St s; s.op = S_LINPUT; prompt(s); s.lv = ident(ARRAY); if (!syms[s.lv.sym].str) fail(); L->st.push_back(s);
        break;
      }
      case NEXT_:
        next();
        if (t.t == T_ID) {
          int v = simple_num(); add(S_NEXT).lv.sym = v;
          while (t.t == ',') { next(); v = simple_num(); add(S_NEXT).lv.sym = v; }
        }
        else add(S_NEXT);
        break;
      case ON_: {
        next(); const Ex* e = numeric(); bool sub = t.t == GOSUB_; if (t.t != GOTO_ && t.t != GOSUB_) fail();
        St s; s.op = S_ON; s.flag = sub; s.e = {e};
        do { next(); s.lines.push_back(lineno()); } while (t.t == ',');
        L->st.push_back(s);
        break;
      }
      case PRINT_: case '?': {
        next(); St s; s.op = S_PRINT; bool nl = true;
        while (!ends()) {
          if (t.t == T_ID && (upper(t.s) == "SPC" || upper(t.s) == "TAB")) {
            char k = upper(t.s)[0]; next(); match('('); const Ex* e = numeric(); match(')'); s.p.push_back({k, e}); nl = true;
          }
          else if (t.t == ';') { next(); nl = false; }
          else if (t.t == ',') { next(); s.p.push_back({',', nullptr}); nl = false; }
          else { const Ex* e = expr(); s.p.push_back({e->str ? 's' : 'n', e}); nl = true; }
        }
        // one statement for each item: a break may come between them
        for (auto& it : s.p) { St one = s; one.p = {it}; L->st.push_back(one); }
        s.p.clear(); s.flag = nl; L->st.push_back(s);
        break;
      }
      case RANDOMIZE_: {
        next(); if (ends()) add(S_RAND); else { const Ex* e = numeric(); add(S_SEED).e = {e}; }
        break;
      }
      case READ_:
        do { next(); LV lv = ident(ARRAY); add(S_READ).lv = lv; } while (t.t == ',');
        break;
      case REM_: t.t = T_EOL; lx->p = lx->t.size(); break;
      case RESTORE_: next(); if (t.t == T_NUM) { unsigned n = lineno(); add(S_RESTLINE).lines = {n}; } else add(S_RESTORE); break;
      case RETURN_: next(); add(S_RETURN); break;
      case STOP_: next(); add(S_STOP); break;
      case T_ID: assignment(); break;
      case T_EOL: case ':': break;
      default: fail();
    }
    if (t.t == ELSE_) {
      if (ifline) { next(); unsigned n = lineno(); add(S_GOTO).lines = {n}; return false; }
      if (open_if < 0) fail();
      next();
      add(S_ELSE); L->st[open_if].target = (int)L->st.size(); open_if = -1; more = true;
    }
    return more;
  }
  void prompt(St& s) {
    if (t.t == T_STR) { s.s = t.s; next(); if (t.t == ';' || t.t == ',') next(); }
  }
};

// parse all lines; on error returns the failing line's text
static bool parse_code(Model& m, Code& code, const std::vector<Line>& lines, bool kw, std::string& bad) {
  for (auto& l : lines) {
    CLine cl; cl.num = l.num; cl.text = l.text; cl.st.emplace_back(); cl.st.back().op = S_LINE;
    Lexer lx(l.text, kw); Parser p(m, code, kw); p.lx = &lx; p.L = &cl;
    try { p.next(); p.line(); }
    catch (ParseErr&) { bad = l.text; return false; }
    code.index[l.num] = (int)code.lines.size();
    code.lines.push_back(std::move(cl));
  }
  return true;
}

// ------------------------------------------------------------------ state
Model::Model() { rng = 1u * 2654435761u + 12345u; }

void Model::clear_values() { for (auto& s : syms) { s.num = 0; s.s.clear(); s.arr.reset(); s.def.reset(); } }
void Model::clear_names() { syms.clear(); names.clear(); }
void Model::reset_control() { cur = Pos(); stop_pos = Pos(); rets.clear(); fors.clear(); col = 1; pdata = idata = 0; in_fn = false; }

static const unsigned MAXNUM = 16, MAXSTR = 8;
void Model::err() { throw RtErr(); }

bool Model::compile() {
  if (!prog || code) return true;
  clear_names();
  auto c = std::make_shared<Code>();
  std::string bad;
  if (!parse_code(*this, *c, *prog, kw, bad)) { errs.push_back({'P', {bad}, inpos}); return false; }
  code = c; reset_control();
  return true;
}

void Model::run_program() {
  if (!prog) return;
  if (!compile()) return;
  reset_control();
  cur.code = code; cur.line = 0; cur.st = 0;
  run();
}

void Model::immediate(const std::string& text) {
  if (!compile()) return;
  auto c = std::make_shared<Code>(); c->imm = true;
  std::string bad;
  if (!parse_code(*this, *c, {{0, text}}, false, bad)) { errs.push_back({'P', {bad}, inpos}); return; }
  c->index.clear();
  idata = 0; col = 1;
  cur.code = c; cur.line = 0; cur.st = 0;
  run();
  bool imm = false;
  for (auto& r : rets) imm |= r.code->imm;
  for (auto& f : fors) imm |= f.pos.code->imm;
  if (imm) reset_control();
  cur.code.reset();
}

static std::vector<std::string>* err_lines;

BreakSpec brk;
void Model::run() {
  stopped = false; bool broke = false;
  auto point = [&] { return brk.cmd >= 0 && cmdno == brk.cmd && brk.n++ == brk.at; };
  std::vector<std::string> where; err_lines = &where;
  try {
    while (!stopped) {
      if (point()) { broke = true; break; }
      const Code& c = *cur.code;
      if (cur.line >= (int)c.lines.size()) break;
      if (cur.st >= (int)c.lines[cur.line].st.size()) { cur.line++; cur.st = 0; continue; }
      if (++steps > fuel) throw Diverge();
      exec();
      if (visit && steps < 96) visit(hash());
    }
  }
  catch (RtErr&) {
    rterror = true; stopped = false;
    where.push_back(cur.line < (int)cur.code->lines.size() ? cur.code->lines[cur.line].text : "");
    errs.push_back({'R', where, inpos});
    in_fn = false;
  }
  if (stopped && point()) broke = true;
  if (broke) puts_("Break");
  else if (stopped) { const CLine& l = cur.code->lines[cur.line]; out += std::to_string(l.num) + " " + l.text + "\nStopped\n"; }
  if (!cur.code->imm) { if (stopped || broke) stop_pos = cur; else stop_pos = Pos(); }
}

void Model::go(unsigned n) {
  auto it = code ? code->index.find(n) : std::map<unsigned, int>::const_iterator();
  if (!code || it == code->index.end()) err();
  cur.code = code; cur.line = it->second; cur.st = 0;
}

// ------------------------------------------------------------------ expressions
static double logic(double x, bool& bad) { bad = !(x >= INT_MIN && x <= INT_MAX) || x != std::floor(x); return x; }
static bool whole(double x) { return x >= 0 && std::floor(x) == x && x <= 4294967295.0; }

double Model::num(const Ex* e, int nd, int sd) {
  double r = 0;
  switch (e->op) {
    case NUM: r = e->n; break;
    case SVAR: r = syms[e->sym].num; break;
    case PAREN: r = call(e, nd, sd, nullptr); break;
    case NEG: r = -num(e->a[0], nd, sd); break;
    case NOT: { bool b; double x = logic(num(e->a[0], nd, sd), b); if (b) err(); r = (double)(~(int)x); break; }
    case POW: case MUL: case DIV: case ADD: case SUB: {
      double x = num(e->a[0], nd, sd), y = num(e->a[1], nd + 1, sd);
      r = e->op == POW ? std::pow(x, y) : e->op == MUL ? x * y : e->op == DIV ? x / y : e->op == ADD ? x + y : x - y;
      break;
    }
    case AND: case OR: {
      double x = num(e->a[0], nd, sd), y = num(e->a[1], nd + 1, sd); bool b1, b2;
      logic(y, b2); logic(x, b1); if (b1 || b2) err();
      int i = (int)x, j = (int)y; r = e->op == AND ? (i & j) : (i | j);
      break;
    }
    case REL: {
      int c;
      if (e->a[0]->str) { std::string s = str(e->a[0], nd, sd), t = str(e->a[1], nd, sd + 1); c = s < t ? -1 : s == t ? 0 : 1; }
      else { double x = num(e->a[0], nd, sd), y = num(e->a[1], nd + 1, sd); c = x < y ? -1 : x == y ? 0 : x > y ? 1 : 2; }
      bool v = false;
      switch (e->k) { case '=': v = c == 0; break; case '<': v = c == -1; break; case '>': v = c == 1; break; case T_NE: v = c != 0; break; case T_LE: v = c == -1 || c == 0; break; case T_GE: v = c == 1 || c == 0; break; }
      r = v ? -1 : 0;
      break;
    }
    case CALL: {
      auto X = [&] { return num(e->a[0], nd, sd); };
      switch (e->k) {
        case F_ABS: r = std::fabs(X()); break;
        case F_ASC: { std::string s = str(e->a[0], nd, sd); r = s.empty() ? 0 : (unsigned char)s[0]; break; }
        case F_ATN: r = std::atan(X()); break;
        case F_COS: r = std::cos(X()); break;
        case F_EXP: r = std::exp(X()); break;
        case F_INT: r = std::floor(X()); break;
        case F_LEN: r = (double)str(e->a[0], nd, sd).size(); break;
        case F_LOG: { double x = X(); if (x <= 0) err(); r = std::log(x); break; }
        case F_SGN: { double x = X(); r = x < 0 ? -1 : x > 0 ? 1 : x; break; }
        case F_SIN: r = std::sin(X()); break;
        case F_SQR: r = std::sqrt(X()); break;
        case F_TAN: r = std::tan(X()); break;
        case F_VAL: { std::string s = str(e->a[0], nd, sd); size_t p = 0; if (!to_number(s, p, r) || p != s.size()) err(); break; }
        case F_RND: {
          if (!e->a.empty()) discard(e->a[0], nd, sd);
          do { rand_calls++; int v = env && rndpos < env->rnd.size() ? env->rnd[rndpos++] : lcg_next(rng); r = (double)v / 2147483647; } while (r >= 1);
          break;
        }
      }
      break;
    }
    default: break;
  }
  if (nd >= (int)MAXNUM) { deep = true; if (deep_limit) err(); }
  return r;
}
void Model::discard(const Ex* e, int nd, int sd) { if (e->str) str(e, nd, sd); else num(e, nd, sd); }

std::string Model::str(const Ex* e, int nd, int sd) {
  std::string r;
  switch (e->op) {
    case STR: r = e->s; break;
    case SVAR: r = syms[e->sym].s; break;
    case PAREN: call(e, nd, sd, &r); break;
    case CAT: { std::string a = str(e->a[0], nd, sd), b = str(e->a[1], nd, sd + 1); r = a + b; if (r.size() > 255) err(); break; }
    case CALL:
      switch (e->k) {
        case F_CHR: { double x = num(e->a[0], nd, sd); if (!(x >= 0 && x <= 255) || x != std::floor(x)) err(); if (x > 0) r = std::string(1, (char)(int)x); break; }
        case F_LEFT: case F_RIGHT: {
          std::string s = str(e->a[0], nd, sd); double x = num(e->a[1], nd, sd + 1); if (!whole(x)) err();
          if (x > s.size()) x = s.size();
          r = e->k == F_LEFT ? s.substr(0, (size_t)x) : s.substr(s.size() - (size_t)x); break;
        }
        case F_MID: {
          std::string s = str(e->a[0], nd, sd); double u = num(e->a[1], nd, sd + 1), v = num(e->a[2], nd + 1, sd + 1);
          if (!whole(u) || !whole(v) || u < 1 || u > s.size()) err();
          r = s.substr((size_t)u - 1, v > s.size() ? s.size() : (size_t)v); break;
        }
        case F_STR: r = fmt_g(num(e->a[0], nd, sd)); break;
        case F_TIME: {
          if (!e->a.empty()) discard(e->a[0], nd, sd);
          time_t t = (env ? env->now : 0) + nowcalls++; struct tm tm; gmtime_r(&t, &tm); char b[16]; snprintf(b, sizeof b, "%02d:%02d:%02d", tm.tm_hour, tm.tm_min, tm.tm_sec); r = b; break;
        }
      }
      break;
    default: break;
  }
  if (sd >= (int)MAXSTR) { deep = true; if (deep_limit) err(); }
  return r;
}

Arr& Model::array(Sym& s) { if (s.arr.use_count() > 1) s.arr = std::make_shared<Arr>(*s.arr); return *s.arr; }

static bool make_array(Sym& s, const std::vector<double>& max) {
  double total = 1; for (double m : max) total *= m + 1;
  if (total > 65536) return false;
  auto a = std::make_shared<Arr>(); a->dims = (unsigned)max.size();
  for (size_t i = 0; i < max.size(); i++) a->max[i] = (unsigned)max[i];
  if (s.str) a->s.resize((size_t)total); else a->n.resize((size_t)total);
  s.arr = a; return true;
}
static bool good_idx(const std::vector<double>& raw) {
  if (raw.size() > 2) return false;
  for (double x : raw) if (!whole(x)) return false;
  return true;
}
size_t Model::cell(Sym& s, const std::vector<double>& raw) {
  if (!good_idx(raw)) err();
  if (!s.arr) { std::vector<double> m; for (double x : raw) m.push_back(x < 10 ? 10 : x); if (!make_array(s, m)) err(); }
  if (raw.size() != s.arr->dims) err();
  for (size_t i = 0; i < raw.size(); i++) if (raw[i] > s.arr->max[i]) err();
  return raw.size() == 1 ? (size_t)raw[0] : (size_t)raw[0] * (s.arr->max[1] + 1) + (size_t)raw[1];
}
std::vector<double> Model::eval_idx(const LV& lv, int nd, int sd) {
  std::vector<double> v; for (size_t i = 0; i < lv.idx.size(); i++) v.push_back(num(lv.idx[i], nd + (int)i, sd)); return v;
}
void Model::assign_num(const LV& lv, const std::vector<double>& raw, double v) {
  Sym& s = syms[lv.sym];
  if (lv.idx.empty()) { s.num = v; return; }
  size_t c = cell(s, raw); array(s).n[c] = v;
}
void Model::assign_str(const LV& lv, const std::vector<double>& raw, const std::string& v) {
  Sym& s = syms[lv.sym];
  if (lv.idx.empty()) { s.s = v; return; }
  size_t c = cell(s, raw); array(s).s[c] = v;
}
void Model::dim(const LV& lv) {
  std::vector<double> raw = eval_idx(lv, 0, 0);
  Sym& s = syms[lv.sym]; s.arr.reset();
  if (!good_idx(raw) || !make_array(s, raw)) err();
}

double Model::call(const Ex* e, int nd, int sd, std::string* rs) {
  std::vector<double> raw;
  for (size_t i = 0; i < e->a.size(); i++) raw.push_back(num(e->a[i], nd + (int)i, sd));
  if (syms[e->sym].kind == UNKNOWN) syms[e->sym].kind = ARRAY;
  if (syms[e->sym].kind == ARRAY) {
    Sym& s = syms[e->sym]; size_t c = cell(s, raw);
    if (rs) { *rs = s.arr->s[c]; return 0; }
    return s.arr->n[c];
  }
  std::shared_ptr<const Def> d = syms[e->sym].def;
  if (!d || in_fn || raw.size() != 1) err();
  in_fn = true;
  double save = syms[d->param].num; syms[d->param].num = raw[0];
  double r = 0;
  size_t mark = err_lines->size();
  err_lines->push_back(d->imm ? "" : d->line);
  try { if (rs) *rs = str(d->body, nd, sd); else r = num(d->body, nd, sd); }
  catch (RtErr&) { syms[d->param].num = save; in_fn = false; throw; }
  err_lines->resize(mark);
  syms[d->param].num = save; in_fn = false;
  return r;
}

// ------------------------------------------------------------------ statements
void Model::for_dump(const char* tag) {
  out += std::string("-- ") + tag + ": ";
  if (fors.empty()) out += "empty";
  else for (size_t i = fors.size(); i--; ) out += syms[fors[i].sym].name + " = " + fmt_g(syms[fors[i].sym].num) + ", " + fmt_g(fors[i].limit) + "; ";
  out += '\n';
}
void Model::for_head(const char* tag) {
  const CLine& l = cur.code->lines[cur.line];
  out += std::string("[") + tag + "]\n-- line: " + std::to_string(l.num) + " " + l.text + "\n"; for_dump("initial stack");
}

std::string Model::next_data() {
  if (cur.code->imm && !cur.code->data.empty()) {
    if (idata >= cur.code->data.size()) err();
    return cur.code->data[idata++].second;
  }
  if (!code || pdata >= code->data.size()) err();
  return code->data[pdata++].second;
}

void Model::exec() {
  auto keep = cur.code;
  const St& s = keep->lines[cur.line].st[cur.st];
  switch (s.op) {
    case S_LINE: if (trace) out += "[" + std::to_string(keep->lines[cur.line].num) + "]"; break;
    case S_CLEAR: clear_values(); break;
    case S_CLS: sys.push_back("clear"); if (env && env->sysret != 0) out += "\n----------------------------------------------------------------\n\n"; col = 1; break;
    case S_DEF: {
      auto d = std::make_shared<Def>(); d->keep = keep; d->body = s.e[0]; d->param = s.target; d->line = keep->lines[cur.line].text; d->imm = keep->imm; d->str = s.flag;
      syms[s.lv.sym].def = d; break;
    }
    case S_DIM: dim(s.lv); break;
    case S_END: cur.line = (int)keep->lines.size(); cur.st = 0; return;
    case S_FOR: {
      double a = num(s.e[0], 0, 0), b = num(s.e[1], 1, 0), c = s.e[2] ? num(s.e[2], 2, 0) : 1;
      if (tracefor) for_head("FOR");
      size_t i; for (i = 0; i < fors.size() && fors[i].sym != s.lv.sym; i++) ;
      if (i < fors.size()) fors.erase(fors.begin() + i);
      else if (fors.size() >= 8) { for_dump("overflow"); err(); }
      fors.push_back({cur, s.lv.sym, c, b}); fors.back().pos.st++;
      syms[s.lv.sym].num = a;
      if (tracefor) for_dump("final stack");
      break;
    }
    case S_NEXT: {
      if (tracefor) for_head(s.lv.sym >= 0 ? "NEXT-VARIABLE" : "NEXT-IMPLICIT");
      if (fors.empty()) err();
      size_t i = fors.size() - 1;
      if (s.lv.sym >= 0) { for (i = 0; i < fors.size() && fors[i].sym != s.lv.sym; i++) ; if (i == fors.size()) err(); }
      ForL f = fors[i]; double x = syms[f.sym].num + f.step;
      if ((f.step > 0 && x > f.limit) || (f.step < 0 && x < f.limit)) { fors.erase(fors.begin() + i); if (tracefor) for_dump("final stack"); break; }
      syms[f.sym].num = x; cur = f.pos;
      if (tracefor) for_dump("final stack");
      return;
    }
    case S_GOSUB: {
      Pos r = cur; r.st++; go(s.lines[0]);
      if (rets.size() >= 8) { cur = r; cur.st--; err(); }
      rets.push_back(r); return;
    }
    case S_GOTO: go(s.lines[0]); return;
    case S_IFLINE: if (num(s.e[0], 0, 0) != 0) { go(s.lines[0]); return; } break;
    case S_IF: if (num(s.e[0], 0, 0) == 0) { if (s.target >= 0) cur.st = s.target; else { cur.line++; cur.st = 0; } return; } break;
    case S_ELSE: cur.line++; cur.st = 0; return;
    case S_INPUT: input(s); break;
    case S_LINPUT: line_input(s); break;
    case S_LET: {
      std::vector<double> raw = eval_idx(s.lv, 0, 0);
      if (syms[s.lv.sym].str) assign_str(s.lv, raw, str(s.e[0], (int)raw.size(), 0)); else assign_num(s.lv, raw, num(s.e[0], (int)raw.size(), 0));
      break;
    }
    case S_ON: {
      double x = num(s.e[0], 0, 0);
      if (x != std::floor(x)) err();
      if (x < 1 || x > s.lines.size()) break;
      Pos r = cur; r.st++; go(s.lines[(size_t)x - 1]);
      if (s.flag) { if (rets.size() >= 8) { cur = r; cur.st--; err(); } rets.push_back(r); }
      return;
    }
    case S_PRINT: print(s); if (s.p.size()) steps--; break;
    case S_RAND: { long t = (env ? env->now : 0) + nowcalls++; seeds.push_back((unsigned)t); rng = (unsigned)t * 2654435761u + 12345u; break; }
    case S_SEED: { double x = num(s.e[0], 0, 0); if (!whole(x)) err(); seeds.push_back((unsigned)x); rng = (unsigned)x * 2654435761u + 12345u; break; }
    case S_READ: {
      std::vector<double> raw = eval_idx(s.lv, 0, 0);
      std::string d = next_data();
      if (syms[s.lv.sym].str) assign_str(s.lv, raw, d);
      else { size_t p = 0; double v; if (!to_number(d, p, v) || p != d.size()) err(); assign_num(s.lv, raw, v); }
      break;
    }
    case S_RESTORE: pdata = idata = 0; break;
    case S_RESTLINE: {
      if (!code || !code->index.count(s.lines[0])) err();
      int l = code->index.at(s.lines[0]); for (pdata = 0; pdata < code->data.size() && code->data[pdata].first < l; pdata++) ;
      break;
    }
    case S_RETURN: if (rets.empty()) err(); cur = rets.back(); rets.pop_back(); return;
    case S_STOP: stopped = true; break;
  }
  cur.st++;
}

void Model::print(const St& s) {
  auto ch = [&](char c) { out += c; if (c == '\n') col = 1; else col++; };
  for (auto& p : s.p) switch (p.k) {
    case 'n': { double x = num(p.e, 0, 0); for (char c : " " + fmt_g(x) + " ") ch(c); break; }
    case 's': { std::string x = str(p.e, 0, 0); for (char c : x) ch(c); break; }
    case ',': do ch(' '); while (col % 8 != 1); break;
    case 'S': { double x = num(p.e, 0, 0); if (!whole(x)) err(); for (double i = 0; i < x; i++) ch(' '); break; }
    case 'T': { double x = num(p.e, 0, 0); if (!whole(x)) err(); if (x < col) ch('\n'); while (col < x) ch(' '); break; }
  }
  if (s.flag) ch('\n');
}

bool Model::get_line(std::string& l, size_t cap, bool& nl) { // at most cap characters, including the newline
  l.clear(); nl = false;
  if (!in || inpos >= in->size()) return false;
  while (inpos < in->size() && l.size() < cap) { char c = (*in)[inpos++]; if (c == '\n') { nl = true; return true; } l += c; }
  return true;
}

static const char EXTRA[] = "* Extra input was discarded *";
void Model::input(const St& s) {
  for (;;) {
  again:
    out += s.s + "? ";
    std::string l; bool nl;
    if (!get_line(l, 127, nl)) { eof = true; err(); }
    if (!nl) { bool extra = false; while (inpos < in->size()) { char c = (*in)[inpos++]; if (c == '\n') break; extra = true; } if (extra) puts_(EXTRA); }
    col = 1;
    size_t p = 0; auto blank = [&](bool nlq) { while (p < l.size() && (l[p] == ' ' || l[p] == '\t' || (nlq && l[p] == '\r'))) p++; };
    if (++steps > fuel) throw Diverge();
    for (size_t i = 0; i < s.items.size(); i++) {
      if (i) { blank(false); if (p < l.size() && l[p] == ',') p++; else { puts_("* More input items are expected *"); goto again; } }
      const LV& lv = s.items[i];
      std::vector<double> raw = eval_idx(lv, 0, 0);
      if (syms[lv.sym].str) { std::string v; while (p < l.size() && l[p] != ',') v += l[p++]; assign_str(lv, raw, v); }
      else {
        double v; size_t q = p;
        if (!to_number(l, q, v) || (q < l.size() && l[q] != ',')) { puts_("* Invalid input *"); goto again; }
        assign_num(lv, raw, v); p = q;
      }
    }
    blank(true);
    if (p < l.size()) puts_(EXTRA);
    return;
  }
}
void Model::line_input(const St& s) {
  out += s.s + "? ";
  std::string l; bool nl;
  if (!get_line(l, 127, nl)) { eof = true; err(); }
  if (!nl) { bool extra = false; while (inpos < in->size()) { char c = (*in)[inpos++]; if (c == '\n') break; extra = true; } if (extra) puts_(EXTRA); }
  col = 1;
  std::vector<double> raw = eval_idx(s.lv, 0, 0);
  assign_str(s.lv, raw, l);
}

// ------------------------------------------------------------------ session
static size_t skip(const std::string& s, size_t p) { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; return p; }
static unsigned read_num(const std::string& s, size_t& p) {
  unsigned long long v = 0; while (p < s.size() && dg(s[p])) { v = v * 10 + (s[p++] - '0'); if (v > UINT_MAX) v = UINT_MAX; } return (unsigned)v;
}

bool Model::prompt() {
  if (quit) return false;
  out += "> ";
  std::string l; bool nl;
  if (!get_line(l, 127, nl)) { quit = true; return false; }
  if (!nl) {
    puts_("Command line too long");
    while (inpos < in->size()) if ((*in)[inpos++] == '\n') break;
    return true;
  }
  cmdno++; interpret(l);
  if (visit) visit(hash());
  return !quit;
}

void Model::interpret(const std::string& line) {
  size_t p = skip(line, 0);
  if (p >= line.size()) return;
  if (dg(line[p])) {
    unsigned n = read_num(line, p);
    if (n == 0 || n == UINT_MAX) { puts_("Invalid line number"); return; }
    Prog np; if (prog) np = *prog;
    auto it = np.begin(); while (it != np.end() && it->num < n) ++it;
    if (p >= line.size()) {
      if (it == np.end() || it->num != n) return;
      np.erase(it);
    }
    else {
      if (line[p] == ' ') p++;
      if (it != np.end() && it->num == n) it->text = line.substr(p); else np.insert(it, {n, line.substr(p)});
    }
    prog = std::make_shared<Prog>(np); code.reset();
    return;
  }
  if (line[p] == '*') { p = skip(line, p + 1); if (p < line.size()) sys.push_back(line.substr(p)); return; }
  size_t q = p; while (q < line.size() && al(line[q])) q++;
  std::string w = upper(line.substr(p, q - p));
  static const char* cmds[] = {"BYE","COMPILE","CONT","HELP","LIST","LOAD","NEW","RENUM","RENUMBER","RUN","SAVE"};
  for (auto c : cmds) if (w == c) { command(w, line.substr(q)); return; }
  immediate(line.substr(p));
}

static bool eol(const std::string& s, size_t p) { return skip(s, p) >= s.size(); }
static bool quoted(const std::string& s, std::string& name) {
  size_t p = skip(s, 0); if (p >= s.size() || s[p] != '"') return false;
  size_t q = s.find('"', p + 1);
  if (q == std::string::npos) { name = s.substr(p + 1); return true; }
  name = s.substr(p + 1, q - p - 1); return true;
}
static bool after_quoted(const std::string& s) { size_t p = s.find('"'), q = s.find('"', p + 1); return q == std::string::npos || eol(s, q + 1); }

void Model::command(const std::string& c, const std::string& rest) {
  auto bad = [&] { puts_("Command syntax error"); };
  if (c == "BYE") { if (eol(rest, 0)) quit = true; else bad(); }
  else if (c == "COMPILE") compile();
  else if (c == "CONT") {
    if (!stop_pos.code || !code || stop_pos.code != code) { puts_("Cannot continue"); return; }
    cur = stop_pos; run(); cur.code.reset();
  }
  else if (c == "HELP") puts_("<help>");
  else if (c == "NEW") {
    if (!eol(rest, 0)) { bad(); return; }
    if (prog) { prog = std::make_shared<Prog>(); code.reset(); }
    clear_names();
  }
  else if (c == "LIST") list(rest);
  else if (c == "RENUM" || c == "RENUMBER") renum(rest);
  else if (c == "LOAD") { std::string n; if (!quoted(rest, n)) puts_("Quoted file name expected"); else if (!after_quoted(rest)) { puts_("Command syntax error"); puts_("Quoted file name expected"); } else load(n); }
  else if (c == "SAVE") { std::string n; if (!quoted(rest, n)) puts_("Quoted file name expected"); else if (!after_quoted(rest)) { puts_("Command syntax error"); puts_("Quoted file name expected"); } else save(n); }
  else if (c == "RUN") { clear_values(); run_program(); cur.code.reset(); }
}

void Model::list(const std::string& s) {
  unsigned a = 0, b = UINT_MAX; size_t p = skip(s, 0);
  if (p < s.size() && dg(s[p])) { a = read_num(s, p); p = skip(s, p); }
  if (p < s.size() && s[p] == '-') { p = skip(s, p + 1); if (p < s.size() && dg(s[p])) b = read_num(s, p); }
  p = skip(s, p); bool page = false;
  if (p < s.size() && (s[p] == 'p' || s[p] == 'P')) { page = true; p++; }
  if (!eol(s, p)) { puts_("Command syntax error"); return; }
  if (!prog) return;
  unsigned n = 0;
  for (size_t i = 0; i < prog->size(); i++) {
    const Line& l = (*prog)[i];
    if (l.num < a || l.num > b) continue;
    out += std::to_string(l.num) + " " + l.text; n++;
    if (page && n % 24 == 23 && i + 1 < prog->size()) { while (inpos < in->size()) if ((*in)[inpos++] == '\n') break; }
    else out += '\n';
  }
}

void Model::renum(const std::string& s) {
  unsigned nw = 10, old = 1, inc = 10; size_t p = skip(s, 0);
  if (p < s.size() && dg(s[p])) { nw = read_num(s, p); p = skip(s, p); }
  if (p < s.size() && s[p] == ',') { p = skip(s, p + 1); if (p < s.size() && dg(s[p])) old = read_num(s, p); }
  if (p < s.size() && s[p] == ',') { p = skip(s, p + 1); if (p < s.size() && dg(s[p])) inc = read_num(s, p); }
  if (!eol(s, p)) { puts_("Command syntax error"); return; }
  if (!prog) return;
  std::map<unsigned, unsigned> m; unsigned long long v = nw, prev = 0;
  for (auto& l : *prog) {
    unsigned long long to = l.num;
    if (l.num >= old) {
      to = v;
      if (to <= prev || to > 65535) { out += "Cannot renumber line " + std::to_string(l.num) + " to " + std::to_string(to) + " after line " + std::to_string(prev) + "\n"; return; }
      v += inc;
    }
    m[l.num] = (unsigned)to; prev = to;
  }
  Prog np;
  for (auto& l : *prog) {
    std::string t; size_t done = 0; Lexer lx(l.text, kw);
    Tok k = lx.next();
    while (k.t != T_EOL) {
      if (k.t == REM_) break;
      if (k.t == DATA_) { std::string d; do { if (!lx.datum(d)) break; k = lx.next(); } while (k.t == ','); continue; }
      bool list = k.t == GOTO_ || k.t == GOSUB_, ref = list || k.t == THEN_ || k.t == ELSE_ || k.t == RESTORE_;
      k = lx.next();
      if (!ref) continue;
      while (k.t == T_NUM) {
        if (k.n > 0 && k.n <= 65535 && std::floor(k.n) == k.n && m.count((unsigned)k.n)) {
          t += l.text.substr(done, k.pos - done) + std::to_string(m[(unsigned)k.n]); done = k.end;
        }
        k = lx.next();
        if (list && k.t == ',') k = lx.next(); else break;
      }
    }
    t += l.text.substr(done);
    np.push_back({m[l.num], t});
  }
  prog = std::make_shared<Prog>(np); code.reset();
}

static bool fault(const Case* c, int k, const std::string& p) { return c && c->fault.kind == k && c->fault.path == p; }

bool Model::load(const std::string& name) {
  auto bad = [&] { errs.push_back({'F', {}, inpos}); return false; };
  auto it = files.find(name);
  if (it == files.end() || fault(env, 1, name)) return bad();
  const std::string& d = it->second;
  if (fault(env, 2, name) && env->fault.at <= (long)d.size()) return bad();
  Prog np; size_t p = 0; unsigned last = 0;
  while (p < d.size()) {
    size_t e = d.find('\n', p); if (e == std::string::npos) return bad();
    std::string l = d.substr(p, e - p); p = e + 1;
    if (l.empty() || l.size() > 254) return bad();
    size_t q = 0; unsigned long long n = 0;
    while (q < l.size() && dg(l[q])) { n = n * 10 + (l[q++] - '0'); if (n > UINT_MAX) return bad(); }
    if (!q || n <= last) return bad();
    last = (unsigned)n;
    if (q < l.size() && l[q] == ' ') q++;
    np.push_back({(unsigned)n, l.substr(q)});
  }
  prog = std::make_shared<Prog>(np); code.reset();
  return true;
}
void Model::save(const std::string& name) {
  if (!prog) { puts_("No program to save"); return; }
  if (fault(env, 1, name) || name.empty() || name.find('/') != std::string::npos) { errs.push_back({'F', {}, inpos}); return; }
  std::string d; for (auto& l : *prog) d += std::to_string(l.num) + " " + l.text + "\n";
  files[name] = d;
  if ((fault(env, 3, name) && env->fault.at < (long)d.size()) || fault(env, 4, name)) { errs.push_back({'F', {}, inpos}); dontcare_files.push_back(name); }
}

// ------------------------------------------------------------------ hashing
struct H { uint64_t h = 1469598103934665603ULL; void b(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; uint64_t x = h; while (n--) { x = (x ^ *q++) * 1099511628211ULL; } h = x; }
  void u(uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } void s(const std::string& t) { u(t.size()); b(t.data(), t.size()); } void d(double x) { uint64_t v; memcpy(&v, &x, 8); u(v); }
  void pos(const Pos& p) { u(p.code ? (p.code->imm ? 2 : 1) : 0); u(p.line * 64 + p.st); } };
uint64_t Model::hash() const {
  H h;
  if (prog) for (auto& l : *prog) { h.u(l.num); h.s(l.text); }
  h.u(!!prog); h.u(!!code); h.pos(cur); h.pos(stop_pos);
  if (cur.code && cur.code->imm) h.s(cur.code->lines[0].text);
  for (auto& s : syms) {
    h.s(s.name); h.u(s.kind); h.d(s.num); h.s(s.s);
    if (s.arr) { h.u(s.arr->dims * 7 + 1); h.u(s.arr->max[0]); h.u(s.arr->max[1]); if (s.arr->n.size() <= 256) for (double x : s.arr->n) h.d(x); if (s.arr->s.size() <= 256) for (auto& x : s.arr->s) h.s(x); }
    if (s.def) { h.s(s.def->line); h.u(s.def->imm); }
  }
  for (auto& f : fors) { h.pos(f.pos); h.u(f.sym); h.d(f.step); h.d(f.limit); }
  for (auto& r : rets) h.pos(r);
  h.u(pdata * 1000 + idata); h.u(col); h.u(inpos); h.u(rng); h.u(stopped);
  return h.h;
}

// ------------------------------------------------------------------ complete runs
void Model::start(const Case& c, const std::string* i) {
  env = &c; files = c.files; in = i; inpos = 0;
}

void run_case(const Case& c, Outcome& o, bool deep_limit, uint64_t (*visit)(uint64_t), long fuel) {
  brk.n = 0;
  Model m; m.deep_limit = deep_limit; m.visit = visit; m.fuel = fuel;
  std::string in; for (auto& l : c.in) in += l;
  m.start(c, &in);
  std::string file; bool have = false; enum { RUN, LIST, NAMES, PARSE } mode = RUN;
  bool quiet = false;
  for (auto& a : c.argv) {
    if (a == "-q" || a == "--quiet") quiet = true;
    else if (a == "-k" || a == "--keywords-anywhere") m.kw = true;
    else if (a == "-t" || a == "--trace-basic") m.trace = true;
    else if (a == "-f" || a == "--trace-for") m.tracefor = true;
    else if (a == "-g" || a == "--trace-log") ;
    else if (a == "-m" || a == "--report-memory") ;
    else if (a == "-l" || a == "--list") mode = LIST;
    else if (a == "-n" || a == "--list-names") mode = NAMES;
    else if (a == "-p" || a == "--parse") mode = PARSE;
    else if (a == "-r" || a == "--run") mode = RUN;
    else if (a == "-z" || a == "--randomize") { m.rng = (unsigned)(c.now + m.nowcalls++) * 2654435761u + 12345u; }
    else { file = a; have = true; }
  }
  (void)quiet;
  try {
    if (!have) while (m.prompt()) ;
    else if (!m.load(file)) m.status = 1;
    else if (mode == RUN) m.run_program();
    else if (mode == LIST) { for (auto& l : *m.prog) { char b[16]; snprintf(b, sizeof b, "%5u ", l.num); m.out += b + l.text + "\n"; } }
    else if (mode == PARSE) { if (!m.compile()) m.status = 1; }
    else if (mode == NAMES) {
      std::map<std::string, std::string> names;
      for (auto& l : *m.prog) {
        Lexer lx(l.text, m.kw); Tok k = lx.next();
        while (k.t != T_EOL && k.t != REM_) {
          if (k.t == DATA_) { std::string d; do { if (!lx.datum(d)) break; k = lx.next(); } while (k.t == ','); continue; }
          if (k.t == T_ID) names.insert({upper(k.s), k.s});
          k = lx.next();
        }
      }
      for (auto& n : names) m.out += std::string(builtin_of(n.first) >= 0 ? "*" : n.first == "SPC" || n.first == "TAB" ? "=" : " ") + " " + n.second + "\n";
    }
  }
  catch (Diverge&) { m.diverged = true; }
  o.out.swap(m.out); o.errs.swap(m.errs); o.status = m.status; o.files.swap(m.files); o.sys.swap(m.sys);
  o.diverged = m.diverged; o.deep = m.deep; o.rterror = m.rterror; o.steps = m.steps; o.dontcare = m.dontcare_files;
}
}
