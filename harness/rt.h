// Runtime: executes the real interpreter (sut.so) deterministically, in process, many times per second.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <cstdint>

struct Fault { // environment fault: deviation from "everything succeeds"
  int kind = 0;        // 0 none, 1 open fails, 2 read fails at byte `at`, 3 write fails at byte `at`, 4 close fails
  std::string path;    // on this file
  long at = 0;
};

struct Case {
  std::vector<std::string> argv;               // without argv[0]
  std::map<std::string,std::string> files;
  std::vector<std::string> in;                 // stdin, one element per line, each normally ending in '\n'
  long irq_block = -1;                         // deliver SIGINT when this many basic blocks have been executed
  long irq_read = -1;                          // deliver SIGINT while waiting for this read of stdin (0-based)
  int irq_times = 1;                           // so many signals one after the other, at the same point
  Fault fault;
  std::vector<int> rnd;                        // scripted results of rand(); then the deterministic generator
  long now = 0;                                // time(NULL); later calls +1 each
  int sysret = 0;                              // result of system()
  std::string note;                            // free text for replay files
};

enum Kind { K_RETURN, K_EXIT, K_ABORT, K_HORIZON, K_MEMERR, K_HARNESS };
extern const char* kind_name[];

struct HandlerEvent { long block; bool installed; size_t outpos; };

struct Result {
  Kind kind = K_RETURN;
  int status = 0;
  std::string why;                             // for abnormal kinds
  std::string out, err;
  std::map<std::string,std::string> files;
  std::vector<std::string> sys;
  long live = 0;                               // blocks still allocated
  long open_files = 0;
  long blocks = 0;                             // basic blocks executed
  long reads = 0;                              // reads of stdin
  std::vector<size_t> err_at_read;             // length of stderr at each of them
  // interrupt delivery
  bool irq_delivered = false;
  bool irq_nohandler = false;                  // no handler at that point: not delivered
  size_t irq_outpos = 0;                       // bytes of output produced at delivery
  long rand_calls = 0, srand_calls = 0; unsigned last_seed = 0;
  bool atboundary = false;
};

struct RunOpts {
  long horizon = 2000000;
  int fill = 0xBE;
  bool reuse = false;                          // released blocks are handed out again, the last one first
  bool record_handlers = false;
  std::vector<HandlerEvent>* handlers = nullptr;
  std::vector<long>* read_blocks = nullptr;          // blocks executed at each read of stdin (only when set)
  std::vector<uint32_t>* outpos_at_block = nullptr; // output position at each block (only when set)
};

void rt_load(const char* so);                  // dlopen + snapshot
void rt_run(const Case&, const RunOpts&, Result&);

std::string case_to_text(const Case&);
bool case_from_text(const std::string&, Case&);
std::string esc(const std::string&);
std::string unesc(const std::string&);
int lcg_next(uint32_t& s);                     // the deterministic generator, shared with the model
