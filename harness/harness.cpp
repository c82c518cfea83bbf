// Test host for conformance checks: reads cases, runs them against the real
// library through its public interface only, and writes what it observed as
// one JSON line per case.  Every case runs in a process of its own.
//
//   harness CASES OUT [first] [step]
//
// A case is a list of lines of integers, each starting with a keyword:
//   case ID | opt N | h BITS | dump N | flags BITS | limit SECONDS
//   file PATHLEN codes.. LEN codes..      (first file is the main source)
//   input VALUE..                         (one value per line)
//   op O T N P FLEN codes.. ARGC values..
//   end
// VALUE: 0 | 1 n | 2 hi lo | 3 len codes..
// flags: 1 report the compiled program, 2 save and load it before running,
//        4 do not run, 8 compile twice, 16 load main from a file, 32 junk
//        between steps, 64 a history of saves and loads instead of a run,
//        128 in a compiler, program and machine that were used before,
//        256 (with 128) in a new machine, 512 texts: the message, lines of
//        the sources and names of errors
//   side LEN codes..                      (a source of operations from 60 on)
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "lib_builtins/builtin.h"
#include "lib_common/instructions.h"
#include "lib_common/program.h"
#include "lib_common/source.h"
#include "lib_compiler/disassembler.h"
#include "lib_compiler/errors.h"
#include "lib_compiler/nano.h"
#include "lib_compiler/parser.h"
#include "lib_compiler/ast.h"
#include "lib_compiler/codegen.h"
#include "lib_vm/thread.h"
#include "lib_vm/vm.h"

using namespace nano;
typedef std::vector<int> ints;

struct val_s {
  int k = 0;
  int n = 0;
  float f = 0;
  std::string s;
};

struct op_s {
  int o = 0, t = 0, n = 0, p = 0;
  std::string f;
  std::vector<val_s> a;
};

struct case_s {
  int id = 0, opt = 1, h = 0, dump = 0, flags = 0, limit = 20;
  std::vector<std::pair<std::string, std::string>> files;
  std::vector<std::string> sides;
  std::vector<val_s> inputs;
  std::vector<op_s> ops;
};

static FILE *g_out;
static case_s *g_case;
static vm_t *g_vm;
static program_t *g_prog;
static int g_next_tid;
static int g_host_tid;  // the last thread started by the host, op.t = 0
static size_t g_events;
static const size_t MAX_EVENTS = 20000;

// ---- output
static std::string g_log;
static bool g_mute;  // what happens now is not shown

static void lg_begin() {
  g_log += g_events ? ",[" : "[";
  ++g_events;
  if (g_events > MAX_EVENTS && !g_mute) {
    fprintf(stderr, "too many events\n");
    _exit(77);
  }
}
static void lg_flush() {
  fwrite(g_log.data(), 1, g_log.size(), g_out);
  fflush(g_out);
  g_log.clear();
}
// what happened before a fault is kept
static size_t g_shown;
static void on_fault(int s) {
  signal(s, SIG_DFL);
  if (g_mute) g_log.resize(g_shown);
  lg_flush();
  raise(s);
}
static void lg_int(long v, bool &first) {
  if (!first) g_log += ",";
  first = false;
  g_log += std::to_string(v);
}
static void lg_end() {
  g_log += "]";
  if (g_log.size() > 60000 && !g_mute) lg_flush();
}
static void lg(const ints &v) {
  lg_begin();
  bool first = true;
  for (int x : v) lg_int(x, first);
  lg_end();
}

// ---- thread identities: numbered in creation order
static void number_threads() {
  const auto &l = g_vm->thread();
  for (auto i = l.rbegin(); i != l.rend(); ++i) {
    if (!(*i)->user_data) (*i)->user_data = (void *)(intptr_t)(++g_next_tid);
  }
}
static int tid(thread_t &t) {
  number_threads();
  return int((intptr_t)t.user_data);
}
static thread_t *find_thread(int id) {
  for (thread_t *t : g_vm->thread())
    if (int((intptr_t)t->user_data) == id) return t;
  return nullptr;
}

// ---- encoding of values
struct enc_t {
  ints s;
  std::map<const value_t *, int> seen;
  void str(const std::string &x) {
    s.push_back(int(x.size()));
    for (char c : x) s.push_back((unsigned char)c);
  }
  void value(const value_t *v) {
    switch (v->type()) {
    case val_type_none: s.push_back(0); return;
    case val_type_int: s.push_back(1); s.push_back(v->integer()); return;
    case val_type_float: {
      uint32_t b;
      float f = v->f;
      memcpy(&b, &f, 4);
      if (f != f) b = 0x7fc00000;
      s.push_back(2); s.push_back(int(b >> 16)); s.push_back(int(b & 0xffff));
      return;
    }
    case val_type_string:
      s.push_back(3);
      str(std::string(v->string(), v->strlen()));
      return;
    case val_type_array: {
      auto i = seen.find(v);
      s.push_back(4);
      if (i != seen.end()) { s.push_back(i->second); return; }
      const int k = int(seen.size()) + 1;
      seen[v] = k;
      s.push_back(k);
      const int n = v->array_size();
      s.push_back(n);
      for (int j = 0; j < n; ++j) value(v->array()[j]);
      return;
    }
    case val_type_func: {
      const function_t *f = g_vm->program().function_find(v->v);
      s.push_back(6);
      str(f && f->code_start_ == v->v ? f->name() : "?bad function value");
      return;
    }
    case val_type_syscall: {
      s.push_back(7);
      auto &sc = g_prog->syscalls();
      str(v->v >= 0 && v->v < int(sc.size()) ? sc[v->v].name_ : "?bad syscall value");
      return;
    }
    default:
      s.push_back(-99);
      s.push_back(int(v->type()));
    }
  }
};
static ints cat(ints a, const ints &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static ints enc1(const std::vector<const value_t *> &vs) {
  enc_t e;
  for (auto *v : vs) e.value(v);
  return e.s;
}
static ints strints(const std::string &x) {
  enc_t e;
  e.str(x);
  return e.s;
}

// ---- host functions
static value_t *make(value_gc_t &gc, const val_s &v) {
  switch (v.k) {
  case 1: return gc.new_int(v.n);
  case 2: return gc.new_float(v.f);
  case 3: return gc.new_string(v.s);
  default: return gc.new_none();
  }
}
static std::vector<const value_t *> pop_args(thread_t &t, int32_t n) {
  std::vector<const value_t *> a(n);
  for (int i = n - 1; i >= 0; --i) a[i] = t.get_stack().pop();
  return a;
}
#define NARGS(N) if (n != (N)) { t.raise_error(thread_error_t::e_bad_num_args); return; }
static void bad_arg(thread_t &t) { t.raise_error(thread_error_t::e_bad_argument); }

static void h_out(thread_t &t, int32_t n) {
  NARGS(1);
  auto a = pop_args(t, n);
  lg(cat({1, tid(t)}, enc1(a)));
  t.get_stack().push_none();
}
static void h_emit(thread_t &t, int32_t n) {
  auto a = pop_args(t, n);
  lg(cat({2, tid(t), n}, enc1(a)));
  t.get_stack().push_int(n);
}
static void h_id(thread_t &t, int32_t n) {
  NARGS(1);
  value_t *v = t.get_stack().pop();
  t.get_stack().push(v);
}
static void h_mk(thread_t &t, int32_t n) {
  NARGS(1);
  value_t *v = t.get_stack().pop();
  auto &s = t.get_stack();
  if (!v->is_a<val_type_int>()) return bad_arg(t);
  switch (v->integer()) {
  case 0: s.push_none(); return;
  case 1: s.push_int(7); return;
  case 2: s.push_float(1.5f); return;
  case 3: s.push_string("hs"); return;
  case 4: {
    value_t *a = t.gc().new_array(2);
    a->array()[0] = t.gc().new_int(1);
    a->array()[1] = t.gc().new_string(std::string("e"));
    s.push(a);
    return;
  }
  default: bad_arg(t);
  }
}
static void h_fail(thread_t &t, int32_t n) {
  NARGS(1);
  value_t *v = t.get_stack().pop();
  if (!v->is_a<val_type_int>() || v->integer() < 1 || v->integer() > 20) return bad_arg(t);
  lg({3, tid(t), v->integer()});
  t.raise_error(thread_error_t(v->integer()));
}
static void h_halt(thread_t &t, int32_t n) {
  NARGS(0);
  t.halt();
  t.get_stack().push_int(0);
}
static void lg_named(const std::string &name, const value_t *v, bool &first) {
  if (!first) g_log += ",";
  first = false;
  g_log += "[[";
  bool f = true;
  for (char c : name) lg_int((unsigned char)c, f);
  g_log += "],[";
  f = true;
  for (int x : enc1({v})) lg_int(x, f);
  g_log += "]]";
}
static void h_vars(thread_t &t, int32_t n) {
  NARGS(0);
  const int id = tid(t);
  lg_begin();
  g_log += "30," + std::to_string(id) + ",[";
  bool first = true;
  const function_t *f = g_vm->program().function_find(t.get_pc() - 1);
  if (f && !t.frames().empty()) {
    const int32_t sp = t.frames().back().sp_;
    value_stack_t &st = t.get_stack();
    for (auto *list : {&f->args_, &f->locals_})
      for (auto &i : *list) {
        const int32_t at = sp + i.offset_;
        if (at >= 0 && at < st.head()) lg_named(i.name_, st.data()[at], first);
      }
  }
  g_log += "],[";
  first = true;
  for (auto &i : g_vm->program().globals()) {
    if (i.offset_ >= 0 && i.offset_ < int(g_vm->globals().size()))
      lg_named(i.name_, g_vm->globals()[i.offset_], first);
  }
  g_log += "]";
  lg_end();
  t.get_stack().push_none();
}
static void h_get(thread_t &t, int32_t n) {
  NARGS(1);
  value_t *v = t.get_stack().pop();
  if (!v->is_a<val_type_int>() || v->integer() < 0 || v->integer() >= int(g_case->inputs.size()))
    return bad_arg(t);
  t.get_stack().push(make(t.gc(), g_case->inputs[v->integer()]));
}
static void junk(value_gc_t &gc, int n) {
  static const std::string s(23, char(0xDE));
  for (int i = 0; i < n; ++i) {
    gc.new_int(int(0xDEADDEAD));
    gc.new_string(s);
    gc.new_array(3);
  }
}
static void h_junk(thread_t &t, int32_t n) {
  NARGS(1);
  value_t *v = t.get_stack().pop();
  if (v->is_a<val_type_int>() && v->integer() < 1000) junk(t.gc(), v->integer());
  t.get_stack().push_int(0);
}

// a call made by a function of the host
static void h_nest(thread_t &t, int32_t n) {
  auto a = pop_args(t, n);
  if (n == 0 || !a[0]->is_a<val_type_func>()) return bad_arg(t);
  const function_t *f = t.vm().program().function_find(a[0]->v);
  if (!f || int(f->num_args()) != n - 1) return bad_arg(t);
  number_threads();
  value_t *ret = nullptr;
  thread_error_t err = thread_error_t::e_success;
  const bool ok = t.vm().call_once(*f, n - 1, a.data() + 1, ret, err);
  number_threads();
  if (ok) t.get_stack().push(ret);
  else t.get_stack().push_int(1000 + int(err));
}

static const struct { const char *name; int n; nano_syscall_t f; } HOST[] = {
  {"out", 1, h_out}, {"emit", -1, h_emit}, {"id", 1, h_id}, {"mk", 1, h_mk},
  {"fail", 1, h_fail}, {"halt", 0, h_halt}, {"vars", 0, h_vars}, {"get", 1, h_get},
  {"junk", 1, h_junk}, {"nores", 1, nullptr},
  {"nest", -1, h_nest}};

// many functions whose names begin with or look like those of others
static const int WIDE = 320;
static std::string wide_name(int i) {
  return (i % 2 ? "W" : "w") + std::to_string((WIDE - 1 - i) / 2);
}
static int wide_args(int i) { return i % 7 == 0 ? -1 : i % 3; }
template <int N>
static void h_wide(thread_t &t, int32_t n) {
  if (wide_args(N) >= 0) { NARGS(wide_args(N)); }
  auto a = pop_args(t, n);
  lg(cat({5, tid(t), N, n}, enc1(a)));
  t.get_stack().push_int(N);
}
template <int... N>
static std::vector<nano_syscall_t> wide_table(std::integer_sequence<int, N...>) { return {h_wide<N>...}; }
static const std::vector<nano_syscall_t> WIDE_HOST = wide_table(std::make_integer_sequence<int, WIDE>());

// ---- handlers
template <int BIT>
static bool h_arith(thread_t &t, const value_t *l, const value_t *r) {
  lg(cat({50, tid(t), BIT}, enc1({l, r})));
  if (BIT == 16 ? (l->is_a<val_type_string>() || r->is_a<val_type_string>())
                : r->is_a<val_type_none>())
    return false;
  t.get_stack().push_int(1000 + BIT);
  return true;
}
static bool h_aget(thread_t &t, value_t *a, const value_t *i) {
  lg(cat({51, tid(t)}, enc1({a, i})));
  if (!i->is_a<val_type_string>()) return false;
  t.get_stack().push(const_cast<value_t *>(i));
  return true;
}
static bool h_aset(thread_t &t, value_t *a, const value_t *i, value_t *v) {
  lg(cat({52, tid(t)}, enc1({a, i, v})));
  return i->is_a<val_type_string>();
}
static bool h_mget(thread_t &t, value_t *o, const std::string &m) {
  lg(cat(cat({53, tid(t)}, strints(m)), enc1({o})));
  if (m.size() != 1) return false;
  t.get_stack().push_string(m);
  return true;
}
static bool h_mset(thread_t &t, value_t *o, value_t *e, const std::string &m) {
  lg(cat(cat({54, tid(t)}, strints(m)), enc1({o, e})));
  return m.size() == 1;
}
static bool h_terr(thread_t &t) {
  lg({60, tid(t), int(t.get_error())});
  return true;
}
static bool h_tfin(thread_t &t) {
  lg({61, tid(t), int(t.get_error())});
  return true;
}

// ---- compile
static void setup(nano_t &n) {
  builtins_register(n);
  for (auto &h : HOST) n.syscall_register(h.name, h.n);
  if (g_case && (g_case->flags & 1024))
    for (int i = 0; i < WIDE; ++i) n.syscall_register(wide_name(i), wide_args(i));
}
static void resolve(program_t &p) {
  builtins_resolve(p);
  for (auto &h : HOST)
    if (h.f) p.syscall_resolve(h.name, h.f);
  if (g_case && (g_case->flags & 1024))
    for (int i = WIDE - 1; i >= 0; --i) p.syscall_resolve(wide_name(i), WIDE_HOST[i]);
}

static std::string json_str(const std::string &s) {
  std::string o = "[";
  bool f = true;
  for (char c : s) {
    if (!f) o += ",";
    f = false;
    o += std::to_string((unsigned char)c);
  }
  return o + "]";
}

struct compiled_t {
  int rc = 0;
  error_t err;
};

static compiled_t compile(const case_s &c, program_t &prog, source_manager_t &src,
                          const std::string &dir, nano_t *used = nullptr, const error_t *last = nullptr) {
  compiled_t r;
  r.err.clear();
  if (last) r.err = *last;  // the error is the host's, who may use it again too
  bool loaded;
  if (c.flags & 16) {
    loaded = src.load((dir + c.files[0].first).c_str());
  } else {
    // an exact heap copy so that reads past its end are seen
    const std::string &s = c.files[0].second;
    char *copy = (char *)malloc(s.size() + 1);
    memcpy(copy, s.data(), s.size());
    copy[s.size()] = '\0';
    loaded = src.load_from_string(copy);
    free(copy);
  }
  if (!loaded) {
    r.rc = 2;
    return r;
  }
  std::unique_ptr<nano_t> fresh(used ? nullptr : new nano_t(prog));
  nano_t &n = used ? *used : *fresh;
  n.optimize = c.opt != 0;
  setup(n);
  r.rc = n.build(src, r.err) ? 1 : 0;
  return r;
}

// what must survive being saved
static std::string saved_json(program_t &p) {
  std::ostringstream o;
  o << "\"code\":[";
  for (size_t i = 0; i < p.size(); ++i) o << (i ? "," : "") << int(p.data()[i]);
  o << "],\"funcs\":[";
  bool first = true;
  for (auto &f : p.functions()) {
    o << (first ? "" : ",") << "{\"name\":" << json_str(f.name_) << ",\"s\":" << f.code_start_
      << ",\"e\":" << f.code_end_;
    first = false;
    for (int k = 0; k < 2; ++k) {
      o << (k ? ",\"locals\":[" : ",\"args\":[");
      bool ff = true;
      for (auto &i : (k ? f.locals_ : f.args_)) {
        o << (ff ? "" : ",") << "[" << json_str(i.name_) << "," << i.offset_ << "]";
        ff = false;
      }
      o << "]";
    }
    o << "}";
  }
  o << "],\"strs\":[";
  first = true;
  for (auto &s : p.strings()) { o << (first ? "" : ",") << json_str(s); first = false; }
  o << "],\"sys\":[";
  first = true;
  for (auto &s : p.syscalls()) { o << (first ? "" : ",") << json_str(s.name_); first = false; }
  o << "],\"lines\":[";
  first = true;
  for (auto &l : p.line_table()) {
    o << (first ? "" : ",") << "[" << l.first << "," << l.second.file << "," << l.second.line << "]";
    first = false;
  }
  o << "]";
  return o.str();
}

static std::string program_json(program_t &p) {
  std::ostringstream o;
  o << saved_json(p);
  o << ",\"globs\":[";
  bool first = true;
  for (auto &i : p.globals()) {
    o << (first ? "" : ",") << "[" << json_str(i.name_) << "," << i.offset_ << "]";
    first = false;
  }
  o << "]";
  // the disassembly: address, length, text
  o << ",\"dis\":[";
  first = true;
  disassembler_t d;
  for (size_t at = 0; at < p.size();) {
    std::string text;
    std::vector<uint8_t> tail(p.data() + at, p.data() + p.size());
    tail.resize(tail.size() + 16, 0);
    const int n = d.disasm(tail.data(), text);
    const instruction_e e = instruction_e(p.data()[at]);
    int cls = 0;
    if (p.data()[at] < __INS_COUNT__)
      cls = ins_has_operand(e) * 1 + ins_will_branch(e) * 2 + ins_is_binary_op(e) * 4 +
            ins_is_unary_op(e) * 8;
    o << (first ? "" : ",") << "[" << at << "," << n << "," << cls << "," << json_str(text) << ","
      << json_str(p.data()[at] < __INS_COUNT__ ? disassembler_t::get_mnemonic(e) : "?") << "]";
    first = false;
    if (n <= 0) break;
    at += n;
  }
  o << "]";
  // the byte of each operation, in the order of the specification
  static const instruction_e OPS[] = {
    INS_ADD, INS_SUB, INS_MUL, INS_DIV, INS_MOD, INS_AND, INS_OR, INS_NOT, INS_NEG, INS_LT, INS_GT,
    INS_LEQ, INS_GEQ, INS_EQ, INS_JMP, INS_TJMP, INS_FJMP, INS_CALL, INS_RET, INS_SCALL, INS_ICALL,
    INS_POP, INS_NEW_INT, INS_NEW_STR, INS_NEW_ARY, INS_NEW_NONE, INS_NEW_FLT, INS_NEW_FUNC,
    INS_NEW_SCALL, INS_LOCALS, INS_GLOBALS, INS_GETV, INS_SETV, INS_DEREF, INS_SETA, INS_GETG,
    INS_SETG, INS_GETM, INS_SETM, INS_ARY_INIT};
  o << ",\"opn\":[";
  first = true;
  for (auto e : OPS) { o << (first ? "" : ",") << int(e); first = false; }
  o << "],\"listing\":[";
  char *text = nullptr;
  size_t size = 0;
  FILE *fd = open_memstream(&text, &size);
  d.dump(p, fd);
  fclose(fd);
  std::istringstream ls(std::string(text, size));
  std::string line;
  first = true;
  while (std::getline(ls, line)) {
    if (line.empty()) continue;
    o << (first ? "" : ",") << json_str(line);
    first = false;
  }
  free(text);
  o << "]";
  return o.str();
}

// ---- run
static void status(ints &e) {
  const case_s &c = *g_case;
  if (c.dump == 0) return;
  number_threads();
  const auto &l = g_vm->thread();
  e.push_back(g_vm->finished());
  e.push_back(g_vm->has_error());
  e.push_back(int(l.size()));
  enc_t en;
  for (thread_t *t : l) {
    en.s.push_back(tid(*t));
    en.s.push_back(t->finished());
    en.s.push_back(int(t->get_error()));
    en.s.push_back(t->waits);
    const line_t ln = t->get_source_line();
    if (c.dump == 1) {
      if (t->has_error()) { en.s.push_back(ln.file); en.s.push_back(ln.line); }
      if (t->finished() && !t->has_error()) {
        ints r = enc1({t->get_return_value()});
        en.s.insert(en.s.end(), r.begin(), r.end());
      }
    } else {
      en.s.push_back(int(t->get_cycle_count()));
      en.s.push_back(t->get_pc());
      en.s.push_back(ln.file);
      en.s.push_back(ln.line);
      if (!t->has_error()) {
        en.s.push_back(int(t->frames().size()));
        for (auto &f : t->frames()) {
          en.s.push_back(f.sp_);
          en.s.push_back(f.return_);
          en.s.push_back(f.terminal_);
        }
        value_stack_t &st = t->get_stack();
        en.s.push_back(st.head());
        for (int i = 0; i < st.head(); ++i) en.value(st.data()[i]);
      }
    }
  }
  if (c.dump >= 2) {
    en.s.push_back(int(g_vm->globals().size()));
    for (auto *v : g_vm->globals()) en.value(v);
  }
  e.insert(e.end(), en.s.begin(), en.s.end());
}
static void done(ints e) {
  status(e);
  lg(e);
}
static int pos(const line_t &l) { return l.file < 0 ? -1 : l.file * 65536 + l.line; }

static value_gc_t *g_gc_of(vm_t &vm) {
  return vm.thread().empty() ? nullptr : &vm.thread().front()->gc();
}
static void junk_between(vm_t &vm) {
  if (!(g_case->flags & 32)) return;
  if (value_gc_t *gc = g_gc_of(vm)) junk(*gc, 2);
}

static const value_t *g_ret;  // of the call just made
static void side_op(const op_s &op);
static void run_op(const op_s &op) {
  vm_t &vm = *g_vm;
  const value_t *last = g_ret;
  g_ret = nullptr;
  if (op.o >= 60) return side_op(op);
  switch (op.o) {
  case 1: {
    const bool ok = vm.call_init();
    return done({101, ok});
  }
  case 2:
  case 3:
  case 21:
  case 22: {
    const function_t *f = g_prog->function_find(op.f);
    if (!f) return done({100 + op.o, -1});
    // the arguments live outside of the collected heap, or are values of the machine
    std::vector<const value_t *> a;
    value_gc_t *gc = new value_gc_t;
    for (auto &v : op.a) {
      if (op.o < 20) a.push_back(make(*gc, v));
      else if (v.n < 0) a.push_back(last);
      else a.push_back(v.n < int(vm.globals().size()) ? vm.globals()[v.n] : nullptr);
    }
    if (op.o == 2 || op.o == 21) {
      value_t *ret = nullptr;
      thread_error_t err = thread_error_t::e_success;
      const bool ok = vm.call_once(*f, int(a.size()), a.data(), ret, err);
      delete gc;
      if (!ok) return done({100 + op.o, 0, int(err)});
      g_ret = ret;
      return done(cat({100 + op.o, 1, int(err)}, enc1({ret})));
    }
    thread_t *t = vm.new_thread(*f, int(a.size()), a.data());
    delete gc;
    if (!t) return done({100 + op.o, 0});
    g_host_tid = tid(*t);
    return done({100 + op.o, 1, tid(*t)});
  }
  case 4: {
    const bool ok = vm.resume(uint32_t(op.n));
    return done({104, ok});
  }
  case 18: {
    // resume until every thread has ended
    bool ok = true;
    int left = 50 * 1000 * 1000;
    while (ok && !vm.finished() && left-- > 0) {
      ok = vm.resume(uint32_t(op.n));
      number_threads();
      junk_between(vm);
    }
    return done({118, ok});
  }
  case 19: {
    // the same call many times, only the last result is seen
    const function_t *f = g_prog->function_find(op.f);
    if (!f) return done({119, -1});
    std::vector<const value_t *> a;
    std::unique_ptr<value_gc_t> gc(new value_gc_t);
    for (auto &v : op.a) a.push_back(make(*gc, v));
    bool ok = true;
    value_t *ret = nullptr;
    thread_error_t err = thread_error_t::e_success;
    for (int i = 0; i < op.n; ++i) ok = vm.call_once(*f, int(a.size()), a.data(), ret, err);
    if (!ok) return done({119, 0, int(err)});
    return done(cat({119, 1, int(err)}, enc1({ret})));
  }
  case 20: {
    // the same thread again and again, each run to its end and removed
    const function_t *f = g_prog->function_find(op.f);
    if (!f || f->num_args() != int(op.a.size())) return done({120, -1});
    std::vector<const value_t *> a;
    std::unique_ptr<value_gc_t> gc(new value_gc_t);
    for (auto &v : op.a) a.push_back(make(*gc, v));
    for (int i = 0; i < op.n; ++i) {
      vm.new_thread(*f, int(a.size()), a.data());
      int left = 50 * 1000 * 1000;
      while (!vm.finished() && left-- > 0) vm.resume(uint32_t(op.p));
      while (!vm.thread().empty() && left-- > 0) vm.resume(uint32_t(op.p));
    }
    return done({120, 1});
  }
  case 11:
    vm.reset();
    return done({111});
  }
  number_threads();
  thread_t *t = find_thread(op.t ? op.t : g_host_tid);
  if (!t) return done({100 + op.o, -1});
  switch (op.o) {
  case 5: { const bool ok = t->resume(op.n); return done({105, ok}); }
  case 6: { const bool ok = t->step_inst(); return done({106, ok}); }
  case 7: { const bool ok = t->step_line(); return done({107, ok}); }
  case 8: t->breakpoint_add(line_t(op.p / 65536, op.p % 65536)); return done({108});
  case 9: t->breakpoint_remove(line_t(op.p / 65536, op.p % 65536)); return done({109});
  case 10: t->breakpoint_clear(); return done({110});
  case 12: {
    if (t->finished()) return done({112, -2});
    std::vector<int> lines{pos(t->get_source_line())};
    bool ok = true;
    while (!t->finished()) {
      ok = t->step_inst();
      if (t->finished()) break;
      const int p = pos(t->get_source_line());
      if (p != -1 && p != lines.back()) lines.push_back(p);
    }
    ints e;
    lg_begin();
    g_log += "112," + std::to_string(ok) + ",[";
    bool first = true;
    for (int x : lines) lg_int(x, first);
    g_log += "]";
    status(e);
    first = false;
    for (int x : e) lg_int(x, first);
    lg_end();
    return;
  }
  case 15:
  case 16:
  case 17: {
    if (t->finished()) return done({100 + op.o, 0});
    bool ok = true;
    while (!t->finished()) {
      ok = op.o == 15 ? t->resume(op.n) : op.o == 16 ? t->step_inst() : t->step_line();
      if (g_case->flags & 32) junk(t->gc(), 2);
    }
    return done({100 + op.o, ok});
  }
  }
}

static std::string g_dir;

static void set_handlers(vm_t &vm, int bits) {
  auto &h = vm.handlers;
  h = handlers_t();
  if (bits & 1) h.on_add = h_arith<1>;
  if (bits & 2) h.on_sub = h_arith<2>;
  if (bits & 4) h.on_mul = h_arith<4>;
  if (bits & 8) h.on_div = h_arith<8>;
  if (bits & 16) h.on_equals = h_arith<16>;
  if (bits & 32) h.on_array_get = h_aget;
  if (bits & 64) h.on_array_set = h_aset;
  if (bits & 128) h.on_member_get = h_mget;
  if (bits & 256) h.on_member_set = h_mset;
  if (bits & 512) h.on_thread_error = h_terr;
  if (bits & 1024) h.on_thread_finish = h_tfin;
}

// ---- objects that are used again, and others beside them
struct world_t {
  program_t prog;
  source_manager_t src;
  error_t err;
  std::unique_ptr<nano_t> nano;
  std::unique_ptr<vm_t> vm;
  bool built = false;
  int next_tid = 0, host_tid = 0;
  world_t() : nano(new nano_t(prog)), vm(new vm_t(prog)) {}
  ~world_t() { vm.reset(); nano.reset(); }
};
static std::unique_ptr<world_t> g_main, g_other;
static std::unique_ptr<vm_t> g_second;  // a second machine for the main program
static int g_second_tid, g_second_host;

// run f with another machine in the place of the judged one, showing nothing
template <typename F>
static void aside(vm_t *vm, program_t *prog, int &next, int &host, F f) {
  vm_t *v = g_vm;
  program_t *p = g_prog;
  const int n = g_next_tid, h = g_host_tid;
  const size_t ev = g_events;
  g_vm = vm;
  g_prog = prog;
  g_next_tid = next;
  g_host_tid = host;
  g_mute = true;
  g_shown = g_log.size();
  f();
  g_log.resize(g_shown);
  g_mute = false;
  g_events = ev;
  next = g_next_tid;
  host = g_host_tid;
  g_vm = v;
  g_prog = p;
  g_next_tid = n;
  g_host_tid = h;
}
static void side_build(world_t &w, const std::string &text, int opt) {
  w.nano->reset();
  w.src.clear();
  w.built = false;
  w.nano->optimize = opt != 0;
  setup(*w.nano);
  if (w.src.load_from_string(text.c_str())) w.built = w.nano->build(w.src, w.err);
  if (w.built) resolve(w.prog);
}
static void side_start(vm_t &vm, program_t &prog, const op_s &op) {
  set_handlers(vm, op.p);
  vm.call_init();
  const function_t *f = prog.function_find(op.f);
  if (!f || f->num_args() != int(op.a.size())) return;
  std::vector<const value_t *> a;
  std::unique_ptr<value_gc_t> gc(new value_gc_t);
  for (auto &v : op.a) a.push_back(make(*gc, v));
  if (op.t == 1) {
    value_t *ret = nullptr;
    thread_error_t err = thread_error_t::e_success;
    vm.call_once(*f, int(a.size()), a.data(), ret, err);
  } else {
    thread_t *t = vm.new_thread(*f, int(a.size()), a.data());
    if (t) g_host_tid = tid(*t);
    vm.resume(uint32_t(op.n));
  }
}
static void side_op(const op_s &op) {
  world_t &m = *g_main, &b = *g_other;
  const std::string file = g_dir + "s" + std::to_string(op.t);
  auto in_main = [&](std::function<void()> f) { aside(m.vm.get(), &m.prog, m.next_tid, m.host_tid, f); };
  auto in_other = [&](std::function<void()> f) { aside(b.vm.get(), &b.prog, b.next_tid, b.host_tid, f); };
  switch (op.o) {
  // the objects that are used again
  case 60: in_main([&] { side_build(m, g_case->sides[op.p], op.n); }); break;
  case 61: in_main([&] { m.vm->reset(); if (m.built) side_start(*m.vm, m.prog, op); }); break;
  case 62: m.vm->reset(); break;
  case 63: m.vm->reset(); m.nano->reset(); m.built = false; break;
  case 64: m.prog.serial_save(file.c_str()); break;
  case 65:
    m.vm->reset();
    m.built = m.prog.serial_load(file.c_str());
    if (m.built) resolve(m.prog);
    break;
  case 66: m.vm.reset(); m.vm.reset(new vm_t(m.prog)); break;
  case 67: m.vm->reset(); m.prog.reset(); m.built = false; break;
  // objects beside them
  case 70: in_other([&] { b.vm->reset(); side_build(b, g_case->sides[op.p], op.n); }); break;
  case 71: in_other([&] { if (b.built) side_start(*b.vm, b.prog, op); }); break;
  case 72: in_other([&] { if (b.built) b.vm->resume(uint32_t(op.n)); }); break;
  case 73:
    if (!g_vm) break;
    g_second.reset(new vm_t(*g_prog));
    g_second_tid = g_second_host = 0;
    aside(g_second.get(), g_prog, g_second_tid, g_second_host, [&] { side_start(*g_second, *g_prog, op); });
    break;
  case 74:
    if (g_second) aside(g_second.get(), g_prog, g_second_tid, g_second_host, [&] { g_second->resume(uint32_t(op.n)); });
    break;
  case 75: g_second.reset(); break;
  case 76:
    if (g_second)
      for (thread_t *t : g_second->thread()) t->breakpoint_add(line_t(op.p / 65536, op.p % 65536));
    for (thread_t *t : b.vm->thread()) t->breakpoint_add(line_t(op.p / 65536, op.p % 65536));
    break;
  case 77: in_other([&] { b.vm->reset(); }); break;
  case 78: if (g_second) g_second->reset(); break;
  }
}

// ---- histories of saves and loads
// a write that failed succeeds from now on
static void on_limit(int) {
  struct rlimit rl;
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = rl.rlim_max;
  setrlimit(RLIMIT_FSIZE, &rl);
}
static bool save_limited(program_t &p, const std::string &path, long n, bool once) {
  unlink(path.c_str());
  struct rlimit rl;
  getrlimit(RLIMIT_FSIZE, &rl);
  const rlim_t old = rl.rlim_cur;
  signal(SIGXFSZ, once ? on_limit : SIG_IGN);
  rl.rlim_cur = rlim_t(n);
  setrlimit(RLIMIT_FSIZE, &rl);
  const bool ok = p.serial_save(path.c_str());
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = old;
  setrlimit(RLIMIT_FSIZE, &rl);
  signal(SIGXFSZ, SIG_DFL);
  return ok;
}
static std::string file_bytes(const std::string &path) {
  std::ifstream i(path, std::ios::binary);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
static void file_write(const std::string &path, const std::string &b) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(b.data(), b.size());
}
static void serial_case(case_s &c) {
  std::vector<std::unique_ptr<program_t>> progs;
  std::vector<std::string> reports{};
  fprintf(g_out, "{\"id\":%d,\"rc\":1,\"again\":-1,\"eline\":[-1,-1],\"msg\":0,\"nsrc\":0,\"srcs\":[],\"log\":[", c.id);
  fflush(g_out);
  program_t none;
  reports.push_back(saved_json(none));
  for (auto &f : c.files) {
    progs.emplace_back(new program_t);
    source_manager_t src;
    case_s one = c;
    one.files = {f};
    one.flags = 0;
    if (compile(one, *progs.back(), src, g_dir).rc != 1) {
      lg({199});
      lg_flush();
      return;
    }
    reports.push_back(saved_json(*progs.back()));
  }
  program_t slots[3];
  auto path = [&](int t) { return g_dir + "f" + std::to_string(t); };
  auto which = [&](program_t &p) {
    const std::string r = saved_json(p);
    for (size_t i = 0; i < reports.size(); ++i)
      if (reports[i] == r) return int(i);
    return -1;
  };
  auto empty = [&](program_t &p) {
    return p.size() == 0 && p.functions().empty() && p.strings().empty() && p.syscalls().empty() &&
           p.line_table().empty() && p.globals().empty();
  };
  for (auto &op : c.ops) {
    const std::string f = path(op.t);
    switch (op.o) {
    case 30: {  // save program p to file t
      const bool ok = progs[op.p - 1]->serial_save(f.c_str());
      lg({130, ok, int(file_bytes(f).size())});
      break;
    }
    case 31: {  // load file t into slot p
      const bool ok = slots[op.p].serial_load(f.c_str());
      lg({131, ok, which(slots[op.p])});
      break;
    }
    case 32: {  // cut file t to n bytes (negative: from its end)
      std::string b = file_bytes(f);
      const size_t n = op.n < 0 ? (size_t(-op.n) > b.size() ? 0 : b.size() + op.n) : size_t(op.n);
      if (n < b.size()) b.resize(n);
      if (access(f.c_str(), F_OK) == 0) file_write(f, b);
      lg({132, int(b.size())});
      break;
    }
    case 33: {  // change byte n of file t by p
      std::string b = file_bytes(f);
      if (op.n < int(b.size())) {
        b[op.n] = char(b[op.n] ^ op.p);
        file_write(f, b);
      }
      lg({133, int(b.size())});
      break;
    }
    case 34:  // remove file t
      unlink(f.c_str());
      lg({134});
      break;
    case 35: {  // save program p where nothing can be written
      const std::string where = op.n == 0 ? "/dev/full" : op.n == 1 ? g_dir + "nosuch/f" : g_dir;
      const bool ok = progs[op.p - 1]->serial_save(where.c_str());
      lg({135, ok});
      break;
    }
    case 36: {  // save slot p to file t
      const bool ok = slots[op.p].serial_save(f.c_str());
      lg({136, ok, int(file_bytes(f).size())});
      break;
    }
    case 37: {  // save program p to file t, at most n bytes
      const bool ok = save_limited(*progs[op.p - 1], f, op.n, false);
      lg({137, ok, int(file_bytes(f).size())});
      break;
    }
    case 38: {  // every cut of program p: loaded, not empty
      progs[op.p - 1]->serial_save(f.c_str());
      const std::string b = file_bytes(f);
      ints e{138};
      for (size_t n = 0; n < b.size(); ++n) {
        file_write(f, b.substr(0, n));
        program_t x;
        if (op.n) x.serial_load(path(9).c_str());
        const bool ok = x.serial_load(f.c_str());
        e.push_back(ok + 2 * !empty(x));
      }
      lg(e);
      break;
    }
    case 39:
    case 40: {  // every limit on writing program p (40: only the first write fails)
      progs[op.p - 1]->serial_save(f.c_str());
      const size_t size = file_bytes(f).size();
      ints e{100 + op.o};
      for (size_t n = 0; n < size; n += std::max(1, op.n)) {
        const bool ok = save_limited(*progs[op.p - 1], f, long(n), op.o == 40);
        program_t x;
        const bool back = x.serial_load(f.c_str());
        e.push_back(ok + 2 * back + 4 * (back && which(x) == op.p));
      }
      lg(e);
      break;
    }
    case 41: {  // every other value of every byte of the header
      progs[op.p - 1]->serial_save(f.c_str());
      const std::string b = file_bytes(f);
      ints e{141};
      for (int at = 0; at < 4; ++at)
        for (int v = 1; v < 256; ++v) {
          std::string x = b;
          x[at] = char(x[at] ^ v);
          file_write(f, x);
          program_t y;
          const bool ok = y.serial_load(f.c_str());
          e.push_back(ok + 2 * !empty(y));
        }
      lg(e);
      break;
    }
    }
  }
  lg_flush();
}

// what a person is shown: the message, lines of the sources, names of errors
static void texts_json(const case_s &c, const compiled_t &r, const source_manager_t &src) {
  fprintf(g_out, ",\"etext\":%s,\"lines\":[", json_str(r.err.error).c_str());
  bool first = true;
  for (int f = 0; f < src.count() && r.rc != 2; ++f) {
    const std::string text = src.get_source(f).data();
    const int last = int(std::count(text.begin(), text.end(), '\n')) + 1;
    std::set<int> at{1, 2, last / 2, last - 1, last, last + 1, last + 2, last + 100};
    if (r.rc == 0 && r.err.line.file == f) at.insert({r.err.line.line, r.err.line.line + 1});
    for (int n : at) {
      if (n < 1) continue;
      const line_t where{f, n};
      fprintf(g_out, "%s[%d,%d,%s]", first ? "" : ",", f, n, json_str(src.get_line(where)).c_str());
      first = false;
    }
  }
  fprintf(g_out, "],\"names\":[");
  for (int e = 0; e <= int(thread_error_t::e_bad_member_access); ++e)
    fprintf(g_out, "%s%s", e ? "," : "", json_str(get_thread_error(thread_error_t(e))).c_str());
  fprintf(g_out, "]");
}

static void run_case(case_s &c) {
  g_case = &c;
  g_events = 0;
  g_next_tid = 0;
  if (c.flags & 64) return serial_case(c);
  if (c.flags & 16) {
    for (auto &f : c.files) {
      const std::string path = g_dir + f.first;
      for (size_t i = g_dir.size(); (i = path.find('/', i)) != std::string::npos; ++i)
        mkdir(path.substr(0, i).c_str(), 0755);
      if (!f.first.empty() && f.first.back() == '/') continue;
      std::ofstream o(path, std::ios::binary);
      o.write(f.second.data(), f.second.size());
    }
  }
  size_t first_op = 0;
  if (c.flags & 128) {
    g_main.reset(new world_t);
    g_other.reset(new world_t);
    for (; first_op < c.ops.size() && c.ops[first_op].o >= 60; ++first_op) side_op(c.ops[first_op]);
    // now as if it was new
    g_main->vm->reset();
    g_main->nano->reset();
    g_main->src.clear();
  }
  program_t prog_new;
  source_manager_t src_new;
  program_t &prog = c.flags & 128 ? g_main->prog : prog_new;
  source_manager_t &src = c.flags & 128 ? g_main->src : src_new;
  compiled_t r = compile(c, prog, src, g_dir, c.flags & 128 ? g_main->nano.get() : nullptr,
                         c.flags & 128 ? &g_main->err : nullptr);
  int again = -1;
  if (c.flags & 8) {
    program_t prog2;
    source_manager_t src2;
    compiled_t r2 = compile(c, prog2, src2, g_dir);
    again = r2.rc == r.rc && r2.err.error == r.err.error && r2.err.line == r.err.line &&
            (r.rc != 1 || program_json(prog2) == program_json(prog));
  }
  fprintf(g_out, "{\"id\":%d,\"rc\":%d,\"again\":%d,\"eline\":[%d,%d],\"msg\":%d,\"nsrc\":%d", c.id, r.rc, again,
          r.err.line.file, r.err.line.line, int(r.err.error.size()), src.count());
  {
    // files in compilation order, relative to the scratch directory
    fprintf(g_out, ",\"srcs\":[");
    for (int i = 0; i < src.count(); ++i) {
      std::string p = src.get_source(i).file_path();
      if (p.compare(0, g_dir.size(), g_dir) == 0) p = p.substr(g_dir.size());
      fprintf(g_out, "%s%s", i ? "," : "", json_str(p).c_str());
    }
    fprintf(g_out, "]");
  }
  if (c.flags & 512) texts_json(c, r, src);
  program_t prog3;
  program_t *use = &prog;
  if (r.rc == 1 && (c.flags & 2)) {
    const std::string path = g_dir + "saved.bin";
    const bool ok = prog.serial_save(path.c_str()) && prog3.serial_load(path.c_str());
    fprintf(g_out, ",\"serial\":%d,\"saved\":{%s},\"loaded\":{%s}", ok, saved_json(prog).c_str(),
            saved_json(prog3).c_str());
    use = &prog3;
  }
  if (r.rc == 1 && (c.flags & 1)) fprintf(g_out, ",%s", program_json(*use).c_str());
  fprintf(g_out, ",\"log\":[");
  fflush(g_out);
  if (r.rc == 1 && !(c.flags & 4)) {
    resolve(*use);
    std::unique_ptr<vm_t> fresh;
    if (!(c.flags & 128) || (c.flags & 256) || use != &prog) fresh.reset(new vm_t(*use));
    vm_t &vm = fresh ? *fresh : *g_main->vm;
    g_vm = &vm;
    g_prog = use;
    set_handlers(vm, c.h);
    for (size_t i = first_op; i < c.ops.size(); ++i) {
      run_op(c.ops[i]);
      number_threads();
      junk_between(vm);
    }
    lg_flush();
    g_second.reset();
  }
  fflush(g_out);
  if (c.flags & 128) {
    g_other.reset();
    g_main.reset();
  }
}

// ---- case files
static bool parse_line(std::istringstream &in, const std::string &key, case_s &c) {
  auto num = [&]() { int v = 0; in >> v; return v; };
  auto text = [&]() {
    const int n = num();
    std::string s;
    for (int i = 0; i < n; ++i) s.push_back(char(num()));
    return s;
  };
  auto value = [&]() {
    val_s v;
    v.k = num();
    if (v.k == 1) v.n = num();
    if (v.k == 2) {
      uint32_t b = uint32_t(num()) << 16;
      b |= uint32_t(num());
      memcpy(&v.f, &b, 4);
    }
    if (v.k == 3) v.s = text();
    return v;
  };
  if (key == "opt") c.opt = num();
  else if (key == "h") c.h = num();
  else if (key == "dump") c.dump = num();
  else if (key == "flags") c.flags = num();
  else if (key == "limit") c.limit = num();
  else if (key == "file") { auto p = text(); c.files.emplace_back(p, text()); }
  else if (key == "side") c.sides.push_back(text());
  else if (key == "input") c.inputs.push_back(value());
  else if (key == "op") {
    op_s o;
    o.o = num(); o.t = num(); o.n = num(); o.p = num();
    o.f = text();
    const int n = num();
    for (int i = 0; i < n; ++i) o.a.push_back(value());
    c.ops.push_back(o);
  } else return false;
  return true;
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::ifstream in(argv[1]);
  if (!in) return 2;
  g_dir = argv[3];
  g_dir += "/";
  const int first = argc > 4 ? atoi(argv[4]) : 0;
  const int step = argc > 5 ? atoi(argv[5]) : 1;
  setvbuf(stdout, nullptr, _IONBF, 0);
  signal(SIGPIPE, SIG_IGN);
  std::string line;
  case_s c;
  int index = -1;
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) return 2;
  const std::string base = g_dir;
  int late = 0;  // cases that ran out of time: from the third on, less of it is given
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string key;
    ls >> key;
    if (key == "case") {
      c = case_s();
      ls >> c.id;
      ++index;
      continue;
    }
    if (key != "end") {
      if (index % step == first && !parse_line(ls, key, c)) return 2;
      continue;
    }
    if (index % step != first) continue;
    g_dir = base + std::to_string(c.id) + "/";
    if (c.flags & (2 | 16 | 64 | 128)) mkdir(g_dir.c_str(), 0755);
    if (late >= 3) c.limit = std::max(2, c.limit / 6);
    const pid_t p = fork();
    if (p == 0) {
      g_out = fdopen(fd, "a");
      struct rlimit rl = {rlim_t(c.limit), rlim_t(c.limit)};
      setrlimit(RLIMIT_CPU, &rl);
      rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rl = {64u << 20, 64u << 20};
      setrlimit(RLIMIT_FSIZE, &rl);
      alarm(c.limit * 3);
#ifndef __SANITIZE_ADDRESS__
      rl = {rlim_t(3) << 30, rlim_t(3) << 30};
      setrlimit(RLIMIT_AS, &rl);
#endif
      static char alt[1 << 16];
      stack_t ss = {};
      ss.ss_sp = alt;
      ss.ss_size = sizeof(alt);
      sigaltstack(&ss, nullptr);
      for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGXCPU, SIGALRM}) {
        struct sigaction sa = {};
        sa.sa_handler = on_fault;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
      }
      run_case(c);
      fflush(g_out);
      _exit(0);
    }
    if (p < 0) return 3;
    int st = 0;
    waitpid(p, &st, 0);
    std::string end = "0";
    // 0 fine, 1 killed by a fault, 2 out of time, 3 other
    if (WIFSIGNALED(st)) {
      const int s = WTERMSIG(st);
      end = (s == SIGXCPU || s == SIGALRM || s == SIGKILL) ? "2" : "1";
    } else if (WEXITSTATUS(st) != 0) {
      end = WEXITSTATUS(st) == 77 ? "3" : "1";
    }
    late += end == "2";
    const std::string tail = (end == "0" ? "]" : "]") + std::string(",\"end\":") + end + "}\n";
    if (write(fd, tail.data(), tail.size()) < 0) return 3;
  }
  return 0;
}
