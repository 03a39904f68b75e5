// Capture analysis, escape queries and side-effect analysis of every bounded function over a small
// heap (objects with one field, two arguments, a local, a global, helper and external calls),
// against every concrete execution of that function.
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/cir.h"
#include "codon/cir/dsl/nodes.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/transform/pass.h"
#include "codon/cir/util/irtools.h"
#include "explore.h"
#include <array>
#include <functional>
#include <memory>
#include <set>

using namespace mc;
using namespace codon::ir;
using namespace codon::ir::analyze;

enum VarId { P, Q, X, G, NVARS };
static const char *names[] = {"p", "q", "x", "g"};

enum Op { COPY, FRESH, LOAD, STORE, EXT, IDCALL, GETCALL, MKCALL, LINKCALL, TERN, RETURN, THROW, STORELOAD, UNUSED, EXT2, SWAPCALL };
struct Stmt {
  Op op;
  int a = 0, b = 0, c = 0;
};
static std::string show(const Stmt &s) {
  std::string a = names[s.a], b = names[s.b], c = names[s.c];
  switch (s.op) {
  case COPY: return a + "=" + b;
  case FRESH: return a + "=new";
  case LOAD: return a + "=" + b + ".f";
  case STORE: return a + ".f=" + b;
  case EXT: return "ext(" + a + ")";
  case EXT2: return "ext2(" + a + "," + b + ")";
  case IDCALL: return a + "=id(" + b + ")";
  case GETCALL: return a + "=get(" + b + ")";
  case MKCALL: return a + "=mk(" + b + ")";
  case LINKCALL: return "link(" + a + "," + b + ")";
  case SWAPCALL: return a + "=swap(" + b + "," + c + ")";
  case TERN: return a + "=" + b + "?" + c;
  case RETURN: return "return " + a;
  case THROW: return "throw " + a;
  case STORELOAD: return a + ".f.f=" + b;
  case UNUSED: return "y=" + a;
  }
  return "";
}

static std::vector<Stmt> menu(bool full) {
  std::vector<Stmt> m;
  for (int d : {X, P})
    for (int s : {P, Q, X, G})
      if (d != s)
        m.push_back({COPY, d, s});
  m.push_back({FRESH, X});
  if (full)
    m.push_back({FRESH, P});
  for (int d : {X, P})
    for (int s : {P, Q, X})
      m.push_back({LOAD, d, s});
  for (int s : {P, Q, X})
    for (int t : {P, Q, X})
      if (full || s != t)
        m.push_back({STORE, s, t});
  m.push_back({COPY, G, X});
  m.push_back({COPY, G, P});
  m.push_back({LOAD, G, P});
  m.push_back({STORE, G, P});
  m.push_back({EXT, P});
  m.push_back({EXT, X});
  m.push_back({EXT2, X, Q});
  m.push_back({IDCALL, X, P});
  m.push_back({IDCALL, X, Q});
  m.push_back({GETCALL, X, P});
  m.push_back({MKCALL, X, P});
  m.push_back({MKCALL, X, X});
  m.push_back({LINKCALL, X, P});
  m.push_back({LINKCALL, P, X});
  m.push_back({LINKCALL, Q, X});
  m.push_back({LINKCALL, X, Q});
  m.push_back({SWAPCALL, X, P, Q});
  m.push_back({TERN, X, P, Q});
  m.push_back({TERN, X, X, P});
  m.push_back({STORELOAD, X, P});
  m.push_back({STORELOAD, Q, X});
  m.push_back({RETURN, X});
  m.push_back({RETURN, P});
  m.push_back({THROW, X});
  m.push_back({UNUSED, X});
  return m;
}

enum Shape { SEQ, IF1, LOOP3, LOOP2, IFELSE, LOOPIF, TRY, NSHAPES };
static const char *shapes[] = {"%s; %s; %s", "if{%s} %s; %s", "while{%s; %s; %s}", "%s; while{%s; %s}",
                               "if{%s}else{%s} %s", "while{%s; if{%s} %s}", "try{%s; %s}catch{%s}"};
// what the function ends with
enum End { RETX, RETNEW, RETGET, NENDS };
static const char *ends[] = {"return x", "return new", "return x.f"};

struct Fn {
  std::array<Stmt, 3> s;
  Shape shape;
  End end;
  std::string text() const {
    char buf[400];
    snprintf(buf, sizeof buf, shapes[shape], show(s[0]).c_str(), show(s[1]).c_str(), show(s[2]).c_str());
    return std::string(buf) + "; " + ends[end];
  }
};

// ------------------------------------------------------------------ concrete executions

struct Obj {
  int f;
};
struct State {
  std::vector<Obj> heap;
  int var[NVARS];
  std::set<int> ext;      // objects the outside world has
  std::set<int> written;  // objects that were written
  bool gWritten = false, threw = false, called = false;
  int ret = -1, thrown = -1;
  std::map<int, int> site; // allocation site of x = new: object -> statement
};

struct Machine {
  Explorer &ex;
  const Fn &fn;
  unsigned skip; // statements left out
  State st;
  bool done = false;
  int steps = 0;

  static constexpr int P0 = 0, Q0 = 3, G0 = 6; // three objects each: the last one points to itself

  Machine(Explorer &ex, const Fn &fn, unsigned skip = 0) : ex(ex), fn(fn), skip(skip) {
    for (int r = 0; r < 3; r++) {
      st.heap.push_back({r * 3 + 1});
      st.heap.push_back({r * 3 + 2});
      st.heap.push_back({r * 3 + 2});
    }
    st.var[P] = P0;
    st.var[Q] = Q0;
    st.var[G] = G0;
    st.var[X] = fresh();
    st.site[st.var[X]] = -1;
  }
  int fresh() {
    int i = st.heap.size();
    st.heap.push_back({i});
    return i;
  }
  void write(int o, int v) {
    st.heap[o].f = v;
    st.written.insert(o);
  }
  std::set<int> reach(std::set<int> roots) const {
    std::vector<int> todo(roots.begin(), roots.end());
    while (!todo.empty()) {
      int o = todo.back();
      todo.pop_back();
      if (roots.insert(st.heap[o].f).second)
        todo.push_back(st.heap[o].f);
    }
    return roots;
  }
  enum Flow { NEXT, RET, EXC };
  Flow stmt(int i) {
    if (skip & (1u << i))
      return NEXT;
    auto &s = fn.s[i];
    auto *v = st.var;
    switch (s.op) {
    case COPY:
      v[s.a] = v[s.b];
      if (s.a == G)
        st.gWritten = true;
      return NEXT;
    case FRESH:
      v[s.a] = fresh();
      st.site[v[s.a]] = i;
      return NEXT;
    case LOAD:
      v[s.a] = st.heap[v[s.b]].f;
      if (s.a == G)
        st.gWritten = true;
      return NEXT;
    case STORE:
      write(v[s.a], v[s.b]);
      return NEXT;
    case STORELOAD:
      write(st.heap[v[s.a]].f, v[s.b]);
      return NEXT;
    case EXT:
    case EXT2: {
      st.called = true;
      st.ext.insert(v[s.a]);
      if (s.op == EXT2)
        st.ext.insert(v[s.b]);
      if (fn.shape == TRY && ex.choose(2)) {
        st.thrown = -1;
        return EXC;
      }
      if (s.op == EXT2)
        switch (ex.choose(3)) {
        case 1: write(v[s.a], v[s.b]); break;
        case 2: write(v[s.b], v[s.a]); break;
        }
      return NEXT;
    }
    case IDCALL:
      v[s.a] = v[s.b];
      return NEXT;
    case GETCALL:
      v[s.a] = st.heap[v[s.b]].f;
      return NEXT;
    case MKCALL: {
      int o = fresh();
      st.heap[o].f = v[s.b];
      v[s.a] = o;
      return NEXT;
    }
    case LINKCALL:
      write(v[s.a], v[s.b]);
      return NEXT;
    case SWAPCALL: { // t = a.f; a.f = b; return t
      int t = st.heap[v[s.b]].f;
      write(v[s.b], v[s.c]);
      v[s.a] = t;
      return NEXT;
    }
    case TERN:
      v[s.a] = ex.choose(2) ? v[s.b] : v[s.c];
      return NEXT;
    case RETURN:
      st.ret = v[s.a];
      return RET;
    case THROW:
      st.thrown = v[s.a];
      return EXC;
    case UNUSED:
      return NEXT;
    }
    return NEXT;
  }
  Flow seq(std::initializer_list<int> l) {
    for (int i : l) {
      auto f = stmt(i);
      if (f != NEXT)
        return f;
    }
    return NEXT;
  }
  Flow body() {
    Flow f = NEXT;
    switch (fn.shape) {
    case SEQ:
      return seq({0, 1, 2});
    case IF1:
      if (ex.choose(2))
        f = stmt(0);
      return f != NEXT ? f : seq({1, 2});
    case LOOP3:
      for (int i = 0; i < 2 && ex.choose(2); i++)
        if ((f = seq({0, 1, 2})) != NEXT)
          return f;
      return NEXT;
    case LOOP2:
      if ((f = stmt(0)) != NEXT)
        return f;
      for (int i = 0; i < 3 && ex.choose(2); i++)
        if ((f = seq({1, 2})) != NEXT)
          return f;
      return NEXT;
    case IFELSE:
      f = ex.choose(2) ? stmt(0) : stmt(1);
      return f != NEXT ? f : stmt(2);
    case LOOPIF:
      for (int i = 0; i < 2 && ex.choose(2); i++) {
        if ((f = stmt(0)) != NEXT)
          return f;
        if (ex.choose(2) && (f = stmt(1)) != NEXT)
          return f;
        if ((f = stmt(2)) != NEXT)
          return f;
      }
      return NEXT;
    case TRY:
      f = seq({0, 1});
      if (f == EXC && st.thrown < 0) { // only errors of the external calls are caught here
        f = stmt(2);
      }
      return f;
    default:
      return NEXT;
    }
  }
  void run() {
    auto f = body();
    if (f == EXC) {
      st.threw = true;
      if (st.thrown >= 0)
        st.ext.insert(st.thrown);
    } else if (f == NEXT) {
      st.ret = fn.end == RETX ? st.var[X] : fn.end == RETNEW ? fresh() : st.heap[st.var[X]].f;
    }
  }
  // the observable outcome: the graph seen from the result, the arguments' objects, the global
  std::string outcome(bool withGlobal) const {
    std::map<int, int> id;
    std::string r;
    std::function<void(int)> visit = [&](int o) {
      if (o < 0) {
        r += "-";
        return;
      }
      auto it = id.find(o);
      if (it != id.end()) {
        r += std::to_string(it->second) + ",";
        return;
      }
      id[o] = id.size();
      r += "(" + std::to_string(id[o]);
      visit(st.heap[o].f);
      r += ")";
    };
    for (int i = 0; i < 9; i++)
      visit(i);
    visit(st.ret);
    visit(st.threw ? (st.thrown >= 0 ? st.thrown : -1) : -1);
    if (withGlobal)
      visit(st.var[G]);
    for (int o : st.ext)
      visit(o);
    r += st.threw ? "!" : "";
    r += st.called ? "c" : "";
    return r;
  }
};

// ------------------------------------------------------------------ the same functions as IR

struct Builder {
  std::unique_ptr<Module> M = std::make_unique<Module>("m");
  types::Type *N;
  Func *alloc, *ext, *ext2, *id, *get, *mk, *link, *swap, *cond;

  Value *v(Var *x) { return M->Nr<VarValue>(x); }
  Value *call(Func *f, std::vector<Value *> a = {}) { return M->Nr<CallInstr>(v(f), std::move(a)); }

  BodiedFunc *bodied(const std::string &n, std::vector<std::string> args, types::Type *ret) {
    auto *f = M->Nr<BodiedFunc>(n);
    f->setUnmangledName(n);
    std::vector<types::Type *> ts(args.size(), N);
    f->realize(M->unsafeGetFuncType(n + "_t", ret, ts), args);
    f->setBody(M->Nr<SeriesFlow>());
    return f;
  }
  SeriesFlow *body(BodiedFunc *f) { return cast<SeriesFlow>(f->getBody()); }

  Builder() {
    N = M->unsafeGetMemberedType("N", true);
    cast<types::RefType>(N)->getContents()->realize({N}, {"f"});
    auto *a = M->Nr<InternalFunc>("__new__");
    a->setUnmangledName("__new__");
    a->realize(M->unsafeGetFuncType("alloc_t", N, {}), {});
    a->setParentType(N);
    alloc = a;
    auto external = [&](const char *n, types::Type *ret, std::vector<std::string> args) {
      auto *f = M->Nr<ExternalFunc>(n);
      f->setUnmangledName(n);
      std::vector<types::Type *> ts(args.size(), N);
      f->realize(M->unsafeGetFuncType(std::string(n) + "_t", ret, ts), args);
      return f;
    };
    ext = external("ext", M->getVoidType(), {"a"});
    ext2 = external("ext2", M->getVoidType(), {"a", "b"});
    cond = external("cond", M->getBoolType(), {});
    cond->setAttribute(std::make_unique<KeyValueAttribute>(
        std::unordered_map<std::string, std::string>{{util::PURE_ATTR, ""}}));
    auto *f = bodied("id", {"a"}, N);
    body(f)->push_back(M->Nr<ReturnInstr>(v(*f->arg_begin())));
    id = f;
    f = bodied("get", {"a"}, N);
    body(f)->push_back(M->Nr<ReturnInstr>(M->Nr<ExtractInstr>(v(*f->arg_begin()), "f")));
    get = f;
    f = bodied("mk", {"a"}, N);
    auto *n = M->Nr<Var>(N, false, false, false, "n");
    f->push_back(n);
    body(f)->push_back(M->Nr<AssignInstr>(n, call(alloc)));
    body(f)->push_back(M->Nr<InsertInstr>(v(n), "f", v(*f->arg_begin())));
    body(f)->push_back(M->Nr<ReturnInstr>(v(n)));
    mk = f;
    f = bodied("link", {"a", "b"}, M->getVoidType());
    body(f)->push_back(M->Nr<InsertInstr>(v(*f->arg_begin()), "f", v(*std::next(f->arg_begin()))));
    link = f;
    f = bodied("swap", {"a", "b"}, N);
    auto *t = M->Nr<Var>(N, false, false, false, "t");
    f->push_back(t);
    body(f)->push_back(M->Nr<AssignInstr>(t, M->Nr<ExtractInstr>(v(*f->arg_begin()), "f")));
    body(f)->push_back(M->Nr<InsertInstr>(v(*f->arg_begin()), "f", v(*std::next(f->arg_begin()))));
    body(f)->push_back(M->Nr<ReturnInstr>(v(t)));
    swap = f;
  }

  struct Built {
    Fn fn;
    BodiedFunc *f;
    Value *stmts[3];
    Value *allocs[3] = {nullptr, nullptr, nullptr};
    Value *alloc0;
    bool gRead;
  };

  Built build(const Fn &fn, int k) {
    Built b;
    b.fn = fn;
    auto *f = b.f = bodied("f" + std::to_string(k), {"p", "q"}, N);
    auto *x = M->Nr<Var>(N, false, false, false, "x");
    auto *y = M->Nr<Var>(N, false, false, false, "y");
    auto *g = M->Nr<Var>(N, true, false, false, "g");
    f->push_back(x);
    f->push_back(y);
    Var *vars[] = {*f->arg_begin(), *std::next(f->arg_begin()), x, g};
    auto *s = body(f);
    s->push_back(M->Nr<AssignInstr>(x, b.alloc0 = call(alloc)));
    b.gRead = false;
    for (int i = 0; i < 3; i++) {
      auto &t = fn.s[i];
      auto V = [&](int n) { return v(vars[n]); };
      Value *r = nullptr;
      switch (t.op) {
      case COPY: r = M->Nr<AssignInstr>(vars[t.a], V(t.b)); b.gRead |= t.b == G; break;
      case FRESH: r = M->Nr<AssignInstr>(vars[t.a], b.allocs[i] = call(alloc)); break;
      case LOAD: r = M->Nr<AssignInstr>(vars[t.a], M->Nr<ExtractInstr>(V(t.b), "f")); break;
      case STORE: r = M->Nr<InsertInstr>(V(t.a), "f", V(t.b)); b.gRead |= t.a == G; break;
      case STORELOAD: r = M->Nr<InsertInstr>(M->Nr<ExtractInstr>(V(t.a), "f"), "f", V(t.b)); break;
      case EXT: r = call(ext, {V(t.a)}); break;
      case EXT2: r = call(ext2, {V(t.a), V(t.b)}); break;
      case IDCALL: r = M->Nr<AssignInstr>(vars[t.a], call(id, {V(t.b)})); break;
      case GETCALL: r = M->Nr<AssignInstr>(vars[t.a], call(get, {V(t.b)})); break;
      case MKCALL: r = M->Nr<AssignInstr>(vars[t.a], call(mk, {V(t.b)})); break;
      case LINKCALL: r = call(link, {V(t.a), V(t.b)}); break;
      case SWAPCALL: r = M->Nr<AssignInstr>(vars[t.a], call(swap, {V(t.b), V(t.c)})); break;
      case TERN: r = M->Nr<AssignInstr>(vars[t.a], M->Nr<TernaryInstr>(call(cond), V(t.b), V(t.c))); break;
      case RETURN: r = M->Nr<ReturnInstr>(V(t.a)); break;
      case THROW: r = M->Nr<ThrowInstr>(V(t.a)); break;
      case UNUSED: r = M->Nr<AssignInstr>(y, V(t.a)); break;
      }
      b.stmts[i] = r;
    }
    auto ser = [&](std::vector<Value *> l) {
      auto *s = M->Nr<SeriesFlow>();
      for (auto *x : l)
        s->push_back(x);
      return s;
    };
    auto *a = b.stmts[0], *c = b.stmts[1], *d = b.stmts[2];
    switch (fn.shape) {
    case SEQ: s->push_back(a); s->push_back(c); s->push_back(d); break;
    case IF1: s->push_back(M->Nr<IfFlow>(call(cond), ser({a}))); s->push_back(c); s->push_back(d); break;
    case LOOP3: s->push_back(M->Nr<WhileFlow>(call(cond), ser({a, c, d}))); break;
    case LOOP2: s->push_back(a); s->push_back(M->Nr<WhileFlow>(call(cond), ser({c, d}))); break;
    case IFELSE: s->push_back(M->Nr<IfFlow>(call(cond), ser({a}), ser({c}))); s->push_back(d); break;
    case LOOPIF: s->push_back(M->Nr<WhileFlow>(call(cond), ser({a, M->Nr<IfFlow>(call(cond), ser({c})), d}))); break;
    case TRY: {
      auto *t = M->Nr<TryCatchFlow>(ser({a, c}));
      t->push_back(TryCatchFlow::Catch(ser({d}), nullptr, nullptr));
      s->push_back(t);
      break;
    }
    default: break;
    }
    switch (fn.end) {
    case RETX: s->push_back(M->Nr<ReturnInstr>(v(x))); break;
    case RETNEW: s->push_back(M->Nr<ReturnInstr>(call(alloc))); break;
    default: s->push_back(M->Nr<ReturnInstr>(M->Nr<ExtractInstr>(v(x), "f"))); break;
    }
    return b;
  }
};

struct Keep : public transform::Pass {
  dataflow::CaptureResult *cr = nullptr;
  analyze::module::SideEffectResult *se1 = nullptr, *se2 = nullptr;
  std::function<void(Keep &)> then;
  std::string capKey, se1Key, se2Key;
  std::string getKey() const override { return "mc-keep"; }
  void run(Module *m) override {
    cr = getAnalysisResult<dataflow::CaptureResult>(capKey);
    se1 = getAnalysisResult<analyze::module::SideEffectResult>(se1Key);
    se2 = getAnalysisResult<analyze::module::SideEffectResult>(se2Key);
    then(*this);
  }
};

static bool meets(const std::set<int> &s, int base) {
  for (int i = 0; i < 3; i++)
    if (s.count(base + i))
      return true;
  return false;
}

static std::string flags(const dataflow::CaptureInfo &c) {
  std::string r;
  for (auto a : c.argCaptures)
    r += "arg" + std::to_string(a) + " ";
  if (c.returnCaptures)
    r += "return ";
  if (c.externCaptures)
    r += "extern ";
  if (c.modified)
    r += "modified ";
  return "{" + r + "}";
}

static std::map<std::string, int> seenKinds;
static void report(const std::string &kind, const Fn &fn, const std::string &detail) {
  fail(kind + ":" + fn.text(), detail);
}

static void check(Keep &k, Builder &bd, std::vector<Builder::Built> &all) {
  for (auto &b : all) {
    current(b.fn.text());
    count("functions")++;
    auto it = k.cr->results.find(b.f->getId());
    if (it == k.cr->results.end() || it->second.size() != 2) {
      report("missing", b.fn, "no capture result for the function");
      continue;
    }
    auto &info = it->second;
    dataflow::CaptureInfo esc[4];
    bool hasEsc[4] = {false, false, false, false};
    std::vector<Value *> av = {b.allocs[0], b.allocs[1], b.allocs[2], b.alloc0};
    for (int i = 0; i < 4; i++)
      if (av[i]) {
        esc[i] = dataflow::escapes(b.f, av[i], k.cr);
        hasEsc[i] = true;
        count("escape_queries")++;
      }
    unsigned removable[2] = {0, 0};
    for (int i = 0; i < 3; i++) {
      if (!k.se1->hasSideEffect(b.stmts[i]))
        removable[0] |= 1u << i;
      if (!k.se2->hasSideEffect(b.stmts[i]))
        removable[1] |= 1u << i;
    }
    auto fs1 = k.se1->result.at(b.f->getId()), fs2 = k.se2->result.at(b.f->getId());
    Explorer ex;
    bool bad = false;
    size_t runs = ex.explore([&] {
      if (bad)
        return;
      Machine m(ex, b.fn);
      m.run();
      auto problem = [&](const std::string &kind, const std::string &d) {
        bad = true;
        std::string ch;
        for (auto c : ex.taken)
          ch += std::to_string(c);
        report(kind, b.fn, d + "\nreported p: " + flags(info[0]) + " q: " + flags(info[1]) + "\ndecisions " + ch);
      };
      auto ret = m.st.ret >= 0 ? m.reach({m.st.ret}) : std::set<int>{};
      auto extRoots = m.st.ext;
      if (m.st.gWritten)
        extRoots.insert(m.st.var[G]);
      for (int o = 6; o < 9; o++)
        extRoots.insert(o);
      auto ext = m.reach(extRoots);
      std::set<int> viaP = m.reach({0, 1, 2}), viaQ = m.reach({3, 4, 5});
      auto one = [&](int arg, int base, const std::set<int> &viaOther) {
        auto &c = info[arg];
        const char *n = arg ? "q" : "p";
        if (meets(ret, base) && !c.returnCaptures)
          problem("return", std::string("the result reaches what ") + n + " was");
        else if (meets(ext, base) && !c.externCaptures)
          problem("extern", std::string("the outside reaches what ") + n + " was");
        else if (meets(viaOther, base) &&
                 std::find(c.argCaptures.begin(), c.argCaptures.end(), 1u - arg) == c.argCaptures.end())
          problem("args", std::string("the other argument reaches what ") + n + " was");
        else if (meets(m.st.written, base) && !c.modified)
          problem("modified", std::string("what ") + n + " was is written");
      };
      one(0, 0, viaQ);
      if (!bad)
        one(1, 3, viaP);
      if (bad)
        return;
      for (auto &[o, site] : m.st.site) {
        int i = site < 0 ? 3 : site;
        if (!hasEsc[i])
          continue;
        if (ret.count(o) && !esc[i].returnCaptures)
          problem("escape", "the result reaches an object said not to be returned");
        else if (ext.count(o) && !esc[i].externCaptures)
          problem("escape", "the outside reaches an object said not to escape");
        if (bad)
          return;
      }
      // a function without effects
      bool effect = m.st.called || m.st.threw || m.st.gWritten;
      for (int o : m.st.written)
        effect |= o < 9;
      if (effect && fs1 == util::SideEffectStatus::PURE)
        problem("effect", "the function is said to be without side effects");
      bool effect2 = effect && !(m.st.gWritten && !b.gRead && !m.st.called && !m.st.threw && m.st.written.empty());
      if (effect2 && fs2 == util::SideEffectStatus::PURE)
        problem("effect", "the function is said to be without side effects (globals not counted)");
    });
    count("executions") += runs;
    if (bad)
      continue;
    // leaving out what has no side effect
    for (int w = 0; w < 2; w++) {
      if (!removable[w])
        continue;
      count("removals")++;
      // decisions of removed statements disappear: compare the sets of outcomes
      std::set<std::string> with, without;
      Explorer e1, e2;
      e1.explore([&] {
        Machine m(e1, b.fn);
        m.run();
        with.insert(m.outcome(w == 0 || b.gRead));
      });
      e2.explore([&] {
        Machine m(e2, b.fn, removable[w]);
        m.run();
        without.insert(m.outcome(w == 0 || b.gRead));
      });
      if (with != without)
        report("removal", b.fn, "removing what is said to have no side effect changes the outcomes; removed mask " +
                                    std::to_string(removable[w]) + (w ? " (globals not counted)" : ""));
    }
  }
}

int main(int argc, char **argv) {
  bool full = atoi(argv[1]);
  int n = atoi(argv[2]);
  return shards(n, "capture", [&](int shard, int total) {
    auto m = menu(full);
    size_t k = 0;
    std::unique_ptr<Builder> bd;
    std::vector<Builder::Built> all;
    auto flush = [&] {
      if (all.empty())
        return;
      current("analysis of a batch from " + all[0].fn.text());
      transform::PassManager pm(transform::PassManager::Init::EMPTY);
      auto cfg = pm.registerAnalysis(std::make_unique<dataflow::CFAnalysis>());
      auto rd = pm.registerAnalysis(std::make_unique<dataflow::RDAnalysis>(cfg), {cfg});
      auto dom = pm.registerAnalysis(std::make_unique<dataflow::DominatorAnalysis>(cfg), {cfg});
      auto cap = pm.registerAnalysis(std::make_unique<dataflow::CaptureAnalysis>(rd, dom), {rd, dom});
      auto s1 = pm.registerAnalysis(std::make_unique<analyze::module::SideEffectAnalysis>(cap, true), {cap});
      auto s2 = pm.registerAnalysis(std::make_unique<analyze::module::SideEffectAnalysis>(cap, false), {cap});
      auto keep = std::make_unique<Keep>();
      keep->capKey = cap;
      keep->se1Key = s1;
      keep->se2Key = s2;
      keep->then = [&](Keep &kp) { check(kp, *bd, all); };
      pm.registerPass(std::move(keep), "", {cap, s1, s2}, {});
      pm.run(bd->M.get());
      all.clear();
      bd.reset();
    };
    for (int sh = 0; sh < NSHAPES; sh++)
      for (int e = 0; e < NENDS; e++) {
        if (!full && e == RETGET && sh != SEQ)
          continue;
        for (auto &a : m)
          for (auto &b : m)
            for (auto &c : m) {
              auto jump = [](const Stmt &s) { return s.op == RETURN || s.op == THROW; };
              if (sh == SEQ && (jump(a) || jump(b)))
                continue;
              if (sh == IF1 && jump(b))
                continue;
              if ((sh == LOOP3 || sh == LOOPIF) && (jump(a) || (sh == LOOP3 && jump(b))))
                continue;
              if (sh == LOOP2 && (jump(a) || jump(b)))
                continue;
              if (sh == TRY && !((a.op == EXT || a.op == EXT2 || b.op == EXT || b.op == EXT2) && !jump(a) && a.op != THROW && b.op != THROW))
                continue;
              if (k++ % total != (size_t)shard)
                continue;
              if (!bd)
                bd = std::make_unique<Builder>();
              Fn fn{{a, b, c}, (Shape)sh, (End)e};
              all.push_back(bd->build(fn, all.size()));
              if (k % 50021 < (size_t)total)
                sample(fn.text());
              if (all.size() == 100)
                flush();
            }
      }
    flush();
  });
}
