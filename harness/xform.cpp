// Transformations of the IR on every bounded program: what a program does before and after, along
// every sequence of decisions, as observed by the reference interpreter of machine.h.
//
// xform inline BUDGET SHARDS | outline BUDGET SHARDS | passes PROFILE BUDGET SHARDS
#include "codon/cir/llvm/llvisitor.h"
#include "codon/compiler/compiler.h"
#include "codon/parser/cache.h"
#include "codon/compiler/error.h"
#include "codon/parser/peg/peg.h"
#include "codon/parser/visitors/translate/translate.h"
#include "codon/parser/visitors/typecheck/typecheck.h"
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include "codon/cir/analyze/module/global_vars.h"
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/transform/cleanup/canonical.h"
#include "codon/cir/transform/cleanup/dead_code.h"
#include "codon/cir/transform/cleanup/global_demote.h"
#include "codon/cir/transform/cleanup/replacer.h"
#include "codon/cir/transform/folding/const_fold.h"
#include "codon/cir/transform/folding/const_prop.h"
#include "codon/cir/transform/folding/folding.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/util/inlining.h"
#include "codon/cir/util/outlining.h"
#include "codon/cir/util/side_effect.h"
#include "machine.h"
#include <iterator>
#include <sstream>

using namespace mc;
using namespace codon;

struct World {
  Compiler *compiler;
  Module *M;
  types::Type *I, *B, *T; // T: Tuple[int, int]
  Func *src, *sink, *cond, *some, *boom, *leak, *pure, *mkTuple;
  std::map<std::string, Func *> ops;
  size_t markVars, markValues; // everything beyond belongs to the current program
  codon::ir::id_t maxVar = 0, maxValue = 0;

  explicit World(Compiler *c) : compiler(c), M(c->getModule()) {
    I = M->getIntType();
    B = M->getBoolType();
    T = M->getTupleType({I, I});
    auto ext = [&](const char *name, types::Type *ret, std::vector<types::Type *> args,
                   std::vector<std::string> names) {
      auto *f = M->Nr<ExternalFunc>(name);
      f->setUnmangledName(name);
      f->realize(M->getFuncType(ret, args), names);
      return f;
    };
    src = ext("src", I, {}, {});
    some = ext("some", I, {}, {});
    cond = ext("cond", B, {}, {});
    sink = ext("sink", M->getNoneType(), {I}, {"x"});
    boom = ext("boom", M->getNoneType(), {}, {});
    pure = ext("pure", I, {I}, {"x"});
    pure->setAttribute(std::make_unique<KeyValueAttribute>(std::unordered_map<std::string, std::string>{{util::PURE_ATTR, ""}}));
    leak = ext("leak", M->getNoneType(), {M->getPointerType(I)}, {"p"});
    for (auto *n : {"__add__", "__sub__", "__mul__", "__and__", "__or__", "__xor__", "__eq__", "__ne__",
                    "__lt__", "__le__", "__gt__", "__ge__"})
      ops[n] = M->getOrRealizeMethod(I, n, {I, I});
    for (auto *n : {"__neg__", "__pos__", "__invert__", "__bool__", "__int__"})
      ops[n] = M->getOrRealizeMethod(I, n, {I});
    ops["not"] = M->getOrRealizeMethod(B, "__invert__", {B});
    ops["and"] = M->getOrRealizeMethod(B, "__and__", {B, B});
    ops["xor"] = M->getOrRealizeMethod(B, "__xor__", {B, B});
    mkTuple = M->getOrRealizeMethod(T, "__new__", {I, I});
    for (auto *t : {I, B, T}) {
      auto *p = M->getPointerType(t);
      M->getOrRealizeMethod(p, "__getitem__", {p, I});
      M->getOrRealizeMethod(p, "__setitem__", {p, I, t});
    }
    M->getFuncType(M->getNoneType(), {I});
    M->getFuncType(I, {I});
    // passes must not leave values of a program in the library: its bodies are not needed
    auto *main = cast<BodiedFunc>(M->getMainFunc());
    main->symbols.clear();
    // except for operations that are functions themselves
    std::set<codon::ir::id_t> kept;
    std::function<void(Func *)> keep = [&](Func *f) {
      if (!f || !kept.insert(f->getId()).second)
        return;
      struct Callees : public util::Operator {
        std::set<Func *> all;
        void handle(CallInstr *v) override { all.insert(util::getFunc(v->getCallee())); }
      } callees;
      f->accept(callees);
      for (auto *g : callees.all)
        keep(g);
    };
    for (auto &[n, f] : ops)
      keep(f);
    keep(mkTuple);
    for (auto it = M->vars.begin(); it != M->vars.end();) {
      auto next = std::next(it);
      if (!kept.count((*it)->getId()))
        hiddenVars.splice(hiddenVars.end(), M->vars, it);
      it = next;
    }
    hiddenValues.splice(hiddenValues.end(), M->values);
    main->setBody(M->Nr<SeriesFlow>());
    mark();
  }
  std::list<std::unique_ptr<Var>> hiddenVars;
  std::list<std::unique_ptr<Value>> hiddenValues;
  void mark() {
    markVars = M->vars.size();
    markValues = M->values.size();
    own.clear();
  }
  std::set<codon::ir::id_t> own; // functions of the current program
  // forgets the current program; functions the compiler realized meanwhile are kept
  void reset() {
    size_t i = 0;
    for (auto *v : *M)
      if (i++ >= markVars && isA<Func>(v) && !own.count(v->getId()) && v->getName() != "__outlined")
        return mark();
    while (M->vars.size() > markVars) {
      M->varMap.erase(M->vars.back()->getId());
      M->vars.pop_back();
    }
    while (M->values.size() > markValues) {
      M->valueMap.erase(M->values.back()->getId());
      M->values.pop_back();
    }
    own.clear();
  }
  Value *call(Func *f, std::vector<Value *> args = {}) {
    return M->Nr<CallInstr>(M->Nr<VarValue>(f), std::move(args));
  }
  Value *op(const std::string &n, Value *a, Value *b = nullptr) {
    auto *f = ops[n];
    if (!f) {
      fprintf(stderr, "no %s\n", n.c_str());
      abort();
    }
    return b ? call(f, {a, b}) : call(f, {a});
  }
  Value *use(Var *v) { return M->Nr<VarValue>(v); }
  BodiedFunc *function(const std::string &name, types::Type *ret, std::vector<types::Type *> args,
                       std::vector<std::string> names) {
    auto *f = M->Nr<BodiedFunc>(name);
    f->setUnmangledName(name);
    f->realize(M->getFuncType(ret, args), names);
    f->setBody(M->Nr<SeriesFlow>());
    f->setGlobal(true);
    own.insert(f->getId());
    return f;
  }
  Var *local(BodiedFunc *f, types::Type *t, const std::string &name) {
    auto *v = M->Nr<Var>(t, false, false, false, name);
    f->push_back(v);
    return v;
  }
  Var *global(types::Type *t, const std::string &name) {
    return M->Nr<Var>(t, true, false, false, name);
  }
};

// Bodies of functions with nested blocks, loops, handlers and jumps.
struct Control {
  World &W;
  Module *M;
  Explorer &ex;
  std::string text;
  BodiedFunc *f = nullptr;
  Var *v, *w, *g;
  int budget = 0, depth = 0, handlers = 0, inValue = 0;
  bool returnsValue = true;
  std::vector<Flow *> loops;
  std::vector<SeriesFlow *> all; // series whose ranges can be outlined
  std::function<Value *()> callSite; // an additional statement
  int jumpsOnly = 0;

  Control(World &W, Explorer &ex) : W(W), M(W.M), ex(ex) {}

  void body(BodiedFunc *fn, Var *arg, Var *glob, int n, bool returns) {
    f = fn;
    g = glob;
    v = arg;
    w = W.local(f, W.I, "w");
    returnsValue = returns;
    budget = n;
    auto *s = cast<SeriesFlow>(f->getBody());
    s->push_back(M->Nr<AssignInstr>(w, M->getInt(5)));
    all.push_back(s);
    fill(s, 3);
    s->push_back(W.call(W.sink, {W.use(v)}));
    s->push_back(W.call(W.sink, {W.use(w)}));
    if (returns) {
      s->push_back(M->Nr<ReturnInstr>(W.use(v)));
    }
  }
  SeriesFlow *block(int most = 2) {
    auto *s = M->Nr<SeriesFlow>();
    all.push_back(s);
    text += "{";
    depth++;
    fill(s, most);
    depth--;
    text += "}";
    return s;
  }
  void fill(SeriesFlow *s, int most) {
    for (int i = 0; i < most && budget > 0; i++) {
      if (ex.choose(2) == 0)
        return;
      budget--;
      statement(s);
    }
  }
  Value *inc(Var *x) { return W.op("__add__", W.use(x), M->getInt(1)); }

  enum Kind { SRC, INC, COPY, SETG, USEG, SINK, BLOCK, IF, IFELSE, WHILE, RANGE, TRYV, TRYALL, TRYFIN, FLOWVAL, BOOM,
              RETURN, THROW, THROWB, RETHROW, BREAK, CONTINUE, BREAKOUT, CONTOUT };
  std::vector<Kind> menu() {
    std::vector<Kind> m = {INC, COPY, SETG, SINK};
    if (budget > 0 || depth < 1)
      for (auto k : {BLOCK, IF, WHILE, TRYV, TRYFIN, IFELSE, RANGE, TRYALL})
        m.push_back(k);
    m.push_back(SRC);
    m.push_back(USEG);
    m.push_back(BOOM);
    m.push_back(FLOWVAL);
    if (!inValue) {
      m.push_back(RETURN);
      m.push_back(THROW);
      m.push_back(THROWB);
      if (handlers)
        m.push_back(RETHROW);
      if (!loops.empty()) {
        m.push_back(BREAK);
        m.push_back(CONTINUE);
      }
      if (loops.size() > 1) {
        m.push_back(BREAKOUT);
        m.push_back(CONTOUT);
      }
    }
    return m;
  }
  template <typename F> void inLoop(Flow *l, F &&b) {
    loops.push_back(l);
    b();
    loops.pop_back();
  }
  void into(SeriesFlow *s, int most = 2) {
    all.push_back(s);
    text += "{";
    depth++;
    fill(s, most);
    depth--;
    text += "}";
  }
  void statement(SeriesFlow *s) {
    auto m = menu();
    size_t k = ex.choose(m.size() + (callSite ? 1 : 0));
    if (k == m.size()) {
      s->push_back(callSite());
      return;
    }
    switch (m[k]) {
    case SRC:
      text += "v=src;";
      s->push_back(M->Nr<AssignInstr>(v, W.call(W.src)));
      return;
    case INC:
      text += "v+=1;";
      s->push_back(M->Nr<AssignInstr>(v, inc(v)));
      return;
    case COPY:
      text += "w=v;";
      s->push_back(M->Nr<AssignInstr>(w, W.use(v)));
      return;
    case SETG:
      text += "g=v;";
      s->push_back(M->Nr<AssignInstr>(g, W.use(v)));
      return;
    case USEG:
      text += "w=g;";
      s->push_back(M->Nr<AssignInstr>(w, W.use(g)));
      return;
    case SINK:
      text += "sink(v);";
      s->push_back(W.call(W.sink, {W.use(v)}));
      return;
    case BOOM:
      text += "boom;";
      s->push_back(W.call(W.boom));
      return;
    case BLOCK:
      s->push_back(block());
      return;
    case IF:
      text += "if";
      s->push_back(M->Nr<IfFlow>(W.call(W.cond), block()));
      return;
    case IFELSE: {
      text += "if";
      auto *a = block();
      text += "else";
      s->push_back(M->Nr<IfFlow>(W.call(W.cond), a, block()));
      return;
    }
    case WHILE: {
      text += "while";
      auto *b = M->Nr<SeriesFlow>();
      auto *l = M->Nr<WhileFlow>(W.call(W.cond), b);
      inLoop(l, [&] { into(b); });
      s->push_back(l);
      return;
    }
    case RANGE: {
      text += "range w";
      auto *b = M->Nr<SeriesFlow>();
      auto *l = M->Nr<ImperativeForFlow>(M->getInt(0), 1, M->getInt(2), b, w);
      inLoop(l, [&] { into(b); });
      s->push_back(l);
      return;
    }
    case TRYV:
    case TRYALL: {
      text += "try";
      auto *t = M->Nr<TryCatchFlow>(block());
      text += m[k] == TRYV ? "except int w" : "except";
      handlers++;
      auto *h = block();
      handlers--;
      t->push_back(m[k] == TRYV ? TryCatchFlow::Catch(h, W.I, w) : TryCatchFlow::Catch(h));
      s->push_back(t);
      return;
    }
    case TRYFIN: {
      text += "try";
      auto *a = block();
      text += "finally";
      s->push_back(M->Nr<TryCatchFlow>(a, block()));
      return;
    }
    case FLOWVAL: {
      text += "w=(";
      inValue++;
      auto *a = block(1);
      inValue--;
      all.pop_back();
      text += ",v);";
      s->push_back(M->Nr<AssignInstr>(w, M->Nr<FlowInstr>(a, W.use(v))));
      return;
    }
    case RETURN:
      text += "return;";
      s->push_back(returnsValue ? M->Nr<ReturnInstr>(inc(v)) : M->Nr<ReturnInstr>());
      return;
    case THROW:
      text += "throw v;";
      s->push_back(M->Nr<ThrowInstr>(W.use(v)));
      return;
    case THROWB:
      text += "throw true;";
      s->push_back(M->Nr<ThrowInstr>(M->getBool(true)));
      return;
    case RETHROW:
      text += "throw;";
      s->push_back(M->Nr<ThrowInstr>());
      return;
    case BREAK:
    case BREAKOUT:
      text += m[k] == BREAK ? "break;" : "break outer;";
      s->push_back(M->Nr<BreakInstr>(m[k] == BREAK ? nullptr : loops[loops.size() - 2]));
      return;
    case CONTINUE:
    case CONTOUT:
      text += m[k] == CONTINUE ? "continue;" : "continue outer;";
      s->push_back(M->Nr<ContinueInstr>(m[k] == CONTINUE ? nullptr : loops[loops.size() - 2]));
      return;
    }
  }
};

struct Trace {
  std::vector<unsigned> taken;
  std::string text;
  bool cut;
};

static Trace execute(Explorer &ex, BodiedFunc *f, const std::vector<Val> &args, const std::vector<Var *> &watch,
                     int decisions, std::string *problem = nullptr) {
  Machine m(ex, decisions);
  for (auto *g : watch)
    m.globals[g->getId()] = std::make_shared<Val>(Val::of((int64_t)900));
  auto t = m.observe(f, args, watch);
  if (problem)
    *problem = m.problem;
  bool cut = t.size() >= 3 && t.compare(t.size() - 3, 3, "cut") == 0;
  if (cut)
    t.resize(t.size() - 3);
  return {ex.taken, t, cut};
}

// all executions of f
static std::vector<Trace> executions(BodiedFunc *f, const std::vector<Val> &args, const std::vector<Var *> &watch,
                                     int decisions, std::string &problem) {
  std::vector<Trace> res;
  Explorer ex;
  ex.explore([&] {
    std::string p;
    res.push_back(execute(ex, f, args, watch, decisions, &p));
    if (!p.empty())
      problem = p;
  });
  return res;
}

static std::string show(Node *n) {
  std::stringstream ss;
  ss << *n;
  return ss.str();
}

// the same executions of the transformed function; returns a description of the first difference
static std::string compare(const std::vector<Trace> &before, BodiedFunc *f, const std::vector<Val> &args,
                           const std::vector<Var *> &watch, int decisions) {
  for (auto &b : before) {
    Explorer ex;
    ex.prefix = b.taken;
    std::string problem;
    auto a = execute(ex, f, args, watch, decisions, &problem);
    count("executions")++;
    bool same = a.text == b.text;
    if (!same && (a.cut || b.cut)) {
      auto n = std::min(a.text.size(), b.text.size());
      bool ok = a.text.compare(0, n, b.text, 0, n) == 0;
      // the shorter one is the one that was cut
      same = ok && (a.text.size() < b.text.size() ? a.cut : b.cut);
    }
    if (!same)
      return "expected: " + b.text + (b.cut ? "..." : "") + "\ngot: " + a.text + (a.cut ? "..." : "") + "\n" + problem;
  }
  return "";
}

// ---- inlining ----

struct InlineCase {
  std::string text;
  BodiedFunc *outer = nullptr, *callee = nullptr;
  CallInstr *site = nullptr;
  Var *g;
};

static InlineCase buildInline(World &W, Explorer &ex, int budget) {
  auto *M = W.M;
  InlineCase c;
  c.g = W.global(W.I, "g");
  bool returns = ex.choose(2) == 0;
  int shape = ex.choose(returns ? 7 : 4);
  c.callee = W.function("c", returns ? W.I : M->getNoneType(), {W.I}, {"a"});
  Control body(W, ex);
  if (shape == 3) { // the callee calls itself; that call is inlined
    bool fired = false;
    body.callSite = [&, returns]() -> Value * {
      fired = true;
      body.text += "c(w);";
      auto *call = cast<CallInstr>(W.call(c.callee, {W.use(body.w)}));
      c.site = call;
      return returns ? (Value *)M->Nr<AssignInstr>(body.v, call) : call;
    };
  }
  body.body(c.callee, *c.callee->arg_begin(), c.g, budget, returns);
  c.text = std::string(returns ? "int c(v)" : "void c(v)") + "{" + body.text + "}";
  c.outer = W.function("f", W.I, {W.I}, {"p"});
  auto *s = cast<SeriesFlow>(c.outer->getBody());
  Var *p = *c.outer->arg_begin(), *x = W.local(c.outer, W.I, "x");
  s->push_back(M->Nr<AssignInstr>(x, M->getInt(3)));
  auto call = [&](Value *arg) {
    auto *r = cast<CallInstr>(W.call(c.callee, {arg}));
    if (shape != 3)
      c.site = r;
    return r;
  };
  auto stmt = [&](Value *arg) -> Value * {
    return returns ? (Value *)M->Nr<AssignInstr>(x, call(arg)) : call(arg);
  };
  switch (shape) {
  case 0: // statement; the argument has an effect
    s->push_back(stmt(W.call(W.src)));
    break;
  case 1: { // in a loop that is left and continued
    c.text += " in range";
    auto *b = M->Nr<SeriesFlow>();
    auto *l = M->Nr<ImperativeForFlow>(M->getInt(0), 1, M->getInt(2), b, x);
    b->push_back(stmt(W.use(x)));
    b->push_back(W.call(W.sink, {W.use(x)}));
    s->push_back(l);
    break;
  }
  case 2: { // in a try with handler and finally
    c.text += " in try";
    auto *t = M->Nr<TryCatchFlow>(util::series(stmt(W.use(p))), util::series(W.call(W.sink, {W.use(x)})));
    t->push_back(TryCatchFlow::Catch(util::series(W.call(W.sink, {W.use(p)})), W.I, p));
    s->push_back(t);
    break;
  }
  case 3:
    s->push_back(stmt(W.use(p)));
    break;
  case 4: // inside an expression
    c.text += " in expression";
    s->push_back(M->Nr<AssignInstr>(x, W.op("__add__", W.use(p), call(W.op("__neg__", W.use(p))))));
    break;
  case 5: { // in the condition of a loop
    c.text += " in condition";
    auto *b = M->Nr<SeriesFlow>();
    auto *l = M->Nr<WhileFlow>(W.op("__lt__", call(W.use(x)), M->getInt(5)), b);
    b->push_back(M->Nr<AssignInstr>(x, W.op("__add__", W.use(x), M->getInt(1))));
    s->push_back(l);
    break;
  }
  case 6: { // returned from within a try
    c.text += " in return";
    auto *t = M->Nr<TryCatchFlow>(util::series(M->Nr<ReturnInstr>(call(W.use(p)))),
                                  util::series(M->Nr<AssignInstr>(c.g, W.use(x))));
    s->push_back(t);
    break;
  }
  }
  s->push_back(W.call(W.sink, {W.use(x)}));
  s->push_back(W.call(W.sink, {W.use(c.g)}));
  s->push_back(M->Nr<ReturnInstr>(W.use(x)));
  return c;
}

static void inlineAll(World &W, int budget, int shard, int total) {
  Explorer ex;
  size_t k = 0;
  ex.explore([&] {
    auto c = buildInline(W, ex, budget);
    if (k++ % total == (size_t)shard && c.site) {
      current(c.text);
      count("programs")++;
      if (count("programs") % 5003 == 1)
        sample(c.text);
      std::string problem;
      auto before = executions(c.outer, {Val::of((int64_t)2)}, {c.g}, 4, problem);
      if (!problem.empty())
        fail("harness:" + c.text, problem);
      for (bool aggressive : {false, true}) {
        auto taken = ex.taken;
        W.reset();
        Explorer again;
        again.prefix = taken;
        c = buildInline(W, again, budget);
        auto res = util::inlineCall(c.site, aggressive);
        if (!res) {
          count("refused")++;
          if (aggressive)
            fail("inline-refused:" + c.text, "a call of a bodied function is not inlined");
          continue;
        }
        auto *parent = c.site == nullptr ? nullptr : c.outer;
        if (c.text.find("c(w);") != std::string::npos)
          parent = c.callee;
        for (auto *v : res.newVars)
          parent->push_back(v);
        c.site->replaceAll(res.result);
        count("inlined")++;
        auto d = compare(before, c.outer, {Val::of((int64_t)2)}, {c.g}, 4);
        if (!d.empty())
          fail(std::string("inline") + (aggressive ? "-aggressive:" : ":") + c.text, d + show(c.outer));
      }
    }
    W.reset();
  });
}

// ---- outlining ----

struct OutlineCase {
  std::string text;
  BodiedFunc *f;
  Var *g;
  std::vector<SeriesFlow *> all;
};
static OutlineCase buildOutline(World &W, Explorer &ex, int budget) {
  OutlineCase c;
  c.g = W.global(W.I, "g");
  c.f = W.function("f", W.I, {W.I}, {"v"});
  Control body(W, ex);
  body.body(c.f, *c.f->arg_begin(), c.g, budget, true);
  c.text = body.text;
  c.all = body.all;
  return c;
}

static void outlineAll(World &W, int budget, int shard, int total) {
  Explorer ex;
  size_t k = 0;
  ex.explore([&] {
    auto c = buildOutline(W, ex, budget);
    if (k++ % total == (size_t)shard) {
      current(c.text);
      count("programs")++;
      if (count("programs") % 5003 == 1)
        sample(c.text);
      std::string problem;
      auto before = executions(c.f, {Val::of((int64_t)2)}, {c.g}, 4, problem);
      if (!problem.empty())
        fail("harness:" + c.text, problem);
      auto taken = ex.taken;
      std::vector<int> sizes;
      for (auto *s : c.all)
        sizes.push_back(std::distance(s->begin(), s->end()));
      bool usesG = c.text.find('g') != std::string::npos;
      for (size_t i = 0; i < sizes.size(); i++)
        for (int b = i == 0 ? 1 : 0; b < sizes[i]; b++)
          for (int e = b + 1; e <= sizes[i]; e++)
            for (int o = 0; o < (usesG ? 4 : 2); o++) {
              W.reset();
              Explorer again;
              again.prefix = taken;
              c = buildOutline(W, again, budget);
              auto *s = c.all[i];
              std::string what = c.text + " series " + std::to_string(i) + " [" + std::to_string(b) + "," +
                                 std::to_string(e) + ") options " + std::to_string(o);
              current(what);
              auto r = util::outlineRegion(c.f, s, std::next(s->begin(), b), std::next(s->begin(), e), o & 1, o & 2);
              if (!r)
                count("refused")++;
              else {
                count("outlined")++;
                size_t n = std::distance(r.func->arg_begin(), r.func->arg_end());
                bool ok = r.argKinds.size() == n && r.argKinds.size() == (size_t)std::distance(r.call->begin(), r.call->end());
                size_t j = 0;
                for (auto *a : *r.call) {
                  ok = ok && j < n && (r.argKinds[j] == util::OutlineResult::ArgKind::MODIFIED) == isA<PointerValue>(a);
                  j++;
                }
                if (!ok)
                  fail("outline-kinds:" + what, "the reported kinds of arguments are wrong");
                if (!(o & 1) && r.numOutFlows)
                  fail("outline-flows:" + what, "jumps out of the region were not allowed");
              }
              auto d = compare(before, c.f, {Val::of((int64_t)2)}, {c.g}, 4);
              if (!d.empty())
                fail(std::string(r ? "outline:" : "outline-refused:") + what, d + show(c.f) + (r ? show(r.func) : ""));
            }
    }
    W.reset();
  });
}

#include "xform_passes.h"

int main(int argc, char **argv) {
  std::string what = argv[1];
  int budget = atoi(argv[2]), n = atoi(argv[3]);
  std::string profile = argc > 4 ? argv[4] : "";
  auto compiler = std::make_unique<Compiler>(argv[0], false, std::vector<std::string>{}, false, false);
  auto *cache = compiler->getCache();
  auto *preamble = cache->N<ast::SuiteStmt>();
  try {
    ast::TypecheckVisitor::loadStdLibrary(cache, preamble, compiler->getEarlyDefines(), false);
    auto code = ast::parseCode(cache, "<world>", "pass\n");
    if (!code)
      throw exc::ParserException(code.takeError());
    auto *typechecked = ast::TypecheckVisitor::apply(cache, *code, "<world>", {}, compiler->getEarlyDefines(), false);
    auto *suite = cache->N<ast::SuiteStmt>();
    suite->addStmt(preamble);
    suite->addStmt(typechecked);
    ast::TranslateVisitor::apply(cache, suite);
  } catch (const exc::ParserException &e) {
    printf("FAIL setup\tthe standard library does not load: %s\n", e.what());
    printf("DONE\n");
    return 0;
  }
  World W(compiler.get());
  return shards(n, what, [&](int shard, int total) {
    if (what == "inline")
      inlineAll(W, budget, shard, total);
    else if (what == "outline")
      outlineAll(W, budget, shard, total);
    else
      passesAll(W, budget, profile, shard, total);
  }, 3000);
}
