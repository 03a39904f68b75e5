// Every small IR tree over every node kind: cloning, structural matching, child queries,
// replacement and traversal, each against an independent reading of the tree.
#include "codon/cir/attribute.h"
#include "codon/cir/cir.h"
#include "codon/cir/dsl/codegen.h"
#include "codon/cir/dsl/nodes.h"
#include "codon/cir/llvm/llvisitor.h"
#include "codon/cir/util/cloning.h"
#include "codon/cir/util/matching.h"
#include "codon/cir/util/operator.h"
#include "codon/parser/cache.h"
#include "codon/parser/visitors/typecheck/ctx.h"
#include "explore.h"
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace mc;
using namespace codon::ir;
using codon::ir::transform::parallel::OMPSched;

// ------------------------------------------------------------------ reading a tree

struct Slot { // one field of a node that holds another node
  std::string name;
  const Node *node;
  bool flow = false;
};

struct View {
  std::string kind;
  std::string data; // scalar fields
  std::vector<Slot> children; // values, in evaluation order of the printer
  std::vector<Slot> vars;
  std::vector<const types::Type *> types;
  const Value *target = nullptr; // of break and continue
  bool jump = false;
};

static std::string quote(double d) {
  char b[64];
  snprintf(b, sizeof b, "%a", d);
  return b;
}

static void schedule(View &v, const OMPSched *s) {
  if (!s) {
    v.data += " serial";
    return;
  }
  v.data += " sched(" + std::to_string(s->code) + "," + std::to_string(s->dynamic) + "," +
            std::to_string(s->ordered) + "," + std::to_string(s->collapse) + "," +
            std::to_string(s->gpu) + (s->threads ? ",threads" : "") + (s->chunk ? ",chunk" : "") + ")";
  if (s->threads)
    v.children.push_back({"threads", s->threads});
  if (s->chunk)
    v.children.push_back({"chunk", s->chunk});
}

static View view(const Value *x) {
  View r;
  auto child = [&](const char *n, const Value *c, bool flow = false) {
    if (c)
      r.children.push_back({n, c, flow});
    else
      r.data += std::string(" no-") + n;
  };
  auto var = [&](const char *n, const Var *c) {
    if (c)
      r.vars.push_back({n, c});
    else
      r.data += std::string(" no-") + n;
  };
  auto type = [&](const types::Type *t) {
    if (t)
      r.types.push_back(t);
    else
      r.data += " any";
  };
  if (auto *n = cast<VarValue>(x)) {
    r.kind = "var";
    var("var", n->getVar());
  } else if (auto *n = cast<PointerValue>(x)) {
    r.kind = "ptr";
    for (auto &f : n->getFields())
      r.data += " ." + f;
    var("var", n->getVar());
  } else if (auto *n = cast<SeriesFlow>(x)) {
    r.kind = "series";
    for (auto *c : *n)
      child("item", c);
  } else if (auto *n = cast<IfFlow>(x)) {
    r.kind = "if";
    child("cond", n->getCond());
    child("true", n->getTrueBranch(), true);
    child("false", n->getFalseBranch(), true);
  } else if (auto *n = cast<WhileFlow>(x)) {
    r.kind = "while";
    child("cond", n->getCond());
    child("body", n->getBody(), true);
  } else if (auto *n = cast<ForFlow>(x)) {
    r.kind = "for";
    r.data = n->isAsync() ? " async" : "";
    child("iter", n->getIter());
    child("body", n->getBody(), true);
    var("var", n->getVar());
    schedule(r, n->getSchedule());
  } else if (auto *n = cast<ImperativeForFlow>(x)) {
    r.kind = "range";
    r.data = " step " + std::to_string(n->getStep());
    child("start", n->getStart());
    child("end", n->getEnd());
    child("body", n->getBody(), true);
    var("var", n->getVar());
    schedule(r, n->getSchedule());
  } else if (auto *n = cast<TryCatchFlow>(x)) {
    r.kind = "try";
    child("body", n->getBody(), true);
    child("else", n->getElse(), true);
    child("finally", n->getFinally(), true);
    for (auto &c : *n) {
      r.data += " catch";
      child("handler", c.getHandler(), true);
      type(c.getType());
      var("catchvar", const_cast<Var *>(c.getVar()));
    }
  } else if (auto *n = cast<PipelineFlow>(x)) {
    r.kind = "pipe";
    for (auto &s : *n) {
      r.data += " stage(" + std::to_string(s.isGenerator()) + std::to_string(s.isParallel());
      child("callee", s.getCallee());
      for (auto *a : s)
        if (a) {
          child("arg", a);
          r.data += ",arg";
        } else
          r.data += ",hole";
      r.data += ")";
    }
  } else if (auto *n = cast<IntConst>(x)) {
    r.kind = "int";
    r.data = std::to_string(n->getVal());
    type(n->getType());
  } else if (auto *n = cast<FloatConst>(x)) {
    r.kind = "float";
    r.data = quote(n->getVal());
    type(n->getType());
  } else if (auto *n = cast<BoolConst>(x)) {
    r.kind = "bool";
    r.data = n->getVal() ? "1" : "0";
    type(n->getType());
  } else if (auto *n = cast<StringConst>(x)) {
    r.kind = "str";
    r.data = n->getVal();
    type(n->getType());
  } else if (auto *n = cast<AssignInstr>(x)) {
    r.kind = "assign";
    child("rhs", n->getRhs());
    var("lhs", n->getLhs());
  } else if (auto *n = cast<ExtractInstr>(x)) {
    r.kind = "extract";
    r.data = n->getField();
    child("val", n->getVal());
  } else if (auto *n = cast<InsertInstr>(x)) {
    r.kind = "insert";
    r.data = n->getField();
    child("lhs", n->getLhs());
    child("rhs", n->getRhs());
  } else if (auto *n = cast<CallInstr>(x)) {
    r.kind = "call";
    child("callee", n->getCallee());
    for (auto *a : *n)
      child("arg", a);
  } else if (auto *n = cast<StackAllocInstr>(x)) {
    r.kind = "alloca";
    r.data = std::to_string(n->getCount());
    type(n->getArrayType());
  } else if (auto *n = cast<TypePropertyInstr>(x)) {
    r.kind = "typeprop";
    r.data = std::to_string(n->getProperty());
    type(n->getInspectType());
  } else if (auto *n = cast<YieldInInstr>(x)) {
    r.kind = "yieldin";
    r.data = n->isSuspending() ? " suspending" : "";
    type(n->getType());
  } else if (auto *n = cast<TernaryInstr>(x)) {
    r.kind = "ternary";
    child("cond", n->getCond());
    child("true", n->getTrueValue());
    child("false", n->getFalseValue());
  } else if (auto *n = cast<BreakInstr>(x)) {
    r.kind = "break";
    r.jump = true;
    r.target = n->getLoop();
  } else if (auto *n = cast<ContinueInstr>(x)) {
    r.kind = "continue";
    r.jump = true;
    r.target = n->getLoop();
  } else if (auto *n = cast<ReturnInstr>(x)) {
    r.kind = "return";
    child("value", n->getValue());
  } else if (auto *n = cast<YieldInstr>(x)) {
    r.kind = "yield";
    r.data = n->isFinal() ? " final" : "";
    child("value", n->getValue());
  } else if (auto *n = cast<AwaitInstr>(x)) {
    r.kind = "await";
    r.data = n->isGenerator() ? " generator" : "";
    child("value", n->getValue());
    type(n->getType());
  } else if (auto *n = cast<ThrowInstr>(x)) {
    r.kind = "throw";
    child("value", n->getValue());
  } else if (auto *n = cast<FlowInstr>(x)) {
    r.kind = "flow";
    child("flow", n->getFlow(), true);
    child("value", n->getValue());
  } else {
    r.kind = "unknown";
  }
  return r;
}

// How variables are written: by type only, by identity, or numbered by first use.
struct Print {
  bool names = false, ids = false, number = false, attributes = false;
  std::map<const Var *, int> numbers;
  std::vector<const Value *> loops;

  std::string var(const Var *v, bool owner) {
    v = v->getActual();
    std::string s = "$" + v->getType()->getName();
    if (v->isThreadLocal())
      s += number ? "!tls" : "";
    if (v->isExternal())
      s += number ? "!ext" : "";
    if ((names && owner) || number)
      s += "'" + v->getName();
    if (ids || (number && v->isGlobal()))
      s += "#" + std::to_string(v->getId());
    else if (number)
      s += "%" + std::to_string(numbers.emplace(v, numbers.size()).first->second);
    return s;
  }

  std::string operator()(const Value *x) {
    auto v = view(x);
    std::string s = "(" + v.kind;
    if (names || number)
      s += "'" + x->getName();
    s += v.data;
    for (auto *t : v.types)
      s += " :" + t->getName();
    if (number)
      s += " ->" + (v.kind == "unknown" ? "" : x->getType() ? x->getType()->getName() : "none");
    for (auto &w : v.vars)
      s += " " + var(cast<Var>(w.node), v.kind != "var" && v.kind != "ptr");
    if (v.jump) {
      if (!v.target)
        s += " inner";
      else {
        size_t i = 0;
        while (i < loops.size() && loops[loops.size() - 1 - i]->getId() != v.target->getId())
          i++;
        if (i < loops.size())
          s += " up" + std::to_string(i);
        else
          s += " other";
      }
    }
    bool loop = v.kind == "while" || v.kind == "for" || v.kind == "range";
    if (loop)
      loops.push_back(x);
    for (auto &c : v.children)
      s += " " + (*this)(cast<Value>(c.node));
    if (loop)
      loops.pop_back();
    if (attributes) {
      std::set<std::string> as;
      for (auto it = x->attributes_begin(); it != x->attributes_end(); ++it)
        if (auto *a = x->getAttribute(*it)) {
          std::string t = std::to_string(*it);
          if (*it == IntValueAttribute::AttributeID)
            t += "=" + std::to_string(static_cast<const IntValueAttribute *>(a)->value);
          as.insert(t);
        }
      for (auto &a : as)
        s += " @" + a;
    }
    return s + ")";
  }
};

static std::string structure(const Value *x) {
  Print p;
  p.number = p.attributes = true;
  return p(x);
}

static void collect(const Value *x, std::vector<const Value *> &out) {
  out.push_back(x);
  for (auto &c : view(x).children)
    collect(cast<Value>(c.node), out);
}

// ------------------------------------------------------------------ building trees

struct World {
  Module *M;
  types::Type *I, *F, *tuple, *fresh;
  Var *a, *b, *t, *g;
  Func *f, *h, *gen, *task;
  explicit World(Module *M) : M(M) {
    I = M->getIntType();
    F = M->getFloatType();
    auto *m = cast<types::MemberedType>(M->unsafeGetMemberedType("Pair"));
    m->realize({I, I}, {"x", "y"});
    tuple = m;
    fresh = M->unsafeGetMemberedType("Fresh");
    a = M->Nr<Var>(I, false, false, false, "a");
    b = M->Nr<Var>(I, false, false, false, "b");
    t = M->Nr<Var>(tuple, false, false, false, "t");
    g = M->Nr<Var>(I, true, false, false, "g");
    auto ext = [&](const char *name, types::Type *ret, std::vector<types::Type *> args,
                   std::vector<std::string> names) {
      auto *f = M->Nr<ExternalFunc>(name);
      f->setUnmangledName(name);
      f->realize(M->unsafeGetFuncType(std::string(name) + "_t", ret, args), names);
      return f;
    };
    f = ext("f", I, {I, I}, {"x", "y"});
    h = ext("h", F, {I}, {"x"});
    gen = ext("gen", M->unsafeGetGeneratorType(I), {I}, {"x"});
  }
};

struct Build {
  World &w;
  Module *M;
  Explorer &ex;
  int budget;          // compound nodes
  bool share;          // a child may be the same node as an earlier leaf
  bool variety;        // all leaves
  std::vector<Value *> leaves, loops;

  Build(World &w, Explorer &ex, int budget, bool share, bool variety)
      : w(w), M(w.M), ex(ex), budget(budget), share(share), variety(variety), lean(budget > 1) {}

  bool lean;           // shapes only: every scalar field and leaf takes one value
  int turn = 0;
  bool flag() { return ex.choose(2); }
  bool data() { return lean ? false : flag(); }
  int pick(std::initializer_list<int> xs) { return *(xs.begin() + (lean ? 0 : ex.choose(xs.size()))); }
  Var *variable() { return data() ? w.b : w.a; }

  Value *leaf() {
    unsigned n = variety || lean ? 4 : 2;
    unsigned k = lean ? turn++ % 4 : ex.choose(n + (share && !leaves.empty() ? 1 : 0));
    Value *v;
    switch (k < n ? (variety || lean ? k : 3 * k) : 99) {
    case 0:
      v = M->Nr<VarValue>(w.a);
      break;
    case 1:
      v = M->Nr<VarValue>(w.b);
      break;
    case 2:
      v = M->Nr<VarValue>(w.g);
      break;
    case 3:
      v = M->getInt(1);
      break;
    default:
      return leaves.back();
    }
    leaves.push_back(v);
    return v;
  }

  Flow *flowLeaf() {
    auto *s = M->Nr<SeriesFlow>();
    if (lean || flag())
      s->push_back(M->Nr<VarValue>(w.a));
    return s;
  }

  Value *value() {
    if (budget > 0 && flag())
      return instr();
    return leaf();
  }
  Value *pair() { return M->Nr<VarValue>(w.t); }
  Flow *flow() {
    if (budget > 0 && flag())
      return flowNode();
    return flowLeaf();
  }
  Value *any() {
    if (budget > 0)
      switch (ex.choose(3)) {
      case 1:
        return instr();
      case 2:
        return flowNode();
      }
    return leaf();
  }

  std::unique_ptr<OMPSched> sched() {
    switch (lean ? 3 * ex.choose(2) : ex.choose(4)) {
    case 0:
      return nullptr;
    case 1:
      return std::make_unique<OMPSched>();
    case 2: {
      auto *th = value();
      return std::make_unique<OMPSched>(35, true, th, nullptr, true, 2, false);
    }
    default: {
      auto *th = leaf();
      auto *ch = value();
      return std::make_unique<OMPSched>(33, false, th, ch, false, 0, true);
    }
    }
  }

  Value *constant() {
    switch (lean ? 0 : ex.choose(8)) {
    case 0:
      return M->getInt(2);
    case 1:
      return M->Nr<IntConst>(1, M->getByteType());
    case 2:
      return M->getFloat(1.0);
    case 3:
      return M->getFloat(-0.0);
    case 4:
      return M->getBool(false);
    case 5:
      return M->getBool(true);
    case 6:
      return M->getString("p");
    default:
      return M->getString("q");
    }
  }

  Value *callee() { return M->Nr<VarValue>(data() ? w.h : w.f); }

  Value *instr() {
    budget--;
    switch (ex.choose(17)) {
    case 0:
      return constant();
    case 1:
      return flag() ? M->Nr<PointerValue>(variable())
                    : M->Nr<PointerValue>(w.t, std::vector<std::string>{data() ? "x" : "y"});
    case 2: {
      auto *v = variable();
      return M->Nr<AssignInstr>(v, value());
    }
    case 3:
      return M->Nr<ExtractInstr>(pair(), data() ? "x" : "y");
    case 4: {
      auto *f = data() ? "x" : "y";
      return M->Nr<InsertInstr>(pair(), f, value());
    }
    case 5: {
      auto *c = callee();
      std::vector<Value *> args;
      for (int n = ex.choose(3); n > 0; n--)
        args.push_back(value());
      return M->Nr<CallInstr>(c, args);
    }
    case 6:
      return M->Nr<StackAllocInstr>(M->unsafeGetArrayType(data() ? w.F : w.I), pick({1, 2}));
    case 7:
      return M->Nr<TypePropertyInstr>(
          data() ? w.F : w.I, (TypePropertyInstr::Property)pick({TypePropertyInstr::IS_ATOMIC,
                                                                TypePropertyInstr::IS_CONTENT_ATOMIC,
                                                                TypePropertyInstr::SIZEOF}));
    case 8:
      return M->Nr<YieldInInstr>(data() ? w.F : w.I, data());
    case 9: {
      auto *c = value();
      auto *x = value();
      return M->Nr<TernaryInstr>(c, x, value());
    }
    case 10:
    case 11: {
      // the target was chosen by an enclosing loop
      bool brk = flag();
      Value *l = loops.empty() ? nullptr : (flag() ? loops[ex.choose(loops.size())] : nullptr);
      if (brk)
        return M->Nr<BreakInstr>(l);
      return M->Nr<ContinueInstr>(l);
    }
    case 12:
      return flag() ? M->Nr<ReturnInstr>(value()) : M->Nr<ReturnInstr>();
    case 13: {
      bool fin = data();
      return flag() ? M->Nr<YieldInstr>(value(), fin) : M->Nr<YieldInstr>(nullptr, fin);
    }
    case 14: {
      auto *t = data() ? w.F : w.I;
      bool gen = data();
      return M->Nr<AwaitInstr>(value(), t, gen);
    }
    case 15:
      return flag() ? M->Nr<ThrowInstr>(value()) : M->Nr<ThrowInstr>();
    default: {
      auto *f = flow();
      return M->Nr<FlowInstr>(f, value());
    }
    }
  }

  Flow *flowNode() {
    budget--;
    switch (ex.choose(7)) {
    case 0: {
      auto *s = M->Nr<SeriesFlow>(data() ? "named" : "");
      for (int n = 1 + ex.choose(2); n > 0; n--)
        s->push_back(any());
      return s;
    }
    case 1: {
      auto *c = value();
      auto *t = flow();
      return M->Nr<IfFlow>(c, t, flag() ? flow() : nullptr);
    }
    case 2: {
      auto *c = value();
      auto *l = M->Nr<WhileFlow>(c, nullptr);
      loops.push_back(l);
      l->setBody(flow());
      loops.pop_back();
      return l;
    }
    case 3: {
      bool async = data();
      auto *v = variable();
      auto *it = value();
      auto *l = M->Nr<ForFlow>(it, nullptr, v, sched(), async);
      loops.push_back(l);
      l->setBody(flow());
      loops.pop_back();
      return l;
    }
    case 4: {
      auto *v = variable();
      int step = pick({1, -1});
      auto *s = value();
      auto *e = value();
      auto *l = M->Nr<ImperativeForFlow>(s, step, e, nullptr, v, sched());
      loops.push_back(l);
      l->setBody(flow());
      loops.pop_back();
      return l;
    }
    case 5: {
      auto *b = flow();
      auto *fin = flag() ? flow() : nullptr;
      auto *els = flag() ? flow() : nullptr;
      auto *t = M->Nr<TryCatchFlow>(b, fin, els);
      for (int n = ex.choose(3); n > 0; n--) {
        auto *hd = flow();
        auto *ty = flag() ? w.I : data() ? w.F : nullptr;
        auto *v = ty && flag() ? variable() : nullptr;
        t->push_back(TryCatchFlow::Catch(hd, ty, v));
      }
      return t;
    }
    default: {
      std::vector<PipelineFlow::Stage> st;
      bool g1 = data(), p1 = data(), g2 = data();
      st.push_back(PipelineFlow::Stage(leaf(), {}, g1, p1));
      std::vector<Value *> args = {nullptr};
      if (flag())
        args.insert(flag() ? args.begin() : args.end(), value());
      st.push_back(PipelineFlow::Stage(callee(), args, g2, false));
      return M->Nr<PipelineFlow>(st);
    }
    }
  }
};

static std::unique_ptr<Module> M;
static std::unique_ptr<World> W;
static size_t built = 0;

// a type checker that knows no type, for nodes that ask it for a derived one
static codon::ast::Cache *noTypes() {
  static codon::ast::Cache *c = [] {
    auto *c = new codon::ast::Cache("");
    c->typeCtx = std::make_shared<codon::ast::TypeContext>(c, "");
    c->imports[STDLIB_IMPORT].ctx = c->typeCtx;
    return c;
  }();
  return c;
}

static void fresh(size_t every = 20000) {
  if (!W || ++built % every == 0) {
    W.reset();
    M = std::make_unique<Module>("m");
    M->setCache(noTypes());
    W = std::make_unique<World>(M.get());
  }
}

// every tree of this shard
static void trees(int budget, bool share, bool variety, int shard, int total,
                  const std::function<void(Value *)> &use) {
  Explorer ex;
  size_t k = 0;
  ex.explore([&] {
    fresh();
    Build b(*W, ex, budget, share, variety);
    Value *v = ex.choose(2) ? (Value *)b.flowNode() : b.instr();
    if (k++ % total == (size_t)shard) {
      count("trees")++;
      use(v);
    }
  });
}

// ------------------------------------------------------------------ clone

static void decorate(Value *v) { // attributes that identify the node
  std::vector<const Value *> all;
  collect(v, all);
  int n = 0;
  for (auto *x : all)
    if (!x->hasAttribute<IntValueAttribute>())
      const_cast<Value *>(x)->setAttribute(std::make_unique<IntValueAttribute>(n++));
}

static void noSharing(const char *what, const Value *a, const Value *b) {
  std::vector<const Value *> xs, ys;
  collect(a, xs);
  collect(b, ys);
  std::set<const Value *> s(xs.begin(), xs.end());
  count("nodes_compared") += ys.size();
  for (auto *y : ys)
    if (s.count(y)) {
      fail(std::string(what) + ":" + structure(a), "the clone contains a node of the original: " + structure(y));
      return;
    }
}

static void cloneTree(Value *v) {
  decorate(v);
  auto before = structure(v);
  current("clone " + before);
  {
    util::CloneVisitor cv(M.get());
    auto *c = cv.clone(v);
    auto after = structure(c);
    count("clones")++;
    if (after != before)
      fail("clone:" + before, "the clone is " + after);
    noSharing("clone", v, c);
    if (cv.clone(v) != c)
      fail("clone-twice:" + before, "a second request does not return the first clone");
    std::vector<const Value *> all, orig;
    collect(c, all);
    collect(v, orig);
    // variables stay
    for (auto *x : all)
      for (auto &s : view(x).vars)
        if (s.node != W->a && s.node != W->b && s.node != W->t && s.node != W->g && s.node != W->f &&
            s.node != W->h && s.node != W->gen)
          fail("clone-vars:" + before, "the clone uses a variable of its own");
    // jumps of the clone lead into the clone
    std::set<const Value *> set(all.begin(), all.end());
    for (auto *x : all) {
      auto w = view(x);
      if (w.jump && w.target && !set.count(w.target))
        fail("clone-jump:" + before, "a cloned jump leads to a loop outside the clone");
    }
    // changing the clone leaves the original alone
    for (auto *x : all)
      if (auto *k = const_cast<IntConst *>(cast<IntConst>(x)))
        k->setVal(77);
      else if (auto *vv = const_cast<VarValue *>(cast<VarValue>(x)))
        vv->setVar(W->g);
      else if (auto *s = const_cast<SeriesFlow *>(cast<SeriesFlow>(x)))
        s->push_back(M->getInt(5));
    if (structure(v) != before)
      fail("clone-alias:" + before, "changing the clone changes the original to " + structure(v));
  }
  { // into a function: every local is copied once, or remapped
    auto *to = M->Nr<BodiedFunc>("to");
    auto *na = M->Nr<Var>(W->I, false, false, false, "na");
    util::CloneVisitor cv(M.get());
    auto *c = cv.clone(v, to, {{W->a->getId(), na}});
    std::vector<const Value *> all, orig;
    collect(v, orig);
    collect(c, all);
    std::set<const Node *> owned(to->begin(), to->end());
    std::map<const Node *, const Node *> map;
    if (all.size() != orig.size())
      fail("clone-into:" + before, "the clone is " + structure(c));
    else
      for (size_t i = 0; i < all.size(); i++) {
        auto x = view(orig[i]), y = view(all[i]);
        if (x.kind != y.kind || x.vars.size() != y.vars.size()) {
          fail("clone-into:" + before, "the clone is " + structure(c));
          break;
        }
        for (size_t j = 0; j < x.vars.size(); j++) {
          auto *p = cast<Var>(x.vars[j].node);
          auto *q = cast<Var>(y.vars[j].node);
          if (p == W->a ? q != na
                        : p->isGlobal() ? q != p
                                        : q == p || !owned.count(q) || !map.emplace(p, q).second && map[p] != q)
            fail("clone-into:" + before, "a variable is not mapped as requested: " + p->referenceString() +
                                             " became " + q->referenceString());
          if (q->getType() != p->getType())
            fail("clone-into:" + before, "a copied variable changed its type");
        }
      }
  }
}

// literal attributes and functions
static void cloneOthers() {
  Explorer ex;
  ex.explore([&] {
    fresh();
    auto *s = M->Nr<SeriesFlow>();
    std::vector<Value *> el;
    int n = ex.choose(4);
    for (int i = 0; i < n; i++)
      el.push_back(ex.choose(2) ? (Value *)M->Nr<VarValue>(W->a) : M->getInt(i));
    auto *call = M->Nr<CallInstr>(M->Nr<VarValue>(W->f), el);
    s->push_back(call);
    int kind = ex.choose(6);
    bool inside = ex.choose(2); // the elements are in the tree
    unsigned stars = ex.choose(1 << n);
    if (!inside)
      call->setArgs({});
    auto star = [&](int i) { return bool(stars >> i & 1); };
    std::vector<LiteralElement> le;
    std::vector<DictLiteralAttribute::KeyValuePair> kv;
    for (int i = 0; i < n; i++) {
      le.push_back({el[i], star(i)});
      kv.push_back({el[i], star(i) ? nullptr : el[n - 1 - i]});
    }
    switch (kind) {
    case 0:
      call->setAttribute(std::make_unique<TupleLiteralAttribute>(el));
      break;
    case 1:
      call->setAttribute(std::make_unique<ListLiteralAttribute>(le));
      break;
    case 2:
      call->setAttribute(std::make_unique<SetLiteralAttribute>(le));
      break;
    case 3:
      call->setAttribute(std::make_unique<DictLiteralAttribute>(kv));
      break;
    case 4:
      call->setAttribute(std::make_unique<PartialFunctionAttribute>("pf" + std::to_string(n), el));
      break;
    case 5:
      call->setAttribute(std::make_unique<StringValueAttribute>("s" + std::to_string(n)));
      break;
    }
    std::ostringstream key;
    key << "literal" << kind << "/" << n << "/" << inside << "/" << stars;
    current(key.str());
    count("clones")++;
    util::CloneVisitor cv(M.get());
    auto *c = cast<CallInstr>(cast<SeriesFlow>(cv.clone(s))->front());
    std::vector<const Value *> all, want, got;
    auto check = [&](const Value *o, const Value *k) {
      if (!o != !k || (o && (o == k || Print()(o) != Print()(k) || cv.clone(o) != k)))
        fail("clone-literal:" + key.str(), "an element of the attribute is not the element's clone");
    };
    auto size = [&](size_t x) {
      if (x != (size_t)n)
        fail("clone-literal:" + key.str(), "the attribute lost or gained elements");
      return x == (size_t)n;
    };
    for (int id : {TupleLiteralAttribute::AttributeID, ListLiteralAttribute::AttributeID,
                   SetLiteralAttribute::AttributeID, DictLiteralAttribute::AttributeID,
                   PartialFunctionAttribute::AttributeID, StringValueAttribute::AttributeID})
      if (call->hasAttribute(id) != c->hasAttribute(id)) {
        fail("clone-literal:" + key.str(), "the attribute is missing");
        return;
      }
    switch (kind) {
    case 0:
      if (auto &e = c->getAttribute<TupleLiteralAttribute>()->elements; size(e.size()))
        for (int i = 0; i < n; i++)
          check(el[i], e[i]);
      break;
    case 1:
      if (auto &e = c->getAttribute<ListLiteralAttribute>()->elements; size(e.size()))
        for (int i = 0; i < n; i++) {
          check(el[i], e[i].value);
          if (e[i].star != star(i))
            fail("clone-literal:" + key.str(), "an element's star changed");
        }
      break;
    case 2:
      if (auto &e = c->getAttribute<SetLiteralAttribute>()->elements; size(e.size()))
        for (int i = 0; i < n; i++) {
          check(el[i], e[i].value);
          if (e[i].star != star(i))
            fail("clone-literal:" + key.str(), "an element's star changed");
        }
      break;
    case 3:
      if (auto &e = c->getAttribute<DictLiteralAttribute>()->elements; size(e.size()))
        for (int i = 0; i < n; i++) {
          check(kv[i].key, e[i].key);
          check(kv[i].value, e[i].value);
        }
      break;
    case 4:
      if (c->getAttribute<PartialFunctionAttribute>()->name != "pf" + std::to_string(n))
        fail("clone-literal:" + key.str(), "the function's name changed");
      if (auto &e = c->getAttribute<PartialFunctionAttribute>()->args; size(e.size()))
        for (int i = 0; i < n; i++)
          check(el[i], e[i]);
      break;
    case 5:
      if (c->getAttribute<StringValueAttribute>()->value != "s" + std::to_string(n))
        fail("clone-literal:" + key.str(), "the value changed");
    }
  });

  ex.explore([&] {
    fresh();
    int kind = ex.choose(4), nargs = ex.choose(3);
    bool generator = ex.choose(2), async = ex.choose(2), jit = ex.choose(2), parent = ex.choose(2);
    std::ostringstream key;
    key << "function" << kind << "/" << nargs << generator << async << jit << parent;
    current(key.str());
    Func *f = kind == 0   ? (Func *)M->Nr<BodiedFunc>("fn")
              : kind == 1 ? (Func *)M->Nr<ExternalFunc>("fn")
              : kind == 2 ? (Func *)M->Nr<InternalFunc>("fn")
                          : (Func *)M->Nr<LLVMFunc>("fn");
    std::vector<types::Type *> ts = {W->I, W->F};
    ts.resize(nargs);
    std::vector<std::string> names = {"p", "q"};
    names.resize(nargs);
    f->realize(M->unsafeGetFuncType("fn_t" + std::to_string(nargs), W->I, ts), names);
    f->setUnmangledName("plain");
    f->setGenerator(generator);
    f->setAsync(async);
    if (parent)
      f->setParentType(W->tuple);
    std::unordered_map<std::string, std::string> kvs = {{"inline", "yes"}};
    f->setAttribute(std::make_unique<KeyValueAttribute>(kvs));
    std::vector<Var *> locals;
    if (auto *b = cast<BodiedFunc>(f)) {
      b->setJIT(jit);
      auto *l = M->Nr<Var>(W->I, false, false, false, "local");
      b->push_back(l);
      auto *s = M->Nr<SeriesFlow>();
      s->push_back(M->Nr<AssignInstr>(l, nargs ? (Value *)M->Nr<VarValue>(f->arg_front()) : M->getInt(3)));
      s->push_back(M->Nr<CallInstr>(M->Nr<VarValue>(f), std::vector<Value *>{M->Nr<VarValue>(l), M->Nr<VarValue>(W->g)}));
      s->push_back(M->Nr<ReturnInstr>(M->Nr<VarValue>(l)));
      b->setBody(s);
    }
    if (auto *l = cast<LLVMFunc>(f)) {
      l->setLLVMBody("body");
      l->setLLVMDeclarations("decl");
      l->setLLVMLiterals({types::Generic(4), types::Generic(W->F), types::Generic(std::string("lit"))});
    }
    count("clones")++;
    util::CloneVisitor cv(M.get());
    auto *c = cv.forceClone(f);
    auto bad = [&](const std::string &s) { fail("clone-function:" + key.str(), s); };
    if (!c || c == f)
      return bad("no clone");
    if (c->getName() != f->getName() || c->getUnmangledName() != "plain" || c->getType() != f->getType() ||
        c->isGenerator() != generator || c->isAsync() != async)
      bad("a field of the function changed");
    if (c->getParentType() != f->getParentType())
      bad("the parent type changed");
    auto *kv = c->getAttribute<KeyValueAttribute>();
    if (!kv || kv->attributes != kvs)
      bad("the attributes changed");
    if (std::distance(c->arg_begin(), c->arg_end()) != nargs)
      return bad("the arguments changed");
    auto i = c->arg_begin();
    for (auto *a : std::vector<Var *>(f->arg_begin(), f->arg_end())) {
      if (*i == a || (*i)->getName() != a->getName() || (*i)->getType() != a->getType())
        bad("an argument is shared or changed");
      ++i;
    }
    if (auto *b = cast<BodiedFunc>(f)) {
      auto *d = cast<BodiedFunc>(c);
      if (!d || d->isJIT() != jit || std::distance(d->begin(), d->end()) != std::distance(b->begin(), b->end()))
        return bad("the function lost its kind, locals or flags");
      auto *s = cast<SeriesFlow>(d->getBody());
      auto *as = cast<AssignInstr>(s->front());
      auto *nl = as->getLhs();
      bool owned = false;
      for (auto *x : *d)
        owned |= x == nl;
      if (!owned || nl == b->front())
        bad("the clone's body does not use the clone's local");
      if (nargs && cast<VarValue>(as->getRhs())->getVar() != c->arg_front())
        bad("the clone's body does not use the clone's argument");
      auto it = s->begin();
      ++it;
      auto *call = cast<CallInstr>(*it);
      if (cast<VarValue>(call->getCallee())->getVar() != c)
        bad("a recursive call in the clone does not call the clone");
      if (cast<VarValue>(call->front())->getVar() != nl || cast<VarValue>(call->back())->getVar() != W->g)
        bad("the clone's call has other arguments");
      ++it;
      if (cast<VarValue>(cast<ReturnInstr>(*it)->getValue())->getVar() != nl)
        bad("the clone returns another variable");
    }
    if (auto *l = cast<LLVMFunc>(f)) {
      auto *d = cast<LLVMFunc>(c);
      if (!d || d->getLLVMBody() != "body" || d->getLLVMDeclarations() != "decl" ||
          std::distance(d->literal_begin(), d->literal_end()) != 3 ||
          d->literal_begin()->getStaticValue() != 4 || (d->literal_begin() + 1)->getTypeValue() != W->F ||
          (d->literal_begin() + 2)->getStaticStringValue() != "lit")
        bad("the LLVM code changed");
    }
    if (!util::match(f, c, true, false))
      bad("the function does not match its clone");
  });
}

// ------------------------------------------------------------------ match

static void matchAll(int shard, int total) {
  // one shared universe: trees with one compound node, plus loops with a jump in them
  struct Item {
    Value *v;
    std::string s[4];
  };
  std::vector<Item> items;
  std::set<std::string> seen;
  Explorer ex;
  fresh();
  auto add = [&](Value *v) {
    Item it;
    it.v = v;
    for (int m = 0; m < 4; m++) {
      Print p;
      p.names = m & 1;
      p.ids = m & 2;
      it.s[m] = p(v);
    }
    items.push_back(it);
  };
  auto once = [&](Value *v) { // keep two of each
    auto s = structure(v);
    if (seen.insert(s).second || seen.insert(s + "*").second)
      add(v);
  };
  ex.explore([&] {
    Build b(*W, ex, 1, false, true);
    int k = ex.choose(3);
    once(k == 2 ? (Value *)b.flowNode() : k == 1 ? b.instr() : b.leaf());
  });
  size_t plain = items.size();
  ex.explore([&] { // jumps: while { while { jump } } with every target
    Build b(*W, ex, 0, false, false);
    auto *o = M->Nr<WhileFlow>(M->getBool(true), nullptr);
    auto *i = M->Nr<WhileFlow>(M->getBool(true), nullptr);
    Value *t = std::vector<Value *>{nullptr, o, i}[ex.choose(3)];
    auto *s = M->Nr<SeriesFlow>();
    s->push_back(ex.choose(2) ? (Value *)M->Nr<BreakInstr>(t) : M->Nr<ContinueInstr>(t));
    i->setBody(s);
    auto *so = M->Nr<SeriesFlow>();
    so->push_back(i);
    if (ex.choose(2))
      so->push_back(M->Nr<BreakInstr>(o));
    o->setBody(so);
    add(o);
    add(o);
  });
  for (auto *n : {"n1", "n2"}) {
    auto *s = M->Nr<SeriesFlow>(n);
    s->push_back(M->Nr<VarValue>(W->a, n));
    add(s);
    auto *q = M->Nr<SeriesFlow>();
    q->push_back(M->Nr<VarValue>(W->a, n));
    add(q);
  }
  count("universe") = shard ? 0 : items.size();
  std::vector<std::string> kinds;
  std::map<std::string, size_t> first;
  for (size_t i = 0; i < items.size(); i++) {
    kinds.push_back(items[i].s[0].substr(0, items[i].s[0].find_first_of(" ')", 1)));
    first.emplace(kinds[i], i);
  }
  for (size_t i = shard; i < items.size(); i += total)
    for (size_t j = 0; j < items.size(); j++) {
      auto &ki = kinds[i], &kj = kinds[j];
      // every pair of one kind; every tree against one tree of every other kind
      if (ki != kj && first[kj] != j)
        continue;
      for (int m = 0; m < 4; m++) {
        bool want = items[i].s[m] == items[j].s[m];
        if (count("matches")++ % 64 == 0)
          current("match " + items[i].s[m] + " / " + items[j].s[m]);
        bool got = util::match(items[i].v, items[j].v, m & 1, m & 2);
        count(got ? "accepted" : "rejected")++;
        if (got != want)
          fail("match:" + std::to_string(m) + ":" + ki + ":" + items[i].s[m] + "/" + items[j].s[m],
               got ? "different trees match" : "equal trees do not match");
      }
    }
  if (shard == 0) {
    sample(items[plain / 2].s[3]);
    // wildcards
    for (auto &it : items) {
      if (!util::match(it.v, M->Nr<util::AnyValue>()))
        fail("match-any:" + it.s[0], "a value does not match the wildcard");
      if (!util::match(M->Nr<util::AnyValue>(), it.v))
        fail("match-any:" + it.s[0], "the wildcard does not match a value");
    }
  }
}

// ------------------------------------------------------------------ children and replacement

static std::string slots(const Value *x, const Node *from = nullptr, const Node *to = nullptr) {
  std::string s;
  for (auto &c : view(x).children)
    s += c.name + "=" + std::to_string(cast<Value>(c.node == from ? to : c.node)->getId()) + " ";
  return s;
}
static std::string vslots(const Value *x, const Node *from = nullptr, const Node *to = nullptr) {
  std::string s;
  for (auto &c : view(x).vars)
    s += c.name + "=" + std::to_string(cast<Var>(c.node == from ? to : c.node)->getId()) + " ";
  return s;
}
static std::string tslots(const Value *x, const types::Type *from = nullptr, const types::Type *to = nullptr) {
  std::string s;
  for (auto *t : view(x).types)
    s += (t == from ? to : t)->getName() + " ";
  return s;
}

static void replaceTree(Value *v) {
  auto text = structure(v);
  current("replace " + text);
  auto vw = view(v);
  auto bad = [&](const std::string &what, const std::string &d) { fail(what + ":" + text, d); };
  // queries
  std::multiset<const Node *> want, got;
  for (auto &c : vw.children)
    want.insert(c.node);
  if (vw.jump && vw.target)
    want.insert(vw.target);
  for (auto *c : v->getUsedValues())
    got.insert(c);
  if (want != got)
    bad("used-values", std::to_string(got.size()) + " values reported, " + std::to_string(want.size()) + " present");
  want.clear();
  got.clear();
  for (auto &c : vw.vars)
    want.insert(c.node);
  for (auto *c : v->getUsedVariables())
    got.insert(c);
  if (want != got)
    bad("used-variables", "reported " + std::to_string(got.size()) + ", present " + std::to_string(want.size()));
  std::multiset<std::string> wt, gt;
  for (auto *t : vw.types)
    wt.insert(t->getName());
  for (auto *t : v->getUsedTypes())
    gt.insert(t->getName());
  if (wt != gt)
    bad("used-types", "reported " + std::to_string(gt.size()) + ", present " + std::to_string(wt.size()));
  count("queries") += 3;
  // an id that is not used: nothing happens
  auto *stranger = M->getInt(9);
  if (v->replaceUsedValue(stranger, M->getInt(8)) != 0 || structure(v) != text)
    bad("replace-none", "replacing an unused value changed the node");
  if (v->replaceUsedVariable(W->gen, W->f) != 0 || structure(v) != text)
    bad("replace-none", "replacing an unused variable changed the node");
  if (v->replaceUsedType(W->fresh, W->I) != 0 || structure(v) != text)
    bad("replace-none", "replacing an unused type changed the node");
  std::set<const Node *> done;
  for (auto &c : vw.children)
    if (done.insert(c.node).second) {
      int n = 0;
      bool flow = false;
      for (auto &d : vw.children)
        if (d.node == c.node) {
          n++;
          flow |= d.flow;
        }
      auto *old = const_cast<Value *>(cast<Value>(c.node));
      Value *nv = flow ? (Value *)M->Nr<SeriesFlow>("new") : M->Nr<VarValue>(W->b);
      auto expect = slots(v, old, nv);
      auto rest = vslots(v) + tslots(v) + vw.data;
      int r = v->replaceUsedValue(old, nv);
      count("replacements")++;
      if (r != n)
        bad("replace-value", "reported " + std::to_string(r) + " replacements of " + c.name + ", expected " + std::to_string(n));
      if (slots(v) != expect || vslots(v) + tslots(v) + view(v).data != rest)
        bad("replace-value", "after replacing " + c.name + ": " + slots(v) + "expected " + expect);
      v->replaceUsedValue(nv, old);
      if (structure(v) != text)
        bad("replace-value", "putting " + c.name + " back gives " + structure(v));
    }
  done.clear();
  for (auto &c : vw.vars)
    if (done.insert(c.node).second) {
      int n = 0;
      for (auto &d : vw.vars)
        n += d.node == c.node;
      auto *old = const_cast<Var *>(cast<Var>(c.node));
      auto *nv = M->Nr<Var>(old->getType(), false, false, false, "new");
      auto expect = vslots(v, old, nv);
      auto rest = slots(v);
      int r = v->replaceUsedVariable(old, nv);
      count("replacements")++;
      if (r != n)
        bad("replace-variable", "reported " + std::to_string(r) + " replacements, expected " + std::to_string(n));
      if (vslots(v) != expect || slots(v) != rest)
        bad("replace-variable", "variables are now " + vslots(v));
      v->replaceUsedVariable(nv, old);
      if (structure(v) != text)
        bad("replace-variable", "putting it back gives " + structure(v));
    }
  std::set<const types::Type *> tdone;
  for (auto *t : vw.types)
    if (tdone.insert(t).second) {
      int n = 0;
      for (auto *u : vw.types)
        n += u == t;
      auto *nt = W->fresh;
      auto expect = tslots(v, t, nt);
      int r = v->replaceUsedType(const_cast<types::Type *>(t), nt);
      count("replacements")++;
      if (r != n || tslots(v) != expect)
        bad("replace-type", "reported " + std::to_string(r) + ", types are now " + tslots(v));
      v->replaceUsedType(nt, const_cast<types::Type *>(t));
      if (structure(v) != text)
        bad("replace-type", "putting it back gives " + structure(v));
    }
  // lazy replacement of each child: every reader sees the new node
  std::set<const Node *> replaced;
  for (auto &c : vw.children) {
    auto *old = const_cast<Value *>(cast<Value>(c.node));
    if (!replaced.insert(c.node).second)
      continue; // shared and done
    Value *nv = c.flow ? (Value *)M->Nr<SeriesFlow>("lazy") : M->Nr<VarValue>(W->b);
    auto expect = slots(v, old, nv);
    auto id = nv->getId();
    old->replaceAll(nv);
    count("replacements")++;
    if (slots(v) != expect)
      bad("replace-all", "slots are now " + slots(v) + ", expected " + expect);
    bool seen = false;
    for (auto *u : v->getUsedValues())
      seen |= u->getId() == id;
    if (!seen)
      bad("replace-all", "the replacement is not among the used values");
    if (old->getId() != id || old->getName() != nv->getName() || old->getType() != nv->getType() ||
        structure(old) != structure(nv))
      bad("replace-all", "the replaced node does not answer like its replacement");
  }
}

// ------------------------------------------------------------------ traversal

struct Walk : public util::Operator {
  std::vector<std::pair<const Node *, std::vector<const Node *>>> seen;
  explicit Walk(bool childrenFirst) : Operator(childrenFirst) {}
  void preHook(Node *n) override {
    std::vector<const Node *> up;
    for (int i = 0; i < depth(); i++)
      up.push_back(getParent(i));
    seen.push_back({n, up});
  }
};

static void order(const Value *x, std::vector<const Node *> up, bool first, std::set<const Value *> &once,
                  std::vector<std::pair<const Node *, std::vector<const Node *>>> &out) {
  // getUsedValues gives the order among children; membership is checked elsewhere
  auto visit = [&] {
    auto in = up;
    in.insert(in.begin(), x);
    if (auto *s = cast<SeriesFlow>(x)) {
      for (auto *c : *s)
        order(c, in, first, once, out);
      return;
    }
    for (auto *c : x->getUsedValues())
      if (once.insert(c).second)
        order(c, in, first, once, out);
  };
  if (first)
    visit();
  out.push_back({x, up});
  if (!first)
    visit();
}

struct Insert : public util::Operator {
  Module *M;
  int mode;
  explicit Insert(Module *M, int mode) : M(M), mode(mode) {}
  void handle(VarValue *v) override {
    if (v->getName() == "ins")
      return;
    if (itsSeries() && !done.count(v->getId())) {
      done.insert(v->getId());
      auto *n = M->Nr<VarValue>(v->getVar(), "ins");
      if (mode == 0)
        insertBefore(n);
      else
        insertAfter(n);
    }
  }
  std::set<codon::ir::id_t> done;
  bool itsSeries() { return depth() > 0 && getParent<SeriesFlow>() != nullptr; }
};

static void traverse(Value *v) {
  auto text = structure(v);
  current("traverse " + text);
  for (bool first : {false, true}) {
    Walk w(first);
    v->accept(w);
    std::vector<std::pair<const Node *, std::vector<const Node *>>> want;
    std::set<const Value *> once = {};
    order(v, {}, first, once, want);
    count("walks")++;
    if (w.seen != want)
      fail("traverse:" + text, "visited " + std::to_string(w.seen.size()) + " nodes, expected " +
                                   std::to_string(want.size()) + (first ? ", children first" : "") +
                                   " (or in another order, or with other parents)");
  }
  std::vector<const Value *> all;
  collect(v, all);
  // every reachable node once
  Walk w(false);
  v->accept(w);
  std::set<const Node *> s, a(all.begin(), all.end());
  for (auto &p : w.seen)
    s.insert(p.first);
  for (auto *x : all)
    for (auto &t : {view(x).target})
      if (t && !a.count(t))
        return;
  if (s != a)
    fail("traverse:" + text, "a node is skipped");
}

static void insertion() { // series of up to 3 items, nested
  Explorer ex;
  ex.explore([&] {
    fresh();
    std::string expectB, expectA, text;
    int id = 0;
    std::function<SeriesFlow *(int, std::string &, std::string &)> make = [&](int depth, std::string &b, std::string &a) {
      auto *s = M->Nr<SeriesFlow>();
      b += "{";
      a += "{";
      for (int n = ex.choose(4); n > 0; n--)
        switch (ex.choose(depth ? 3 : 2)) {
        case 0:
          s->push_back(M->Nr<VarValue>(W->a, "x"));
          b += "ins x ";
          a += "x ins ";
          break;
        case 1:
          s->push_back(M->getInt(id++));
          b += "k ";
          a += "k ";
          break;
        case 2:
          s->push_back(make(depth - 1, b, a));
        }
      b += "}";
      a += "}";
      return s;
    };
    auto *s = make(1, expectB, expectA);
    std::function<std::string(SeriesFlow *)> show = [&](SeriesFlow *f) {
      std::string r = "{";
      for (auto *c : *f)
        if (auto *g = cast<SeriesFlow>(c))
          r += show(g);
        else
          r += (isA<VarValue>(c) ? c->getName() : "k") + " ";
      return r + "}";
    };
    int mode = ex.choose(2);
    current("insert " + show(s));
    auto before = show(s);
    Insert op(M.get(), mode);
    s->accept(op);
    count("walks")++;
    if (show(s) != (mode ? expectA : expectB))
      fail(std::string(mode ? "insert-after:" : "insert-before:") + before, "gives " + show(s));
  });
}

// functions: queries and replacement
static void functions() {
  Explorer ex;
  ex.explore([&] {
    fresh();
    int kind = ex.choose(4);
    bool parent = ex.choose(2);
    Func *f = kind == 0   ? (Func *)M->Nr<BodiedFunc>("fn")
              : kind == 1 ? (Func *)M->Nr<ExternalFunc>("fn")
              : kind == 2 ? (Func *)M->Nr<InternalFunc>("fn")
                          : (Func *)M->Nr<LLVMFunc>("fn");
    auto *ft = M->unsafeGetFuncType("fn_t2", W->I, {W->I, W->F});
    f->realize(ft, {"p", "q"});
    if (parent)
      f->setParentType(W->tuple);
    std::string key = "function" + std::to_string(kind) + std::to_string(parent);
    current(key);
    std::multiset<std::string> want = {ft->getName()}, got;
    if (parent)
      want.insert(W->tuple->getName());
    if (auto *l = cast<LLVMFunc>(f)) {
      l->setLLVMLiterals({types::Generic(W->F), types::Generic(3)});
      want.insert(W->F->getName());
    }
    for (auto *t : f->getUsedTypes())
      got.insert(t->getName());
    count("queries")++;
    if (got != want)
      fail("used-types:" + key, "reported " + std::to_string(got.size()) + ", present " + std::to_string(want.size()));
    if (parent) {
      auto *s = M->getStringType();
      if (f->replaceUsedType(W->tuple, s) != 1 || f->getParentType() != s)
        fail("replace-type:" + key, "the parent type is not replaced");
      f->replaceUsedType(s, W->tuple);
    }
    auto *nt = M->unsafeGetFuncType("fn_t3", W->F, {W->I, W->F});
    if (f->replaceUsedType(ft, nt) != 1 || f->getType() != nt)
      fail("replace-type:" + key, "the function's type is not replaced");
    std::vector<Var *> vars(f->arg_begin(), f->arg_end());
    if (auto *b = cast<BodiedFunc>(f)) {
      b->push_back(M->Nr<Var>(W->I));
      vars.push_back(b->back());
      auto *s = M->Nr<SeriesFlow>();
      b->setBody(s);
      auto *n = M->Nr<SeriesFlow>();
      auto used = b->getUsedValues();
      if (used.size() != 1 || used[0] != s || b->replaceUsedValue(s, n) != 1 || b->getBody() != n)
        fail("replace-value:" + key, "the body is not reported or replaced");
    }
    auto reported = f->getUsedVariables();
    if (reported != vars)
      fail("used-variables:" + key, "reported " + std::to_string(reported.size()));
    for (size_t i = 0; i < vars.size(); i++) {
      auto *n = M->Nr<Var>(vars[i]->getType());
      int r = f->replaceUsedVariable(vars[i], n);
      vars[i] = n;
      if (r != 1 || f->getUsedVariables() != vars)
        fail("replace-variable:" + key, "argument or local " + std::to_string(i));
      count("replacements")++;
    }
  });
}

int main(int argc, char **argv) {
  std::string mode = argv[1];
  int budget = atoi(argv[2]), n = atoi(argv[3]);
  return shards(n, "nodes-" + mode, [&](int shard, int total) {
    if (mode == "clone") {
      if (shard == 0)
        cloneOthers();
      trees(budget, true, false, shard, total, cloneTree);
    } else if (mode == "match") {
      matchAll(shard, total);
    } else if (mode == "replace") {
      if (shard == 0)
        functions();
      trees(budget, true, budget == 1, shard, total, replaceTree);
    } else if (mode == "walk") {
      if (shard == 0)
        insertion();
      trees(budget, true, false, shard, total, traverse);
    }
    if (count("trees") == 0 && mode != "match")
      fail("empty", "no trees");
  });
}
