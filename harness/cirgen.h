// Bounded CIR programs: every function body up to a statement budget over one tracked variable,
// and an executor that follows every decision (branches, loop exits, exceptions) of such a body.
#pragma once
#include "codon/cir/cir.h"
#include "codon/cir/dsl/nodes.h"
#include "explore.h"
#include <set>

namespace mc {
using namespace codon::ir;

struct GenOptions {
  bool jumps = true, tries = true, ternary = true, generators = true, throws = true;
  bool deadCode = true; // statements may follow a jump
  bool pointers = false; // the address of v (or of a field of v) may be handed out
  int blockMax = 2;
};

// The functions a generated body calls.
struct Env {
  Module *M;
  Func *src, *sink, *gen, *cond, *bound, *leak;
  types::Type *I, *T; // int, and the type of the variable
  bool record;    // T is a tuple with two members

  explicit Env(Module *M, bool record = false) : M(M), record(record) {
    T = M->getIntType();
    I = T;
    if (record) {
      auto *r = cast<types::RecordType>(M->unsafeGetMemberedType("rec"));
      r->realize({I, I}, {"a", "b"});
      T = r;
    }
    auto ext = [&](const char *name, types::Type *ret, std::vector<types::Type *> args,
                   std::vector<std::string> names) {
      auto *f = M->Nr<ExternalFunc>(name);
      f->setUnmangledName(name);
      f->realize(M->unsafeGetFuncType(std::string(name) + "_t", ret, args), names);
      return f;
    };
    src = ext("src", T, {}, {});
    sink = ext("sink", M->getVoidType(), {T}, {"x"});
    gen = ext("gen", M->unsafeGetGeneratorType(T), {}, {});
    cond = ext("cond", M->getBoolType(), {}, {});
    bound = ext("bound", I, {}, {});
    leak = ext("leak", M->getVoidType(), {M->unsafeGetPointerType(record ? I : T)}, {"p"});
  }
  Value *call(Func *f, std::vector<Value *> args = {}) {
    return M->Nr<CallInstr>(M->Nr<VarValue>(f), std::move(args));
  }
};

struct Gen {
  Env &env;
  Module *M;
  Explorer &ex;
  GenOptions opt;
  Var *v, *w;
  BodiedFunc *f = nullptr;
  int budget = 0;
  std::string text;
  std::vector<Flow *> loops;
  int constant = 10;
  int inValue = 0; // inside a flow that computes an operand: no jumps there

  Gen(Env &env, Explorer &ex, GenOptions opt = {}) : env(env), M(env.M), ex(ex), opt(opt) {}

  // A function f(v) whose body spends at most n statements, then uses v.
  BodiedFunc *function(int n, const std::string &name = "f") {
    budget = n;
    f = M->Nr<BodiedFunc>(name);
    f->setUnmangledName(name);
    f->realize(M->unsafeGetFuncType(name + "_t", env.T, {env.T}), {"v"});
    v = *f->arg_begin();
    w = M->Nr<Var>(env.I, false, false, false, "w");
    f->push_back(w);
    auto *body = M->Nr<SeriesFlow>("body");
    f->setBody(body);
    fill(body, 3);
    use(body);
    return f;
  }

  void use(SeriesFlow *s) {
    s->push_back(env.call(env.sink, {M->Nr<VarValue>(v)}));
    text += "use;";
  }

  SeriesFlow *block(int most) {
    auto *s = M->Nr<SeriesFlow>();
    text += "{";
    fill(s, most);
    text += "}";
    return s;
  }

  // statements until the budget is spent or the block is closed; a jump closes the block
  void fill(SeriesFlow *s, int most) {
    for (int i = 0; i < most && budget > 0; i++) {
      if (ex.choose(2) == 0) // close
        return;
      budget--;
      if (statement(s) && !opt.deadCode)
        return;
    }
  }

  Value *constantValue() {
    return env.record ? env.call(env.src) : M->getInt(constant++);
  }

  enum Kind { ASSIGN, CALLASSIGN, USE, IF, IFELSE, WHILE, FOR, IMPFOR, TRY, TRYFIN, TRYFULL, TERN,
              WHILETERN, LEAK, YIELD, THROW, RETURN, BREAK, CONTINUE, BREAKOUT, CONTOUT };

  bool statement(SeriesFlow *s) {
    std::vector<Kind> menu = {ASSIGN, CALLASSIGN, USE, IF, IFELSE, WHILE, IMPFOR};
    if (opt.pointers)
      menu.push_back(LEAK);
    if (opt.generators) {
      menu.push_back(FOR);
      menu.push_back(YIELD);
    }
    if (opt.tries) {
      menu.push_back(TRY);
      menu.push_back(TRYFIN);
      menu.push_back(TRYFULL);
    }
    if (opt.ternary) {
      menu.push_back(TERN);
      menu.push_back(WHILETERN);
    }
    if (opt.jumps && !inValue) {
      menu.push_back(RETURN);
      if (!loops.empty()) {
        menu.push_back(BREAK);
        menu.push_back(CONTINUE);
      }
      if (loops.size() > 1) {
        menu.push_back(BREAKOUT);
        menu.push_back(CONTOUT);
      }
    }
    if (opt.throws && !inValue)
      menu.push_back(THROW);
    auto k = menu[ex.choose(menu.size())];
    int most = opt.blockMax;
    switch (k) {
    case ASSIGN:
      text += "v=K;";
      s->push_back(M->Nr<AssignInstr>(v, constantValue()));
      return false;
    case LEAK:
      text += "leak;";
      s->push_back(env.call(env.leak, {env.record ? M->Nr<PointerValue>(v, std::vector<std::string>{"b"})
                                                  : M->Nr<PointerValue>(v)}));
      return false;
    case CALLASSIGN:
      text += "v=src;";
      s->push_back(M->Nr<AssignInstr>(v, env.call(env.src)));
      return false;
    case USE:
      use(s);
      return false;
    case IF: {
      text += "if";
      auto *c = env.call(env.cond);
      s->push_back(M->Nr<IfFlow>(c, block(most)));
      return false;
    }
    case IFELSE: {
      text += "if";
      auto *c = env.call(env.cond);
      auto *t = block(most);
      text += "else";
      s->push_back(M->Nr<IfFlow>(c, t, block(most)));
      return false;
    }
    case WHILE: {
      text += "while";
      auto *body = M->Nr<SeriesFlow>();
      auto *l = M->Nr<WhileFlow>(env.call(env.cond), body);
      loopBody(l, body, most);
      s->push_back(l);
      return false;
    }
    case WHILETERN: {
      text += "while?";
      auto *c = env.call(env.cond);
      inValue++;
      auto *e = block(1);
      inValue--;
      auto *tern = M->Nr<TernaryInstr>(c, M->Nr<FlowInstr>(e, env.call(env.cond)), M->getBool(false));
      auto *body = M->Nr<SeriesFlow>();
      auto *l = M->Nr<WhileFlow>(tern, body);
      loopBody(l, body, most);
      s->push_back(l);
      return false;
    }
    case FOR: {
      bool own = ex.choose(2);
      text += own ? "for w" : "for v";
      auto *body = M->Nr<SeriesFlow>();
      auto *l = M->Nr<ForFlow>(env.call(env.gen), body, own ? w : v);
      loopBody(l, body, most);
      s->push_back(l);
      return false;
    }
    case IMPFOR: {
      bool own = env.record || ex.choose(2);
      text += own ? "range w" : "range v";
      auto *body = M->Nr<SeriesFlow>();
      auto *l = M->Nr<ImperativeForFlow>(M->getInt(0), 1, env.call(env.bound), body, own ? w : v);
      loopBody(l, body, most);
      s->push_back(l);
      return false;
    }
    case TRY: {
      text += "try";
      auto *b = block(most);
      bool named = ex.choose(2);
      text += named ? "except v" : "except";
      auto *h = block(most);
      auto *t = M->Nr<TryCatchFlow>(b);
      t->push_back(TryCatchFlow::Catch(h, env.T, named ? v : nullptr));
      s->push_back(t);
      return false;
    }
    case TRYFIN: {
      text += "try";
      auto *b = block(most);
      text += "finally";
      s->push_back(M->Nr<TryCatchFlow>(b, block(most)));
      return false;
    }
    case TRYFULL: {
      text += "try";
      auto *b = block(most);
      text += "except";
      auto *h = block(1);
      text += "else";
      auto *e = block(1);
      text += "finally";
      auto *t = M->Nr<TryCatchFlow>(b, block(1), e);
      t->push_back(TryCatchFlow::Catch(h, env.T, nullptr));
      s->push_back(t);
      return false;
    }
    case TERN: {
      text += "sink(c?";
      auto *c = env.call(env.cond);
      inValue++;
      auto *e = block(1);
      text += ":";
      auto *e2 = block(1);
      inValue--;
      text += ");";
      s->push_back(env.call(
          env.sink, {M->Nr<TernaryInstr>(c, M->Nr<FlowInstr>(e, M->Nr<VarValue>(v)),
                                         M->Nr<FlowInstr>(e2, constantValue()))}));
      return false;
    }
    case YIELD:
      text += "yield;";
      s->push_back(M->Nr<YieldInstr>(M->Nr<VarValue>(v)));
      return false;
    case THROW:
      text += "throw;";
      s->push_back(M->Nr<ThrowInstr>(M->Nr<VarValue>(v)));
      return true;
    case RETURN:
      text += "return;";
      s->push_back(M->Nr<ReturnInstr>(M->Nr<VarValue>(v)));
      return true;
    case BREAK:
    case BREAKOUT:
      text += k == BREAK ? "break;" : "break outer;";
      s->push_back(M->Nr<BreakInstr>(k == BREAK ? nullptr : loops[loops.size() - 2]));
      return true;
    case CONTINUE:
    case CONTOUT:
      text += k == CONTINUE ? "continue;" : "continue outer;";
      s->push_back(M->Nr<ContinueInstr>(k == CONTINUE ? nullptr : loops[loops.size() - 2]));
      return true;
    }
    return false;
  }

  void loopBody(Flow *l, SeriesFlow *body, int most) {
    loops.push_back(l);
    text += "{";
    fill(body, most);
    text += "}";
    loops.pop_back();
  }
};

// What a definition of a variable looks like from outside the analyses.
struct Def {
  const Node *by = nullptr; // the assignment, or the flow that assigns
  int how = 0;              // 0 assignment, 1 start of loop, 2 step of loop, 3 next, 4 catch, 5 argument, 6 through its address
  bool operator<(const Def &o) const { return by != o.by ? by < o.by : how < o.how; }
  bool operator==(const Def &o) const { return by == o.by && how == o.how; }
};

// Runs a body along one sequence of decisions.
struct Exec {
  enum Out { NORMAL, BREAK, CONTINUE, RETURN, THROW };
  Explorer &ex;
  int throwsLeft, iterations; // left for the whole execution
  std::map<const Var *, Def> defs;
  std::set<const Var *> leaked; // variables whose address was taken: any call may write them
  const Flow *target = nullptr; // of the jump in flight
  std::vector<const Flow *> loops;
  std::function<void(const Value *)> onValue; // after a value was evaluated

  Exec(Explorer &ex, int throwsLeft, int iterations)
      : ex(ex), throwsLeft(throwsLeft), iterations(iterations) {}

  Out function(const BodiedFunc *f) {
    for (auto it = f->arg_begin(); it != f->arg_end(); ++it)
      defs[*it] = {f, 5};
    return run(f->getBody());
  }

  Out done(const Value *v) {
    onValue(v);
    return NORMAL;
  }

  // an operation that may throw
  bool throws() {
    if (throwsLeft > 0 && ex.choose(2)) {
      throwsLeft--;
      return true;
    }
    return false;
  }

#define STEP(x)                                                                                   \
  do {                                                                                            \
    if (auto o_ = run(x); o_ != NORMAL)                                                           \
      return o_;                                                                                  \
  } while (0)

  Out loop(const Flow *l, const std::function<Out()> &enter, const Flow *body) {
    loops.push_back(l);
    Out res = NORMAL;
    for (int i = 0;; i++) {
      auto o = enter(); // evaluates the condition; BREAK: exit
      if (o == BREAK)
        break;
      if (o != NORMAL) {
        res = o;
        break;
      }
      if (iterations-- <= 0) { // bound reached: this execution is cut here
        res = RETURN;
        break;
      }
      o = run(body);
      if (o == BREAK && target == l)
        break;
      if (o == NORMAL || (o == CONTINUE && target == l))
        continue;
      res = o;
      break;
    }
    loops.pop_back();
    return res;
  }

  Out run(const Value *x) {
    if (auto *s = cast<SeriesFlow>(x)) {
      for (auto *c : *s)
        STEP(c);
      return NORMAL;
    }
    if (auto *i = cast<IfFlow>(x)) {
      STEP(i->getCond());
      if (ex.choose(2))
        return run(i->getTrueBranch());
      return i->getFalseBranch() ? run(i->getFalseBranch()) : NORMAL;
    }
    if (auto *l = cast<WhileFlow>(x)) {
      return loop(l, [&] {
        STEP(l->getCond());
        return ex.choose(2) ? NORMAL : BREAK;
      }, l->getBody());
    }
    if (auto *l = cast<ForFlow>(x)) {
      STEP(l->getIter());
      return loop(l, [&] {
        if (throws())
          return THROW;
        if (!ex.choose(2))
          return BREAK;
        defs[l->getVar()] = {l, 3};
        return NORMAL;
      }, l->getBody());
    }
    if (auto *l = cast<ImperativeForFlow>(x)) {
      STEP(l->getStart());
      STEP(l->getEnd());
      bool first = true;
      return loop(l, [&] {
        if (!ex.choose(2))
          return BREAK;
        defs[l->getVar()] = {l, first ? 1 : 2};
        first = false;
        return NORMAL;
      }, l->getBody());
    }
    if (auto *t = cast<TryCatchFlow>(x)) {
      auto o = run(t->getBody());
      if (o == NORMAL && t->getElse())
        o = run(t->getElse());
      else if (o == THROW) {
        for (auto &c : *t) {
          if (ex.choose(2)) { // matches
            if (c.getVar())
              defs[c.getVar()] = {t, 4};
            o = run(c.getHandler());
            break;
          }
        }
      }
      if (t->getFinally()) {
        auto saved = target;
        auto fo = run(t->getFinally());
        if (fo != NORMAL)
          return fo;
        target = saved;
      }
      return o;
    }
    if (auto *a = cast<AssignInstr>(x)) {
      STEP(a->getRhs());
      defs[a->getLhs()] = {a, 0};
      return done(x);
    }
    if (auto *c = cast<CallInstr>(x)) {
      STEP(c->getCallee());
      for (auto *a : *c)
        STEP(a);
      for (auto *v : leaked)
        defs[v] = {c, 6};
      onValue(x);
      return throws() ? THROW : NORMAL;
    }
    if (auto *t = cast<TernaryInstr>(x)) {
      STEP(t->getCond());
      if (ex.choose(2))
        STEP(t->getTrueValue());
      else
        STEP(t->getFalseValue());
      return done(x);
    }
    if (auto *f = cast<FlowInstr>(x)) {
      STEP(f->getFlow());
      STEP(f->getValue());
      return done(x);
    }
    if (auto *e = cast<ExtractInstr>(x)) {
      STEP(e->getVal());
      return done(x);
    }
    if (auto *e = cast<InsertInstr>(x)) {
      STEP(e->getLhs());
      STEP(e->getRhs());
      return done(x);
    }
    if (auto *y = cast<YieldInstr>(x)) {
      if (y->getValue())
        STEP(y->getValue());
      return done(x);
    }
    if (auto *r = cast<ReturnInstr>(x)) {
      if (r->getValue())
        STEP(r->getValue());
      onValue(x);
      return RETURN;
    }
    if (auto *t = cast<ThrowInstr>(x)) {
      if (t->getValue())
        STEP(t->getValue());
      onValue(x);
      return THROW;
    }
    if (auto *b = cast<BreakInstr>(x)) {
      target = b->getLoop() ? cast<Flow>(b->getLoop()) : loops.back();
      onValue(x);
      return BREAK;
    }
    if (auto *b = cast<ContinueInstr>(x)) {
      target = b->getLoop() ? cast<Flow>(b->getLoop()) : loops.back();
      onValue(x);
      return CONTINUE;
    }
    if (auto *p = cast<PointerValue>(x))
      leaked.insert(p->getVar());
    return done(x); // constants and variables
  }
#undef STEP
};

} // namespace mc
