// A reference interpreter for CIR: runs bodied functions along one sequence of decisions and records
// what is observable (calls of the external functions below, the result, an escaping exception).
#pragma once
#include "codon/cir/cir.h"
#include "codon/cir/util/irtools.h"
#include "explore.h"
#include <memory>
#include <set>
#include <unordered_map>

namespace mc {
using namespace codon::ir;

struct Val {
  enum Kind { NONE, UNDEF, INT, BOOL, TUPLE, PTR, FUNC } k = NONE;
  int64_t i = 0;
  std::vector<Val> f;
  std::shared_ptr<Val> cell; // of a pointer
  std::vector<int> path;     // into the cell
  Func *fn = nullptr;
  static Val of(int64_t i) {
    Val v;
    v.k = INT;
    v.i = i;
    return v;
  }
  static Val of(bool b) {
    Val v;
    v.k = BOOL;
    v.i = b;
    return v;
  }
  std::string str() const {
    switch (k) {
    case NONE:
      return "none";
    case UNDEF:
      return "undefined";
    case INT:
      return std::to_string(i);
    case BOOL:
      return i ? "true" : "false";
    case TUPLE: {
      std::string s = "(";
      for (auto &x : f)
        s += x.str() + ",";
      return s + ")";
    }
    case PTR:
      return "pointer";
    case FUNC:
      return "function";
    }
    return "?";
  }
};

struct Machine {
  enum Out { NORMAL, BREAK, CONTINUE, RETURN, THROW, STOP };
  Explorer &ex;
  std::string trace, problem;
  int decisions, steps;
  int serial = 0;
  std::unordered_map<codon::ir::id_t, std::shared_ptr<Val>> globals;

  struct Frame {
    BodiedFunc *f;
    std::unordered_map<codon::ir::id_t, std::shared_ptr<Val>> vars;
    std::vector<const Flow *> loops;
    std::vector<std::pair<Val, types::Type *>> caught;
    Val ret;
  };
  std::vector<Frame *> stack;
  const Flow *target = nullptr;
  std::pair<Val, types::Type *> thrown;

  Machine(Explorer &ex, int decisions, int steps = 400) : ex(ex), decisions(decisions), steps(steps) {}

  void event(const std::string &s) { trace += s + ";"; }
  Out bad(const std::string &s) {
    if (problem.empty())
      problem = s;
    event("PROBLEM " + s);
    return STOP;
  }
  bool decide() {
    if (decisions <= 0)
      return false;
    decisions--;
    return ex.choose(2);
  }

  static Val zero(types::Type *t) {
    Val v;
    v.k = Val::UNDEF;
    return v;
  }

  Val *place(Var *v) {
    if (v->isGlobal()) {
      auto &c = globals[v->getId()];
      if (!c)
        c = std::make_shared<Val>(Val::of((int64_t)0)); // globals start as zero
      return c.get();
    }
    auto it = stack.back()->vars.find(v->getId());
    if (it == stack.back()->vars.end()) {
      bad("a variable that is not declared in its function is used");
      return nullptr;
    }
    return it->second.get();
  }
  std::shared_ptr<Val> cellOf(Var *v) {
    if (!place(v))
      return nullptr;
    return v->isGlobal() ? globals[v->getId()] : stack.back()->vars[v->getId()];
  }
  static Val *follow(Val *v, const std::vector<int> &path) {
    for (int i : path) {
      if (v->k != Val::TUPLE || i >= (int)v->f.size())
        return nullptr;
      v = &v->f[i];
    }
    return v;
  }

  Out callBodied(BodiedFunc *f, const std::vector<Val> &args, Val &res) {
    if (stack.size() > 6)
      return STOP; // recursion bound
    Frame fr;
    fr.f = f;
    size_t n = 0;
    for (auto it = f->arg_begin(); it != f->arg_end(); ++it, n++) {
      if (n >= args.size())
        return bad("too few arguments");
      fr.vars[(*it)->getId()] = std::make_shared<Val>(args[n]);
    }
    if (n != args.size())
      return bad("too many arguments");
    for (auto *v : *f)
      fr.vars[v->getId()] = std::make_shared<Val>(zero(v->getType()));
    auto *savedTarget = target;
    stack.push_back(&fr);
    auto o = run(f->getBody());
    stack.pop_back();
    target = savedTarget;
    if (o == RETURN) {
      res = fr.ret;
      return NORMAL;
    }
    if (o == NORMAL) { // end of the body: zero
      auto *t = util::getReturnType(f);
      if (t->is(f->getModule()->getIntType()))
        res = Val::of((int64_t)0);
      return NORMAL;
    }
    if (o == BREAK || o == CONTINUE)
      return bad("a jump leaves its function");
    return o;
  }

#define STEP(x)                                                                                   \
  do {                                                                                            \
    if (auto o_ = (x); o_ != NORMAL)                                                              \
      return o_;                                                                                  \
  } while (0)

  Out call(CallInstr *c, Val &res) {
    Val callee;
    STEP(eval(c->getCallee(), callee));
    std::vector<Val> args;
    for (auto *a : *c) {
      args.emplace_back();
      STEP(eval(a, args.back()));
    }
    auto *f = callee.fn;
    if (!f)
      return bad("a call of something that is no function");
    if (auto *e = cast<ExternalFunc>(f))
      return external(e->getUnmangledName(), args, res);
    auto name = f->getUnmangledName();
    if (name == "__new__" && isA<InternalFunc>(f)) {
      res.k = Val::TUPLE;
      res.f = args;
      return NORMAL;
    }
    if (!args.empty() && name.rfind("__", 0) == 0) {
      if (args[0].k == Val::PTR) {
        auto *p = follow(args[0].cell.get(), args[0].path);
        if (!p || args.size() < 2 || args[1].k != Val::INT || args[1].i != 0)
          return bad("a pointer is used in a wrong way");
        if (name == "__getitem__") {
          res = *p;
          return NORMAL;
        }
        if (name == "__setitem__") {
          *p = args[2];
          return NORMAL;
        }
      }
      for (auto &a : args)
        if (a.k == Val::UNDEF) {
          event("undefined operand");
          return STOP;
        }
      if (args[0].k == Val::INT && (args.size() == 1 || args[1].k == Val::INT))
        return intOp(name, args[0].i, args.size() > 1 ? args[1].i : 0, res);
      if (args[0].k == Val::BOOL && (args.size() == 1 || args[1].k == Val::BOOL))
        return boolOp(name, args[0].i, args.size() > 1 ? args[1].i : 0, res);
    }
    if (auto *b = cast<BodiedFunc>(f))
      return callBodied(b, args, res);
    return bad("an unknown function is called: " + name);
  }

  Out intOp(const std::string &n, int64_t a, int64_t b, Val &res) {
    uint64_t x = a, y = b;
    auto I = [&](uint64_t r) {
      res = Val::of((int64_t)r);
      return NORMAL;
    };
    auto B = [&](bool r) {
      res = Val::of(r);
      return NORMAL;
    };
    if (n == "__add__") return I(x + y);
    if (n == "__sub__") return I(x - y);
    if (n == "__mul__") return I(x * y);
    if (n == "__neg__") return I(-x);
    if (n == "__pos__") return I(x);
    if (n == "__invert__") return I(~x);
    if (n == "__and__") return I(x & y);
    if (n == "__or__") return I(x | y);
    if (n == "__xor__") return I(x ^ y);
    if (n == "__eq__") return B(a == b);
    if (n == "__ne__") return B(a != b);
    if (n == "__lt__") return B(a < b);
    if (n == "__le__") return B(a <= b);
    if (n == "__gt__") return B(a > b);
    if (n == "__ge__") return B(a >= b);
    if (n == "__bool__") return B(a != 0);
    if (n == "__int__") return I(x);
    return bad("unknown operation " + n);
  }
  Out boolOp(const std::string &n, bool a, bool b, Val &res) {
    auto B = [&](bool r) {
      res = Val::of(r);
      return NORMAL;
    };
    if (n == "__invert__") return B(!a);
    if (n == "__and__") return B(a && b);
    if (n == "__or__") return B(a || b);
    if (n == "__xor__") return B(a != b);
    if (n == "__eq__") return B(a == b);
    if (n == "__ne__") return B(a != b);
    if (n == "__bool__") return B(a);
    return bad("unknown operation on bool " + n);
  }

  Out external(const std::string &n, const std::vector<Val> &args, Val &res) {
    if (n == "src") { // a fresh value, or zero
      auto v = Val::of((int64_t)(1000003LL * ++serial));
      event("src");
      res = v;
      return NORMAL;
    }
    if (n == "pure") {
      res = Val::of((int64_t)(31 * (uint64_t)args[0].i + 7));
      return NORMAL;
    }
    if (n == "some") {
      event("some");
      res = Val::of((int64_t)decide());
      return NORMAL;
    }
    if (n == "cond") {
      event("cond");
      res = Val::of(decide());
      return NORMAL;
    }
    if (n == "sink") {
      event("sink " + args[0].str());
      return NORMAL;
    }
    if (n == "leak") { // writes through the pointer
      auto *p = follow(args[0].cell.get(), args[0].path);
      if (!p)
        return bad("a pointer is used in a wrong way");
      event("leak " + p->str());
      *p = Val::of((int64_t)(-500009LL * ++serial));
      return NORMAL;
    }
    if (n == "boom") { // may throw
      event("boom");
      if (decide()) {
        thrown = {Val::of((int64_t)77), nullptr};
        return THROW;
      }
      return NORMAL;
    }
    return bad("unknown external " + n);
  }

  Out loop(const Flow *l, const std::function<Out()> &enter, Value *body) {
    stack.back()->loops.push_back(l);
    Out res = NORMAL;
    for (;;) {
      auto o = enter();
      if (o == BREAK && target == nullptr)
        break;
      if (o != NORMAL) {
        res = o;
        break;
      }
      if (--steps <= 0) {
        res = STOP;
        break;
      }
      o = run(body);
      if (o == BREAK && target == l)
        break;
      if (o == NORMAL || (o == CONTINUE && target == l))
        continue;
      res = o;
      break;
    }
    stack.back()->loops.pop_back();
    return res;
  }

  Out run(Value *x) {
    Val ignored;
    return eval(x, ignored);
  }

  Out eval(Value *x, Val &res) {
    if (!x)
      return bad("a missing value");
    x = x->getActual();
    if (--steps <= 0)
      return STOP;
    if (auto *s = cast<SeriesFlow>(x)) {
      for (auto *c : *s)
        STEP(run(c));
      return NORMAL;
    }
    if (auto *i = cast<IfFlow>(x)) {
      Val c;
      STEP(eval(i->getCond(), c));
      if (c.k != Val::BOOL)
        return bad("a condition that is not a bool");
      if (c.i)
        return run(i->getTrueBranch());
      return i->getFalseBranch() ? run(i->getFalseBranch()) : NORMAL;
    }
    if (auto *l = cast<WhileFlow>(x))
      return loop(l, [&] {
        Val c;
        STEP(eval(l->getCond(), c));
        target = nullptr;
        return c.i ? NORMAL : BREAK;
      }, l->getBody());
    if (auto *l = cast<ImperativeForFlow>(x)) {
      Val a, b;
      STEP(eval(l->getStart(), a));
      STEP(eval(l->getEnd(), b));
      int64_t i = a.i, step = l->getStep();
      return loop(l, [&] {
        if (step > 0 ? i >= b.i : i <= b.i) {
          target = nullptr;
          return BREAK;
        }
        auto *p = place(l->getVar());
        if (!p)
          return STOP;
        *p = Val::of(i);
        i += step;
        return NORMAL;
      }, l->getBody());
    }
    if (auto *t = cast<TryCatchFlow>(x)) {
      auto o = run(t->getBody());
      if (o == NORMAL && t->getElse())
        o = run(t->getElse());
      else if (o == THROW) {
        for (auto &c : *t) {
          auto *type = thrown.second ? thrown.second : x->getModule()->getIntType();
          if (c.getType() && !c.getType()->is(type))
            continue;
          if (c.getVar()) {
            auto *p = place(c.getVar());
            if (!p)
              return STOP;
            *p = thrown.first;
          }
          stack.back()->caught.push_back(thrown);
          o = run(c.getHandler());
          stack.back()->caught.pop_back();
          break;
        }
      }
      if (t->getFinally()) {
        auto saved = target;
        auto savedThrown = thrown;
        auto savedRet = stack.back()->ret;
        if (o == STOP)
          return o;
        auto fo = run(t->getFinally());
        if (fo != NORMAL)
          return fo;
        target = saved;
        thrown = savedThrown;
        stack.back()->ret = savedRet;
      }
      return o;
    }
    if (auto *a = cast<AssignInstr>(x)) {
      Val v;
      STEP(eval(a->getRhs(), v));
      auto *p = place(a->getLhs());
      if (!p)
        return STOP;
      *p = v;
      return NORMAL;
    }
    if (auto *c = cast<CallInstr>(x))
      return call(c, res);
    if (auto *t = cast<TernaryInstr>(x)) {
      Val c;
      STEP(eval(t->getCond(), c));
      return eval(c.i ? t->getTrueValue() : t->getFalseValue(), res);
    }
    if (auto *f = cast<FlowInstr>(x)) {
      STEP(run(f->getFlow()));
      return eval(f->getValue(), res);
    }
    if (auto *e = cast<ExtractInstr>(x)) {
      Val v;
      STEP(eval(e->getVal(), v));
      if (v.k != Val::TUPLE)
        return bad("a member of something that is no tuple");
      auto *m = cast<types::MemberedType>(e->getVal()->getType());
      res = v.f[m->getMemberIndex(e->getField())];
      return NORMAL;
    }
    if (auto *r = cast<ReturnInstr>(x)) {
      Val v;
      if (r->getValue())
        STEP(eval(r->getValue(), v));
      stack.back()->ret = v;
      return RETURN;
    }
    if (auto *t = cast<ThrowInstr>(x)) {
      if (t->getValue()) {
        Val v;
        STEP(eval(t->getValue(), v));
        thrown = {v, t->getValue()->getType()};
      } else {
        if (stack.back()->caught.empty())
          return bad("raise outside of a handler of its function");
        thrown = stack.back()->caught.back();
      }
      return THROW;
    }
    if (auto *b = cast<BreakInstr>(x))
      return jump(b->getLoop(), BREAK);
    if (auto *b = cast<ContinueInstr>(x))
      return jump(b->getLoop(), CONTINUE);
    if (auto *c = cast<IntConst>(x)) {
      res = Val::of(c->getVal());
      return NORMAL;
    }
    if (auto *c = cast<BoolConst>(x)) {
      res = Val::of(c->getVal());
      return NORMAL;
    }
    if (auto *v = cast<VarValue>(x)) {
      if (auto *f = cast<Func>(v->getVar())) {
        res.k = Val::FUNC;
        res.fn = f;
        return NORMAL;
      }
      auto *p = place(v->getVar());
      if (!p)
        return STOP;
      res = *p;
      return NORMAL;
    }
    if (auto *p = cast<PointerValue>(x)) {
      res.k = Val::PTR;
      res.cell = cellOf(p->getVar());
      if (!res.cell)
        return STOP;
      auto *t = p->getVar()->getType();
      for (auto &n : p->getFields()) {
        auto *m = cast<types::MemberedType>(t);
        res.path.push_back(m->getMemberIndex(n));
        t = m->getMemberType(n);
      }
      return NORMAL;
    }
    return bad("an unknown node");
  }

  Out jump(Value *loop, Out how) {
    auto &ls = stack.back()->loops;
    const Flow *l = loop ? cast<Flow>(loop->getActual()) : (ls.empty() ? nullptr : ls.back());
    for (auto *k : ls)
      if (k == l) {
        target = l;
        return how;
      }
    return bad("a jump to a loop that does not enclose it");
  }
#undef STEP

  // what is observable of one execution
  std::string observe(BodiedFunc *f, std::vector<Val> args, const std::vector<Var *> &watch) {
    Val res;
    auto o = callBodied(f, args, res);
    if (o == STOP)
      return trace + "cut";
    if (o == THROW)
      event("throws " + thrown.first.str() +
            (thrown.second && thrown.second->is(f->getModule()->getBoolType()) ? " bool" : ""));
    else
      event("returns " + res.str());
    for (auto *g : watch)
      event("global " + globals[g->getId()]->str());
    return trace;
  }
};
} // namespace mc
