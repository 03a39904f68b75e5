// Programs over constants, copies, globals, tuples and pointers for the optimisation passes.
#pragma once
using namespace codon::ir::transform;
using namespace codon::ir::analyze;

struct Data {
  World &W;
  Module *M;
  Explorer &ex;
  std::string text;
  BodiedFunc *f = nullptr;
  Var *x = nullptr, *y = nullptr, *g = nullptr, *t = nullptr;
  BodiedFunc *callee = nullptr;
  int budget = 0;
  bool tuples = false;
  std::vector<Flow *> loops;
  int inValue = 0;

  Data(World &W, Explorer &ex) : W(W), M(W.M), ex(ex) {}

  Value *leaf(int n) {
    switch (n) {
    case 0:
      text += "x";
      return W.use(x);
    case 1:
      text += "y";
      return W.use(y);
    case 2:
      text += "0";
      return M->getInt(0);
    case 3:
      text += "1";
      return M->getInt(1);
    case 4:
      text += "2";
      return M->getInt(2);
    case 5:
      text += "src";
      return W.call(W.src);
    case 6:
      text += "-1";
      return M->getInt(-1);
    default:
      text += "g";
      return W.use(g);
    }
  }
  // every tree with that many operations
  Value *tree(int ops, const std::vector<const char *> &bin, const std::vector<const char *> &un, int leaves) {
    if (ops == 0)
      return leaf(ex.choose(leaves));
    int k = ex.choose(bin.size() + un.size());
    if (k >= (int)bin.size()) {
      text += std::string(un[k - bin.size()]) + "(";
      auto *a = tree(ops - 1, bin, un, leaves);
      text += ")";
      return W.op(un[k - bin.size()], a);
    }
    int left = ex.choose(ops);
    text += "(";
    auto *a = tree(left, bin, un, leaves);
    text += std::string(" ") + bin[k] + " ";
    auto *b = tree(ops - 1 - left, bin, un, leaves);
    text += ")";
    return W.op(bin[k], a, b);
  }

  SeriesFlow *block(int most = 2) {
    auto *s = M->Nr<SeriesFlow>();
    text += "{";
    fill(s, most);
    text += "}";
    return s;
  }
  void fill(SeriesFlow *s, int most) {
    for (int i = 0; i < most && budget > 0; i++) {
      if (ex.choose(2) == 0)
        return;
      budget--;
      statement(s);
    }
  }
  Value *value() {
    switch (ex.choose(6)) {
    case 0:
      text += "1";
      return M->getInt(1);
    case 1:
      text += "0";
      return M->getInt(0);
    case 2:
      text += "y";
      return W.use(y);
    case 3:
      text += "x+1";
      return W.op("__add__", W.use(x), M->getInt(1));
    case 4:
      text += "g";
      return W.use(g);
    default:
      text += "some";
      return W.call(W.some);
    }
  }
  Value *condition() {
    switch (ex.choose(4)) {
    case 0:
      text += "cond";
      return W.call(W.cond);
    case 1:
      text += "x==1";
      return W.op("__eq__", W.use(x), M->getInt(1));
    case 2:
      text += "y<1";
      return W.op("__lt__", W.use(y), M->getInt(1));
    default:
      text += "g!=0";
      return W.op("__ne__", W.use(g), M->getInt(0));
    }
  }
  template <typename F> void body(SeriesFlow *b, Flow *l, F &&) {
    loops.push_back(l);
    text += "{";
    fill(b, 2);
    text += "}";
    loops.pop_back();
  }
  enum Kind { SETX, SETY, SETG, SINKX, CALL, IF, IFELSE, WHILE, RANGE, TRYX, TRYFIN, TERN, FLOWVAL, BOOM, PURE,
              LEAK, SETT, GETT, LEAKT, COPYT, EXPR, RETURN, THROW, BREAK, CONTINUE };
  void statement(SeriesFlow *s) {
    std::vector<Kind> m = {SETX, SETY, SETG, SINKX};
    if (tuples)
      m = {SETX, SETT, GETT, LEAKT, COPYT, IF, WHILE, LEAK, TRYX};
    else {
      for (auto k : {CALL, IF, IFELSE, WHILE, RANGE, TRYX, TRYFIN, TERN, FLOWVAL, BOOM, PURE, LEAK, EXPR})
        m.push_back(k);
      if (!inValue) {
        m.push_back(RETURN);
        m.push_back(THROW);
        if (!loops.empty()) {
          m.push_back(BREAK);
          m.push_back(CONTINUE);
        }
      }
    }
    auto set = [&](Var *v, Value *val) { s->push_back(M->Nr<AssignInstr>(v, val)); };
    auto k = m[ex.choose(m.size())];
    switch (k) {
    case SETX:
      text += "x=";
      set(x, value());
      break;
    case SETY:
      text += "y=x";
      set(y, W.use(x));
      break;
    case SETG:
      text += "g=";
      set(g, ex.choose(2) ? (text += "1", (Value *)M->getInt(1)) : (text += "x", W.use(x)));
      break;
    case SINKX:
      text += "sink(x)";
      s->push_back(W.call(W.sink, {W.use(x)}));
      break;
    case CALL:
      text += "y=h(x)";
      set(y, W.call(callee, {W.use(x)}));
      break;
    case PURE:
      text += "y=pure(x)";
      set(y, W.call(W.pure, {W.use(x)}));
      break;
    case EXPR: // a value that is not used
      text += "x*g";
      s->push_back(W.op("__mul__", W.use(x), W.use(g)));
      break;
    case IF:
      text += "if ";
      {
        auto *c = condition();
        s->push_back(M->Nr<IfFlow>(c, block()));
      }
      break;
    case IFELSE: {
      text += "if ";
      auto *c = condition();
      auto *a = block();
      text += "else";
      s->push_back(M->Nr<IfFlow>(c, a, block()));
      break;
    }
    case WHILE: {
      text += "while ";
      auto *c = condition();
      auto *b = M->Nr<SeriesFlow>();
      auto *l = M->Nr<WhileFlow>(c, b);
      body(b, l, 0);
      s->push_back(l);
      break;
    }
    case RANGE: {
      static const int R[4][3] = {{0, 2, 1}, {1, 1, 1}, {1, 0, -1}, {0, 1, -1}};
      int r = ex.choose(4);
      int which = ex.choose(3);
      auto *v = which == 0 ? x : which == 1 ? y : g;
      text += std::string("range ") + (which == 0 ? "x" : which == 1 ? "y" : "g") + std::to_string(r);
      auto *b = M->Nr<SeriesFlow>();
      auto *l = M->Nr<ImperativeForFlow>(M->getInt(R[r][0]), R[r][2], M->getInt(R[r][1]), b, v);
      body(b, l, 0);
      s->push_back(l);
      break;
    }
    case TRYX: {
      text += "try";
      auto *b = block();
      int which = ex.choose(2);
      text += which ? "except g" : "except x";
      auto *t = M->Nr<TryCatchFlow>(b);
      t->push_back(TryCatchFlow::Catch(block(1), W.I, which ? g : x));
      s->push_back(t);
      break;
    }
    case TRYFIN: {
      text += "try";
      auto *b = block();
      text += "finally";
      s->push_back(M->Nr<TryCatchFlow>(b, block(1)));
      break;
    }
    case TERN: {
      text += "x=(";
      auto *c = condition();
      text += "?1:y)";
      set(x, M->Nr<TernaryInstr>(c, M->getInt(1), W.use(y)));
      break;
    }
    case FLOWVAL: {
      text += "y=(";
      inValue++;
      auto *b = block(1);
      inValue--;
      text += ",x)";
      set(y, M->Nr<FlowInstr>(b, W.use(x)));
      break;
    }
    case BOOM:
      text += "boom";
      s->push_back(W.call(W.boom));
      break;
    case LEAK:
      text += "leak(&x)";
      s->push_back(W.call(W.leak, {M->Nr<PointerValue>(x)}));
      break;
    case SETT: {
      text += "t=(x,2)";
      int which = ex.choose(2);
      if (which)
        text += "c";
      set(t, W.call(W.mkTuple, {which ? (Value *)M->getInt(1) : W.use(x), M->getInt(2)}));
      break;
    }
    case GETT: {
      int which = ex.choose(2);
      text += which ? "x=t[1]" : "x=t[0]";
      set(x, M->Nr<ExtractInstr>(W.use(t), which ? "item2" : "item1"));
      break;
    }
    case LEAKT: {
      int which = ex.choose(2);
      text += which ? "leak(&t[1])" : "leak(&t[0])";
      s->push_back(W.call(W.leak, {M->Nr<PointerValue>(t, std::vector<std::string>{which ? "item2" : "item1"})}));
      break;
    }
    case COPYT:
      text += "t=(t[1],t[0])";
      set(t, W.call(W.mkTuple, {M->Nr<ExtractInstr>(W.use(t), "item2"), M->Nr<ExtractInstr>(W.use(t), "item1")}));
      break;
    case RETURN:
      text += "return";
      if (f == M->getMainFunc())
        s->push_back(M->Nr<ReturnInstr>());
      else
        s->push_back(M->Nr<ReturnInstr>(W.use(x)));
      break;
    case THROW:
      text += "throw x";
      s->push_back(M->Nr<ThrowInstr>(W.use(x)));
      break;
    case BREAK:
      text += "break";
      s->push_back(M->Nr<BreakInstr>());
      break;
    case CONTINUE:
      text += "continue";
      s->push_back(M->Nr<ContinueInstr>());
      break;
    }
    text += ";";
  }
};

struct PassCase {
  std::string text;
  BodiedFunc *main;
  std::vector<Var *> globals;
};

// h(a), called by the program, is one of these
static BodiedFunc *makeCallee(World &W, Data &d, int which) {
  auto *M = W.M;
  auto *h = W.function("h", W.I, {W.I}, {"a"});
  auto *s = cast<SeriesFlow>(h->getBody());
  Var *a = *h->arg_begin();
  switch (which) {
  case 0: // constant result
    s->push_back(M->Nr<ReturnInstr>(M->getInt(1)));
    break;
  case 1: // writes the global
    s->push_back(M->Nr<AssignInstr>(d.g, W.op("__add__", W.use(a), M->getInt(1))));
    s->push_back(M->Nr<ReturnInstr>(W.use(a)));
    break;
  case 2: // reads the global
    s->push_back(M->Nr<ReturnInstr>(W.op("__add__", W.use(d.g), M->getInt(0))));
    break;
  case 3: // may throw
    s->push_back(M->Nr<IfFlow>(W.op("__eq__", W.use(a), M->getInt(1)), util::series(M->Nr<ThrowInstr>(W.use(a)))));
    s->push_back(M->Nr<ReturnInstr>(W.use(a)));
    break;
  }
  return h;
}

static PassCase buildPass(World &W, Explorer &ex, int budget, const std::string &profile) {
  auto *M = W.M;
  PassCase c;
  Data d(W, ex);
  auto *main = cast<BodiedFunc>(M->getMainFunc());
  main->symbols.clear();
  c.main = main;
  d.g = W.global(W.I, "g");
  c.globals = {d.g};
  auto *ms = M->Nr<SeriesFlow>();
  main->setBody(ms);
  d.f = main;
  if (profile == "expr" || profile == "expr3" || profile == "compare" || profile == "bool") {
    // x is an argument, y a constant or an argument
    d.f = W.function("f", W.I, {W.I, W.I}, {"x", "y"});
    auto it = d.f->arg_begin();
    d.x = *it++;
    d.y = *it;
    auto *s = cast<SeriesFlow>(d.f->getBody());
    if (ex.choose(2)) {
      d.text += "y=3;";
      d.y = W.local(d.f, W.I, "z");
      s->push_back(M->Nr<AssignInstr>(d.y, M->getInt(3)));
    }
    std::vector<const char *> arith = {"__add__", "__sub__", "__mul__"};
    if (profile == "expr") {
      std::vector<const char *> bin = arith;
      for (auto *n : {"__and__", "__or__", "__xor__"})
        bin.push_back(n);
      s->push_back(W.call(W.sink, {d.tree(budget, bin, {"__neg__", "__invert__", "__pos__"}, 7)}));
    } else if (profile == "expr3") {
      s->push_back(W.call(W.sink, {d.tree(budget, arith, {}, 5)}));
    } else {
      static const char *cmp[] = {"__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"};
      auto comparison = [&]() -> Value * {
        auto *op = cmp[ex.choose(6)];
        bool nested = profile == "compare", both = budget > 1;
        d.text += "(";
        auto *a = nested ? d.tree(ex.choose(2), arith, {"__neg__"}, both ? 6 : 5) : d.leaf(ex.choose(3));
        d.text += std::string(" ") + op + " ";
        auto *b = nested ? d.tree(both ? ex.choose(2) : 0, arith, {"__neg__"}, both ? 6 : 5) : d.leaf(ex.choose(4));
        d.text += ")";
        return W.op(op, a, b);
      };
      Value *v;
      if (profile == "compare")
        v = comparison();
      else {
        auto *a = comparison();
        int k = ex.choose(4);
        if (k < 2) {
          d.text += k ? " xor " : " and ";
          v = W.op(k ? "xor" : "and", a, comparison());
        } else if (k == 2) {
          d.text += " not";
          v = W.op("not", a);
        } else {
          d.text += " not not";
          v = W.op("not", W.op("not", a));
        }
      }
      s->push_back(W.call(W.sink, {M->Nr<TernaryInstr>(v, M->getInt(111), M->getInt(222))}));
    }
    s->push_back(M->Nr<ReturnInstr>(W.use(d.x)));
    ms->push_back(M->Nr<AssignInstr>(d.g, M->getInt(3)));
    // the operands take different orders
    for (auto [a, b] : {std::pair<int, int>{0, 0}, {1, 2}, {7, -5}, {-5, 3}, {1, -1}})
      ms->push_back(W.call(W.sink, {W.call(d.f, {M->getInt(a), M->getInt(b)})}));
    c.text = d.text;
    return c;
  }
  d.tuples = profile == "tuple";
  bool inMain = ex.choose(2) == 0;
  int which = d.tuples ? 0 : ex.choose(4);
  d.callee = makeCallee(W, d, which);
  if (!inMain) {
    d.f = W.function("f", W.I, {W.I}, {"x"});
    d.x = *d.f->arg_begin();
  } else
    d.x = W.local(d.f, W.I, "x");
  d.y = W.local(d.f, W.I, "y");
  if (d.tuples)
    d.t = W.local(d.f, W.T, "t");
  auto *s = cast<SeriesFlow>(d.f->getBody());
  if (inMain) {
    s->push_back(M->Nr<AssignInstr>(d.g, M->getInt(4)));
    s->push_back(M->Nr<AssignInstr>(d.x, M->getInt(0)));
  }
  s->push_back(M->Nr<AssignInstr>(d.y, M->getInt(2)));
  if (d.tuples)
    s->push_back(M->Nr<AssignInstr>(d.t, W.call(W.mkTuple, {M->getInt(8), W.use(d.x)})));
  d.budget = budget;
  d.fill(s, 3);
  for (auto *v : {d.x, d.y, d.g})
    s->push_back(W.call(W.sink, {W.use(v)}));
  if (d.tuples)
    for (auto *n : {"item1", "item2"})
      s->push_back(W.call(W.sink, {M->Nr<ExtractInstr>(W.use(d.t), n)}));
  if (!inMain) {
    s->push_back(M->Nr<ReturnInstr>(W.use(d.x)));
    ms->push_back(M->Nr<AssignInstr>(d.g, M->getInt(4)));
    ms->push_back(W.call(W.sink, {W.call(d.f, {M->getInt(1)})}));
    ms->push_back(W.call(W.sink, {W.call(d.f, {M->getInt(0)})}));
  }
  c.text = std::string(inMain ? "main" : "f") + " h" + std::to_string(which) + ": " + d.text;
  return c;
}

// compares what the program does now with what it did at first
struct StepCheck : public Pass {
  std::string name, *found;
  std::function<std::string()> differs;
  StepCheck(std::string name, std::string *found, std::function<std::string()> differs)
      : name(std::move(name)), found(found), differs(std::move(differs)) {}
  std::string getKey() const override { return "check-" + name; }
  void run(Module *) override {
    if (getenv("XF_DEBUG")) fprintf(stderr, "%s\n", name.c_str());
    if (found->empty()) {
      auto d = differs();
      if (!d.empty())
        *found = name + "\t" + d;
    }
  }
};

static void passesAll(World &W, int budget, const std::string &profile, int shard, int total) {
  auto *M = W.M;
  const int decisions = 4;
  std::string found;
  std::vector<Trace> before;
  PassCase c;
  auto differs = [&] { return compare(before, c.main, {}, {}, decisions); };

  // one pass after the other, compared after each
  auto steps = [&](bool pyNumerics, bool demote) {
    auto pm = std::make_unique<PassManager>(PassManager::Init::EMPTY);
    auto cfg = pm->registerAnalysis(std::make_unique<dataflow::CFAnalysis>());
    auto rd = pm->registerAnalysis(std::make_unique<dataflow::RDAnalysis>(cfg), {cfg});
    auto dom = pm->registerAnalysis(std::make_unique<dataflow::DominatorAnalysis>(cfg), {cfg});
    auto cap = pm->registerAnalysis(std::make_unique<dataflow::CaptureAnalysis>(rd, dom), {rd, dom});
    auto glob = pm->registerAnalysis(std::make_unique<analyze::module::GlobalVarsAnalyses>());
    auto se = pm->registerAnalysis(std::make_unique<analyze::module::SideEffectAnalysis>(cap, !demote), {cap});
    std::vector<std::string> all = {se, rd, cfg, glob, cap, dom};
    auto add = [&](const std::string &name, std::unique_ptr<Pass> p, std::vector<std::string> needs) {
      pm->registerPass(std::move(p), "", needs, all);
      pm->registerPass(std::make_unique<StepCheck>(name, &found, differs));
    };
    for (int i = 0; i < 2; i++) {
      auto r = " (round " + std::to_string(i + 1) + ")";
      if (demote)
        add("global demotion" + r, std::make_unique<cleanup::GlobalDemotionPass>(), {});
      add("constant propagation" + r, std::make_unique<folding::ConstPropPass>(rd, glob), {rd, glob});
      add("canonicalization" + r, std::make_unique<cleanup::CanonicalizationPass>(se), {se});
      add("constant folding" + r, std::make_unique<folding::FoldingPass>(pyNumerics), {});
      add("dead code" + r, std::make_unique<cleanup::DeadCodeCleanupPass>(se), {se});
    }
    add("replacements", std::make_unique<cleanup::ReplaceCleanupPass>(), {});
    return pm;
  };
  std::vector<std::pair<std::string, std::unique_ptr<PassManager>>> managers;
  managers.emplace_back("steps", steps(false, false));
  managers.emplace_back("steps with demotion", steps(true, true));
  managers.emplace_back("release", std::make_unique<PassManager>(PassManager::Init::RELEASE));

  Explorer ex;
  size_t k = 0;
  ex.explore([&] {
    c = buildPass(W, ex, budget, profile);
    if (k++ % total == (size_t)shard) {
      current(c.text);
      count("programs")++;
      if (count("programs") % 5003 == 1)
        sample(c.text);
      std::string problem;
      before = executions(c.main, {}, {}, decisions, problem);
      if (!problem.empty())
        fail("harness:" + c.text, problem);
      auto taken = ex.taken;
      for (auto &[name, pm] : managers) {
        W.reset();
        Explorer again;
        again.prefix = taken;
        c = buildPass(W, again, budget, profile);
        current(name + ": " + c.text);
        found.clear();
        pm->run(M);
        count("transformed")++;
        if (found.empty()) {
          auto d = differs();
          if (!d.empty())
            found = "all passes\t" + d;
        }
        if (!found.empty()) {
          auto tab = found.find('\t');
          fail(name + ", " + found.substr(0, tab) + ":" + c.text, found.substr(tab + 1) + show(c.main));
        }
      }
    }
    W.reset();
  });
}
