// Control-flow graph, reaching definitions and dominators of every bounded function, against every
// execution of that function and against brute force on the graph.
#include "cirgen.h"
#include "codon/cir/analyze/dataflow/cfg.h"
#include "codon/cir/analyze/dataflow/dominator.h"
#include "codon/cir/analyze/dataflow/reaching.h"
#include <algorithm>
#include <memory>
#include <sstream>
#include <unordered_set>

using namespace mc;
using namespace codon::ir::analyze::dataflow;

static Def defOf(const ReachingDef &d) {
  auto *s = cast<SyntheticAssignInstr>(d.assignment);
  if (!s)
    return {d.assignment, 0};
  int how = 0;
  auto *src = s->getSource();
  switch (s->getKind()) {
  case SyntheticAssignInstr::KNOWN:
    how = isA<Func>(src) ? 5 : 1;
    break;
  case SyntheticAssignInstr::ADD:
    how = 2;
    break;
  case SyntheticAssignInstr::NEXT_VALUE:
    how = 3;
    break;
  case SyntheticAssignInstr::UNKNOWN:
    how = 4;
    break;
  }
  return {src, how};
}

static std::string show(const Def &d) {
  static const char *hows[] = {"assignment", "loop start", "loop step", "loop next", "catch", "argument", "its address"};
  if (!d.by)
    return "none";
  std::string r = hows[d.how];
  if (d.how == 0 && isA<AssignInstr>(d.by))
    r += " " + std::to_string(cast<IntConst>(cast<AssignInstr>(cast<Value>(d.by))->getRhs())
                                  ? cast<IntConst>(cast<AssignInstr>(cast<Value>(d.by))->getRhs())->getVal()
                                  : -1);
  return r;
}

struct Checker {
  BodiedFunc *f;
  const std::string &text;
  std::vector<Var *> vars;
  std::unique_ptr<CFGraph> cfg;
  RDInspector rd;
  DominatorInspector dom;
  std::map<const Value *, int> index; // graph values
  std::vector<const Value *> values;
  std::vector<std::vector<int>> doms;               // claims
  std::vector<std::vector<std::set<Def>>> reach;    // [var][value]
  std::vector<std::set<int>> nextOf;                // graph successors at value level
  std::set<int> firsts;
  bool failed = false;

  Checker(BodiedFunc *f, const std::string &text, std::vector<Var *> vars)
      : f(f), text(text), vars(vars), cfg(buildCFGraph(f)), rd(cfg.get()), dom(cfg.get()) {
    rd.analyze();
    dom.analyze();
  }

  void bad(const std::string &what, const std::string &detail) {
    if (!failed)
      fail(what + ":" + text, detail);
    failed = true;
  }

  const Value *actual(const Value *v) { // ternaries are represented by their phi
    auto it = cfg->valueMapping.find(v->getId());
    return it != cfg->valueMapping.end() ? it->second : v;
  }

  void graphFacts() {
    // symmetry, and positions of the values
    std::map<const CFBlock *, int> seen;
    for (auto *b : *cfg)
      for (auto *v : *b) {
        if (index.count(v))
          bad("graph", "a value appears twice");
        index[v] = values.size();
        values.push_back(v);
        if (cfg->getBlock(v) != b)
          bad("graph", "a value's block is not the block that lists it");
      }
    for (auto *b : *cfg) {
      for (auto it = b->successors_begin(); it != b->successors_end(); ++it)
        if (!(*it)->predecessors.count(b))
          bad("graph", "successor without predecessor");
      for (auto it = b->predecessors_begin(); it != b->predecessors_end(); ++it)
        if (!(*it)->successors.count(b))
          bad("graph", "predecessor without successor");
    }
    // value-level successors: skip synthetic values and empty blocks
    auto real = [&](const Value *v) { return !isA<SyntheticAssignInstr>(v); };
    auto from = [&](CFBlock *blk, std::list<const Value *>::iterator it) {
      std::set<int> res;
      std::set<CFBlock *> visited;
      std::function<void(CFBlock *, std::list<const Value *>::iterator)> go =
          [&](CFBlock *b, std::list<const Value *>::iterator i) {
            for (; i != b->end(); ++i)
              if (real(*i)) {
                res.insert(index[*i]);
                return;
              }
            for (auto s = b->successors_begin(); s != b->successors_end(); ++s)
              if (visited.insert(*s).second)
                go(*s, (*s)->begin());
          };
      go(blk, it);
      return res;
    };
    nextOf.resize(values.size());
    for (auto *b : *cfg)
      for (auto it = b->begin(); it != b->end(); ++it)
        nextOf[index[*it]] = from(b, std::next(it));
    firsts = from(cfg->getEntryBlock(), cfg->getEntryBlock()->begin());
  }

  // exact results on the graph
  void bruteForce() {
    std::set<CFBlock *> reachable;
    std::function<void(CFBlock *, CFBlock *, std::set<CFBlock *> &)> walk =
        [&](CFBlock *b, CFBlock *without, std::set<CFBlock *> &out) {
          if (b == without || !out.insert(b).second)
            return;
          for (auto s = b->successors_begin(); s != b->successors_end(); ++s)
            walk(*s, without, out);
        };
    walk(cfg->getEntryBlock(), nullptr, reachable);
    bool all = reachable.size() == cfg->size();
    std::map<CFBlock *, std::set<CFBlock *>> avoid;
    for (auto *b : *cfg)
      walk(cfg->getEntryBlock(), b, avoid[b]);
    doms.resize(values.size());
    for (auto *bx : *cfg)
      for (auto *bd : *cfg) {
        bool truth = bx == bd || !avoid[bd].count(bx);
        for (auto *x : *bx)
          for (auto *d : *bd) {
            bool claim = dom.isDominated(x, d);
            count("dominance_queries")++;
            if (claim)
              doms[index[x]].push_back(index[d]);
            bool expected = truth;
            if (bx == bd)
              expected = std::distance(bx->begin(), std::find(bx->begin(), bx->end(), d)) <=
                         std::distance(bx->begin(), std::find(bx->begin(), bx->end(), x));
            if (claim && !expected && reachable.count(bx))
              bad("dominators", "a value is said to dominate another that can be reached around it");
            if (!claim && expected && all)
              bad("dominators", "a dominating value is not reported");
          }
      }
    // reaching definitions by backward search
    reach.resize(vars.size());
    for (size_t k = 0; k < vars.size(); k++) {
      auto *var = vars[k];
      auto defines = [&](const Value *v) -> bool {
        if (auto *a = cast<AssignInstr>(v))
          return a->getLhs()->getId() == var->getId();
        if (auto *s = cast<SyntheticAssignInstr>(v))
          return s->getLhs()->getId() == var->getId();
        return false;
      };
      reach[k].resize(values.size());
      for (auto *b : *cfg)
        for (auto it = b->begin(); it != b->end(); ++it) {
          std::set<Def> want, got;
          std::set<CFBlock *> visited;
          std::function<void(CFBlock *, std::list<const Value *>::iterator)> back =
              [&](CFBlock *blk, std::list<const Value *>::iterator i) {
                while (i != blk->begin()) {
                  --i;
                  if (defines(*i)) {
                    want.insert(defOf(ReachingDef(cast<Instr>(*i))));
                    return;
                  }
                }
                for (auto p = blk->predecessors_begin(); p != blk->predecessors_end(); ++p)
                  if (visited.insert(*p).second)
                    back(*p, (*p)->end());
              };
          back(b, std::next(it));
          for (auto &d : rd.getReachingDefinitions(var, *it)) {
            got.insert(defOf(d));
            auto *a = cast<AssignInstr>(d.assignment);
            if (a && (!d.known() || d.assignee->getId() != a->getRhs()->getId()))
              bad("reaching", "the assigned value of a definition is wrong");
          }
          reach[k][index[*it]] = got;
          count("reaching_queries")++;
          if (!rd.isInvalid(var) && want != got) {
            std::string w, g;
            for (auto &d : want)
              w += show(d) + ", ";
            for (auto &d : got)
              g += show(d) + ", ";
            bad("reaching", "on the graph: expected {" + w + "} got {" + g + "}");
          }
        }
    }
  }

  void executions(int throws, int iterations) {
    Explorer ex;
    size_t runs = ex.explore([&] {
      std::vector<char> executed(values.size(), 0);
      int last = -1, before = -1;
      Exec e(ex, throws, iterations);
      std::string trace;
      e.onValue = [&](const Value *x) {
        if (failed)
          return;
        auto it = index.find(actual(x));
        if (it == index.end()) {
          bad("graph", "an executed value is not in the graph");
          return;
        }
        int i = it->second;
        executed[i] = 1;
        // a jump is an edge: it may leave from the place before the jump instruction
        bool edge = (last < 0 ? firsts : nextOf[last]).count(i);
        if (!edge && last >= 0 && (isA<BreakInstr>(values[last]) || isA<ContinueInstr>(values[last])))
          edge = (before < 0 ? firsts : nextOf[before]).count(i);
        if (!edge) {
          std::stringstream ss;
          ss << "an execution leaves the graph at " << *x;
          if (last >= 0)
            ss << " after " << *values[last];
          ss << "\n" << *cfg;
          bad("graph", ss.str());
        }
        if (last >= 0 && !isA<BreakInstr>(values[last]) && !isA<ContinueInstr>(values[last]))
          before = last;
        last = i;
        for (int d : doms[i])
          if (!executed[d] && !isA<SyntheticAssignInstr>(values[d]))
            bad("dominators", "a value is said to dominate another that ran without it");
        for (size_t k = 0; k < vars.size(); k++) {
          auto d = e.defs.find(vars[k]);
          if (d == e.defs.end() || rd.isInvalid(vars[k]))
            continue;
          if (!reach[k][i].count(d->second)) {
            std::string g;
            for (auto &y : reach[k][i])
              g += show(y) + ", ";
            bad("reaching", "in an execution the value comes from: " + show(d->second) + "; reported: " + g);
          }
        }
      };
      e.function(f);
    });
    count("executions") += runs;
  }
};

int main(int argc, char **argv) {
  int budget = atoi(argv[1]), throws = atoi(argv[2]), iterations = atoi(argv[3]), n = atoi(argv[4]);
  std::string profile = argc > 5 ? argv[5] : ""; // "pointers", "fields"
  return shards(n, "dataflow", [&](int shard, int total) {
    Explorer ex;
    size_t k = 0;
    // the first choices are fixed per shard by skipping programs of other shards
    auto M = std::make_unique<Module>("m");
    auto env = std::make_unique<Env>(M.get(), profile == "fields");
    size_t built = 0;
    ex.explore([&] {
      if (++built % 500 == 0) {
        env.reset();
        M = std::make_unique<Module>("m");
        env = std::make_unique<Env>(M.get(), profile == "fields");
      }
      GenOptions opt;
      opt.pointers = !profile.empty();
      if (opt.pointers)
        opt.generators = opt.ternary = false;
      Gen g(*env, ex, opt);
      auto *f = g.function(budget);
      if (k++ % total != (size_t)shard)
        return;
      current(g.text);
      count("programs")++;
      Checker c(f, g.text, {g.v, g.w});
      c.graphFacts();
      c.bruteForce();
      if (!c.failed)
        c.executions(throws, iterations);
      if (count("programs") % 4001 == 1)
        sample(g.text);
    });
  });
}
