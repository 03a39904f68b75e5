// Passes that drive utilities of the IR on a program under exploration. Function names select what
// is done; what was done is appended to the file named by MC_PASSLOG.
#pragma once
#include "codon/cir/analyze/dataflow/capture.h"
#include "codon/cir/transform/pass.h"
#include "codon/cir/util/inlining.h"
#include "codon/cir/util/irtools.h"
#include "codon/cir/util/outlining.h"
#include "codon/cir/util/format.h"
#include <fcntl.h>
#include <iterator>
#include <sstream>
#include <unistd.h>

namespace mc {
using namespace codon::ir;

inline void passLog(const std::string &line) {
  auto *p = getenv("MC_PASSLOG");
  if (!p)
    return;
  int fd = open(p, O_CREAT | O_WRONLY | O_APPEND, 0644);
  auto s = line + "\n";
  if (write(fd, s.data(), s.size()) < 0)
    perror("passlog");
  close(fd);
}

struct SeriesList : public util::Operator {
  std::vector<SeriesFlow *> all;
  void preHook(Node *n) override {
    if (auto *s = cast<SeriesFlow>(n))
      all.push_back(s);
  }
};

// A function named outl_<region>_<options>_...: that region is outlined; regions are all non-empty
// ranges of all its series, in preorder. Options: bit 0 allows out-flows, bit 1 outlines globals.
// A function named outn_...: the number of its regions is logged.
struct OutlineAt : public transform::Pass {
  std::string getKey() const override { return "mc-outline"; }
  void run(Module *M) override {
    std::vector<BodiedFunc *> funcs;
    for (auto *v : *M)
      if (auto *f = cast<BodiedFunc>(v))
        if (f->getUnmangledName().rfind("out", 0) == 0)
          funcs.push_back(f);
    for (auto *f : funcs) {
      int want, o, seen = 0;
      bool probe = f->getUnmangledName().rfind("outn_", 0) == 0;
      if (!probe && sscanf(f->getUnmangledName().c_str(), "outl_%d_%d", &want, &o) != 2)
        continue;
      SeriesList l;
      f->accept(l);
      bool done = false;
      for (auto *s : l.all) {
        int n = std::distance(s->begin(), s->end());
        for (int b = 0; b < n && !done; b++)
          for (int e = b + 1; e <= n && !done; e++)
            if (seen++ == want && !probe) {
              done = true;
              outline(f, s, b, e, o);
            }
        if (done)
          break;
      }
      if (probe)
        passLog(f->getUnmangledName() + "\t" + std::to_string(seen));
    }
  }
  void outline(BodiedFunc *f, SeriesFlow *s, int b, int e, int o) {
    auto r = util::outlineRegion(f, s, std::next(s->begin(), b), std::next(s->begin(), e), o & 1, o & 2);
    std::string how = "refused";
    if (r) {
      how = "outlined ";
      for (auto k : r.argKinds)
        how += k == util::OutlineResult::ArgKind::MODIFIED ? "m" : "c";
      how += " " + std::to_string(r.numOutFlows);
      if (r.argKinds.size() != (size_t)std::distance(r.func->arg_begin(), r.func->arg_end()) ||
          r.argKinds.size() != (size_t)std::distance(r.call->begin(), r.call->end()))
        how += " badkinds";
      size_t i = 0;
      for (auto *a : *r.call) {
        if (i < r.argKinds.size() &&
            (r.argKinds[i] == util::OutlineResult::ArgKind::MODIFIED) != isA<PointerValue>(a))
          how += " badkind" + std::to_string(i);
        i++;
      }
    }
    passLog(f->getUnmangledName() + "\t" + how);
  }
};

// Calls of functions named inln_* (not aggressive) and inla_* (aggressive) are inlined, once.
struct InlineNamed : public transform::Pass {
  struct Calls : public util::Operator {
    std::vector<std::pair<CallInstr *, BodiedFunc *>> all;
    void handle(CallInstr *v) override {
      auto *f = cast<BodiedFunc>(util::getFunc(v->getCallee()));
      if (!f)
        return;
      auto name = f->getUnmangledName();
      if (name.rfind("inla_", 0) == 0 || name.rfind("inln_", 0) == 0)
        all.emplace_back(v, cast<BodiedFunc>(getParentFunc()));
    }
  };
  std::string getKey() const override { return "mc-inline"; }
  void run(Module *M) override {
    Calls c;
    M->accept(c);
    for (auto [v, parent] : c.all) {
      auto name = util::getFunc(v->getCallee())->getUnmangledName();
      auto res = util::inlineCall(v, name.rfind("inla_", 0) == 0);
      passLog(name + "\t" + (res ? "inlined" : "refused"));
      if (!res)
        continue;
      for (auto *var : res.newVars)
        parent->push_back(var);
      v->replaceAll(res.result);
    }
  }
};

inline void registerPasses(transform::PassManager *pm) {
  pm->registerPass(std::make_unique<OutlineAt>());
  pm->registerPass(std::make_unique<InlineNamed>());
}
} // namespace mc
