// The pass manager over every bounded history of registrations, followed by two runs: the log of
// what ran, in which order and with which analysis results, against a reference model.
#include "codon/cir/analyze/analysis.h"
#include "codon/cir/cir.h"
#include "codon/cir/transform/manager.h"
#include "codon/cir/transform/pass.h"
#include "explore.h"
#include <algorithm>
#include <memory>
#include <set>

using namespace mc;
using namespace codon::ir;
using transform::PassManager;

static std::vector<std::string> *evlog;
static int serial;
static std::set<int> alive;

struct Res : public analyze::Result {
  int id;
  explicit Res(int id) : id(id) { alive.insert(id); }
  ~Res() noexcept override { alive.erase(id); }
};

struct An : public analyze::Analysis {
  std::string raw, *key;
  std::vector<std::string> deps;
  An(std::string raw, std::string *key, std::vector<std::string> deps)
      : raw(std::move(raw)), key(key), deps(std::move(deps)) {}
  std::string getKey() const override { return raw; }
  std::unique_ptr<analyze::Result> run(const Module *) override {
    std::string s = "analysis " + *key;
    for (auto &d : deps) {
      auto *r = getAnalysisResult<Res>(d);
      s += " " + d + "=" + (r ? std::to_string(r->id) : "none");
    }
    evlog->push_back(s + " -> " + std::to_string(++serial));
    return std::make_unique<Res>(serial);
  }
};

struct Ps : public transform::Pass {
  std::string raw, name;
  int times;
  const std::vector<std::string> &all;
  Ps(std::string raw, std::string name, int times, const std::vector<std::string> &all)
      : raw(std::move(raw)), name(std::move(name)), times(times), all(all) {}
  std::string getKey() const override { return raw; }
  bool shouldRepeat(int num) const override { return num < times; }
  void run(Module *) override {
    std::string s = "pass " + name;
    for (auto &d : all) {
      auto *r = getAnalysisResult<Res>(d);
      s += " " + d + "=" + (r ? std::to_string(r->id) : "none");
    }
    evlog->push_back(s);
  }
};
struct Group : public transform::PassGroup {
  std::string raw;
  Group(std::string raw, int repeat, std::vector<std::unique_ptr<Pass>> ps)
      : PassGroup(repeat, std::move(ps)), raw(std::move(raw)) {}
  std::string getKey() const override { return raw; }
};

struct ACfg {
  unsigned deps;
};
struct PCfg {
  unsigned reqs, inv;
  int times;   // how often a pass runs in one go
  int before;  // -1: appended; else inserted before that pass
  bool same;   // has the key of the first pass
  bool group;
  bool disabled;
};

struct Model {
  std::vector<ACfg> as;
  std::vector<PCfg> ps;
  std::vector<std::string> an, pn; // unique keys
  std::vector<int> order;
  std::map<int, int> valid;
  std::vector<std::string> log;
  int serial = 0;

  std::string res(int a) const { return valid.count(a) ? std::to_string(valid.at(a)) : "none"; }
  void ensure(int a) {
    if (valid.count(a))
      return;
    for (unsigned d = 0; d < as.size(); d++)
      if (as[a].deps >> d & 1)
        ensure(d);
    std::string s = "analysis " + an[a];
    for (unsigned d = 0; d < as.size(); d++)
      if (as[a].deps >> d & 1)
        s += " " + an[d] + "=" + res(d);
    valid[a] = ++serial;
    log.push_back(s + " -> " + std::to_string(serial));
  }
  bool depends(int b, int a) const {
    if (a == b)
      return true;
    for (unsigned d = 0; d < as.size(); d++)
      if ((as[b].deps >> d & 1) && depends(d, a))
        return true;
    return false;
  }
  void run() {
    for (int p : order)
      for (int t = 0; t < std::max(1, ps[p].times); t++) {
        for (unsigned a = 0; a < as.size(); a++)
          if (ps[p].reqs >> a & 1)
            ensure(a);
        for (int sub = 0; sub < (ps[p].group ? 2 : 1); sub++) {
          std::string s = "pass " + pn[p] + (ps[p].group ? "/" + std::to_string(sub) : "");
          for (unsigned a = 0; a < as.size(); a++)
            s += " " + an[a] + "=" + res(a);
          log.push_back(s);
        }
        for (unsigned a = 0; a < as.size(); a++)
          if (ps[p].inv >> a & 1)
            for (unsigned b = 0; b < as.size(); b++)
              if (depends(b, a))
                valid.erase(b);
      }
  }
};

static std::string text(const std::vector<ACfg> &as, const std::vector<PCfg> &ps, bool sameA) {
  std::string s = "analyses";
  for (auto &a : as)
    s += " deps" + std::to_string(a.deps);
  if (sameA)
    s += " (equal keys)";
  for (auto &p : ps)
    s += "; pass reqs" + std::to_string(p.reqs) + " inv" + std::to_string(p.inv) + " x" + std::to_string(p.times) +
         (p.before >= 0 ? " before" + std::to_string(p.before) : "") + (p.same ? " same" : "") + (p.group ? " group" : "") +
         (p.disabled ? " disabled" : "");
  return s;
}

static void one(const std::vector<ACfg> &as, const std::vector<PCfg> &ps, bool sameA) {
  count("histories")++;
  auto txt = text(as, ps, sameA);
  current(txt);
  std::vector<std::string> got;
  evlog = &got;
  serial = 0;
  alive.clear();
  Model m;
  m.as = as;
  m.ps = ps;
  std::vector<std::string> disabled;
  for (unsigned i = 0; i < ps.size(); i++)
    if (ps[i].disabled)
      disabled.push_back("p" + std::to_string(i));
  static Module *M = new Module("m");
  std::vector<std::string> ak(as.size());
  std::string bad;
  {
    PassManager pm(PassManager::Init::EMPTY, disabled);
    for (unsigned i = 0; i < as.size(); i++) {
      std::vector<std::string> d;
      for (unsigned j = 0; j < i; j++)
        if (as[i].deps >> j & 1)
          d.push_back(ak[j]);
      ak[i] = pm.registerAnalysis(std::make_unique<An>(sameA ? "a" : "a" + std::to_string(i), &ak[i], d), d);
      if (ak[i].empty() || !pm.hasAnalysis(ak[i]) || std::count(ak.begin(), ak.begin() + i, ak[i]))
        bad = "analysis key " + ak[i];
    }
    m.an = ak;
    std::vector<std::string> pk(ps.size());
    for (unsigned i = 0; i < ps.size(); i++) {
      auto &p = ps[i];
      std::vector<std::string> reqs, inv;
      for (unsigned a = 0; a < as.size(); a++) {
        if (p.reqs >> a & 1)
          reqs.push_back(ak[a]);
        if (p.inv >> a & 1)
          inv.push_back(ak[a]);
      }
      std::string raw = p.same ? "p0" : "p" + std::to_string(i), name = "#" + std::to_string(i);
      m.pn.push_back(name);
      std::unique_ptr<transform::Pass> pass;
      if (p.group) {
        std::vector<std::unique_ptr<transform::Pass>> subs;
        for (int k = 0; k < 2; k++)
          subs.push_back(std::make_unique<Ps>("sub", name + "/" + std::to_string(k), 1, ak));
        pass = std::make_unique<Group>(raw, p.times, std::move(subs));
      } else {
        pass = std::make_unique<Ps>(raw, name, p.times, ak);
      }
      pk[i] = pm.registerPass(std::move(pass), p.before >= 0 ? pk[p.before] : "", reqs, inv);
      if (p.disabled != pk[i].empty() || (!p.disabled && !pm.hasPass(pk[i])))
        bad = "pass key " + pk[i];
      if (!p.disabled) {
        if (std::count(pk.begin(), pk.begin() + i, pk[i]))
          bad = "pass key " + pk[i] + " twice";
        if (p.before >= 0)
          m.order.insert(std::find(m.order.begin(), m.order.end(), p.before), i);
        else
          m.order.push_back(i);
      }
    }
    for (int r = 0; r < 2 && bad.empty(); r++) {
      pm.run(M);
      m.run();
      count("events") += got.size();
      count("runs_compared")++;
      if (got != m.log) {
        size_t k = 0;
        while (k < got.size() && k < m.log.size() && got[k] == m.log[k])
          k++;
        bad = "run " + std::to_string(r) + " step " + std::to_string(k) + ": got " + (k < got.size() ? got[k] : "nothing") +
              ", expected " + (k < m.log.size() ? m.log[k] : "nothing");
      }
      std::set<int> want;
      for (auto &[a, v] : m.valid)
        want.insert(v);
      if (bad.empty() && alive != want)
        bad = "the results kept are not the valid ones";
      for (unsigned a = 0; a < as.size() && bad.empty(); a++)
        if ((pm.getAnalysisResult(ak[a]) != nullptr) != (m.valid.count(a) != 0))
          bad = "validity of " + ak[a];
    }
  }
  if (bad.empty() && !alive.empty())
    bad = "results outlive the manager";
  if (!bad.empty())
    fail(txt, bad);
}

int main(int argc, char **argv) {
  bool full = atoi(argv[1]);
  int n = atoi(argv[2]);
  return shards(n, "pass manager", [&](int shard, int total) {
    size_t k = 0;
    auto mine = [&] { return k++ % total == (size_t)shard; };
    std::vector<std::vector<ACfg>> dags;
    for (unsigned b = 0; b < 2; b++)
      for (unsigned c = 0; c < 4; c++)
        dags.push_back({{0}, {b}, {c}});
    std::vector<std::vector<ACfg>> dags4;
    for (auto &d : dags)
      for (unsigned e = 0; e < 8; e++) {
        dags4.push_back(d);
        dags4.back().push_back({e});
      }
    // two passes, everything
    for (auto &as : dags)
      for (unsigned r1 = 0; r1 < 8; r1++)
        for (unsigned i1 = 0; i1 < 8; i1++)
          for (unsigned r2 = 0; r2 < 8; r2++)
            for (unsigned i2 = 0; i2 < 8; i2++)
              for (int t1 : {0, 2})
                for (int t2 : {0, 3})
                  for (int b = -1; b < 1; b++) {
                    if (mine())
                      one(as, {{r1, i1, t1, -1, false, false, false}, {r2, i2, t2, b, false, false, false}}, false);
                  }
    // three passes
    std::vector<unsigned> rs = {0, 2, 4, 7}, is = {0, 1, 2, 4};
    for (auto &as : dags)
      for (auto r1 : rs)
        for (auto i1 : is)
          for (auto r2 : rs)
            for (auto i2 : is)
              for (auto r3 : rs)
                for (auto i3 : is)
                  for (int b2 = -1; b2 < 1; b2++)
                    for (int b3 = -1; b3 < 2; b3++)
                      for (unsigned v = 0; v < (full ? 16u : 4u); v++) {
                        // variants: repetition, equal keys, groups, disabled passes
                        static const int T[4][3] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
                        int t = full ? v % 4 : (k / 7) % 4;
                        unsigned kind = full ? v / 4 : v;
                        bool same = kind == 1, group = kind == 2, dis = kind == 3;
                        int d = (k / 3) % 3;
                        if (!mine())
                          continue;
                        std::vector<PCfg> ps = {{r1, i1, T[t][0], -1, false, group, false},
                                                {r2, i2, T[t][1], b2, same, false, false},
                                                {r3, i3, T[t][2], b3, same, group, false}};
                        if (dis) {
                          ps[d].disabled = true;
                          if ((b2 == d) || (b3 == d))
                            continue;
                        }
                        one(as, ps, same);
                        if (k % 200003 < (size_t)total)
                          sample(text(as, ps, same));
                      }
    // four analyses, one pass that keeps and one that invalidates
    for (auto &as : dags4)
      for (unsigned r1 = 0; r1 < 16; r1++)
        for (unsigned i1 = 0; i1 < 16; i1++)
          for (unsigned r2 = 0; r2 < 16; r2++)
            for (unsigned i2 : {0u, 1u, 2u, 4u, 8u, 3u, 12u})
              if (mine())
                one(as, {{r1, i1, 0, -1, false, false, false}, {r2, i2, 2, -1, false, false, false}}, false);
  });
}
