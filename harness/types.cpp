// The type checker's types: every history of unifications over a family of terms, each step
// tried, done, undone and redone, against a textbook unifier with levels; and every ground
// type's realized name.
#include "codon/parser/ast.h"
#include "codon/parser/ast/types/class.h"
#include "codon/parser/ast/types/function.h"
#include "codon/parser/ast/types/link.h"
#include "codon/parser/ast/types/static.h"
#include "codon/parser/ast/types/traits.h"
#include "codon/parser/ast/types/union.h"
#include "codon/parser/cache.h"
#include "codon/parser/visitors/typecheck/ctx.h"
#include "explore.h"
#include <memory>
#include <set>
#include <vector>

using namespace mc;
using namespace codon::ast;
using namespace codon::ast::types;
using std::string, std::vector;

// ------------------------------------------------------------------ the reference

struct Term;
using T = std::shared_ptr<const Term>;
struct Term {
  int var = -1; // index of a variable, or a node:
  string head;
  vector<T> args;
};
static T V(int i) {
  auto t = std::make_shared<Term>();
  t->var = i;
  return t;
}
static T N(string h, vector<T> a = {}) {
  auto t = std::make_shared<Term>();
  t->head = std::move(h);
  t->args = std::move(a);
  return t;
}
// heads: "A" classes, "#3" an int literal, "'x" a str literal, "fn f" a function: its arguments
// are the type parameter, the parameters and the result
static bool literal(const T &t) { return t->var < 0 && (t->head[0] == '#' || t->head[0] == '\''); }
static LiteralKind kindOf(const T &t) {
  return t->head[0] == '#' ? LiteralKind::Int : t->head[0] == '\'' ? LiteralKind::String : LiteralKind::Runtime;
}
static string base(const T &t) { return t->head[0] == '#' ? "int" : t->head[0] == '\'' ? "str" : t->head; }

struct RVar {
  T to;
  int level = 0;
  LiteralKind kind = LiteralKind::Runtime;
  T trait;
};

struct Ref {
  vector<RVar> v;
  bool ambiguous = false; // a literal variable against one that may be anything

  T look(T t) const {
    while (t->var >= 0 && v[t->var].to)
      t = v[t->var].to;
    return t;
  }
  bool occurs(int i, T t) const {
    t = look(t);
    if (t->var >= 0)
      return t->var == i;
    for (auto &a : t->args)
      if (occurs(i, a))
        return true;
    return false;
  }
  void lower(T t, int level) {
    t = look(t);
    if (t->var >= 0)
      v[t->var].level = std::min(v[t->var].level, level);
    else
      for (auto &a : t->args)
        lower(a, level);
  }
  // bind = false: match without learning anything
  bool unify(T a, T b, bool bind) {
    a = look(a);
    b = look(b);
    if (a->var >= 0 && b->var >= 0) {
      if (a->var == b->var)
        return true;
      if (v[a->var].kind != v[b->var].kind) {
        ambiguous = true;
        return false;
      }
      if (bind) {
        int keep = std::min(a->var, b->var), drop = std::max(a->var, b->var);
        v[keep].level = std::min(v[keep].level, v[drop].level);
        if (!v[keep].trait)
          v[keep].trait = v[drop].trait;
        v[drop].to = V(keep);
      }
      return true;
    }
    if (b->var >= 0)
      std::swap(a, b);
    if (a->var >= 0) {
      auto &x = v[a->var];
      if (x.kind != LiteralKind::Runtime && x.kind != kindOf(b))
        return false;
      if (occurs(a->var, b))
        return false;
      if (x.trait && !unify(b, x.trait, bind))
        return false;
      if (bind) {
        lower(b, v[a->var].level);
        v[a->var].to = b;
      }
      return true;
    }
    if (literal(a) && literal(b))
      return a->head == b->head;
    if (literal(a))
      a = N(base(a));
    if (literal(b))
      b = N(base(b));
    if (a->head == "int" && b->head == "Int")
      std::swap(a, b);
    if (a->head == "Int" && b->head == "int")
      return unify(a->args[0], N("#64"), bind);
    if (a->head != b->head || a->args.size() != b->args.size())
      return false;
    for (size_t i = 0; i < a->args.size(); i++)
      if (!unify(a->args[i], b->args[i], bind))
        return false;
    return true;
  }
  int rep(int i) const { // of an unbound variable's class: the smallest member
    for (int j = 0; j < (int)v.size(); j++) {
      auto t = look(V(j));
      if (t->var == i)
        return j;
    }
    return i;
  }
  string show(T t, int depth = 0) const {
    if (depth > 30)
      return "...";
    t = look(t);
    if (t->var >= 0) {
      auto &x = v[t->var];
      return "v" + std::to_string(rep(t->var)) + "@" + std::to_string(x.level) + ":" +
             std::to_string((int)x.kind) + (x.trait ? "T" : "");
    }
    string s = t->head;
    for (auto &a : t->args)
      s += "(" + show(a, depth + 1) + ")";
    return s;
  }
  string dump() const {
    string s;
    for (size_t i = 0; i < v.size(); i++)
      s += show(V(i)) + " ";
    return s;
  }
  void unbounds(T t, std::set<int> &r, bool skipResult) const {
    t = look(t);
    if (t->var >= 0) {
      r.insert(t->var);
      return;
    }
    size_t n = t->args.size();
    if (skipResult && t->head.substr(0, 3) == "fn ")
      n--;
    for (size_t i = 0; i < n; i++)
      unbounds(t->args[i], r, skipResult);
  }
};

// ------------------------------------------------------------------ the real thing

struct World {
  Cache *cache;
  vector<std::shared_ptr<LinkType>> vars;
  std::map<string, FunctionStmt *> functions;

  World() {
    cache = new Cache("");
    cache->typeCtx = std::make_shared<TypeContext>(cache, "");
    cache->imports[STDLIB_IMPORT].ctx = cache->typeCtx;
    for (string n : {"int", "str", "bool"}) {
      auto c = std::make_shared<ClassType>(cache, n);
      auto t = std::make_shared<ClassType>(cache, "type", vector<ClassType::Generic>{{"T", c, 0, LiteralKind::Runtime}});
      cache->typeCtx->addType(n, n, t);
    }
    for (string n : {"f", "g"})
      functions[n] = cache->N<FunctionStmt>(n, nullptr, vector<Param>{}, nullptr);
  }

  TypePtr make(const T &t) {
    if (t->var >= 0)
      return vars[t->var];
    if (t->head[0] == '#')
      return std::make_shared<IntStaticType>(cache, atoll(t->head.c_str() + 1));
    if (t->head[0] == '\'')
      return std::make_shared<StrStaticType>(cache, t->head.substr(1));
    if (t->head == "True" || t->head == "False")
      return std::make_shared<BoolStaticType>(cache, t->head == "True");
    auto gen = [&](const vector<T> &a, size_t from, size_t to, bool stat) {
      vector<ClassType::Generic> g;
      for (size_t i = from; i < to; i++)
        g.emplace_back("G" + std::to_string(i), make(a[i]), 100 + (int)i, stat ? LiteralKind::Int : LiteralKind::Runtime);
      return g;
    };
    if (t->head.substr(0, 3) == "fn ") {
      size_t n = t->args.size();
      auto args = std::make_shared<ClassType>(cache, "Tuple", gen(t->args, 1, n - 1, false));
      args->isTuple = true;
      vector<ClassType::Generic> g;
      g.emplace_back("A", args, 200, LiteralKind::Runtime);
      g.emplace_back("R", make(t->args[n - 1]), 201, LiteralKind::Runtime);
      ClassType b(cache, "Function", g);
      return std::make_shared<FuncType>(&b, functions[t->head.substr(3)], gen(t->args, 0, 1, false));
    }
    if (t->head == "Union") {
      auto args = std::make_shared<ClassType>(cache, "Tuple", gen(t->args, 0, t->args.size(), false));
      args->isTuple = true;
      vector<ClassType::Generic> g;
      g.emplace_back("T", args, 202, LiteralKind::Runtime);
      return std::make_shared<UnionType>(cache, g, vector<TypePtr>{});
    }
    auto c = std::make_shared<ClassType>(cache, t->head, gen(t->args, 0, t->args.size(), t->head == "S" || t->head == "Int" || t->head == "Q" || t->head == "K"));
    c->isTuple = t->head == "Tuple";
    return c;
  }

  int indexOf(Type *t) const {
    for (size_t i = 0; i < vars.size(); i++)
      if (vars[i]->follow() == t)
        return i;
    return -1;
  }

  // fresh: names for variables and generics outside the pool, by first appearance
  string show(Type *t, std::map<int, int> *fresh = nullptr, int depth = 0) const {
    if (depth > 30)
      return "...";
    t = t->follow();
    if (auto l = t->getLink()) {
      if (l->kind == LinkType::Link)
        return "LINK";
      int i = indexOf(t);
      string n;
      if (i >= 0 && l->kind == LinkType::Unbound)
        n = "v" + std::to_string(i);
      else if (fresh)
        n = (l->kind == LinkType::Generic ? "g" : "f") +
            std::to_string(fresh->emplace(l->id, fresh->size()).first->second);
      else
        n = "?";
      return n + "@" + std::to_string(l->level) + ":" + std::to_string((int)l->staticKind) + (l->trait ? "T" : "");
    }
    if (auto s = t->getIntStatic())
      return "#" + std::to_string(s->value);
    if (auto s = t->getStrStatic())
      return "'" + s->value;
    if (auto f = t->getFunc()) {
      string s = "fn " + f->ast->getName();
      for (auto &g : f->funcGenerics)
        s += "(" + show(g.type.get(), fresh, depth + 1) + ")";
      for (auto &g : *f)
        s += "(" + show(g.type.get(), fresh, depth + 1) + ")";
      return s + "(" + show(f->getRetType(), fresh, depth + 1) + ")";
    }
    auto c = t->getClass();
    string s = c->name;
    for (auto &g : c->generics)
      s += "(" + show(g.type.get(), fresh, depth + 1) + ")";
    return s;
  }
  string dump() const {
    string s;
    for (auto &v : vars)
      s += show(v.get()) + " ";
    return s;
  }
};

static World *W;

struct Config {
  string name;
  vector<int> levels; // of a, b, c
  int traited = -1;   // variable that may only become an L
};

static const int STATICS = 3, PRIVATE = 5, POOL = 6;

static Ref start(const Config &c) {
  Ref r;
  W->vars.clear();
  for (int i = 0; i < POOL; i++) {
    RVar x;
    x.level = i < 3 ? c.levels[i] : 1;
    x.kind = i == 3 || i == 4 ? LiteralKind::Int : LiteralKind::Runtime;
    if (i == c.traited)
      x.trait = N("L", {V(PRIVATE)});
    r.v.push_back(x);
    W->vars.push_back(std::make_shared<LinkType>(W->cache, LinkType::Unbound, i + 1, x.level, nullptr, x.kind));
  }
  if (c.traited >= 0)
    W->vars[c.traited]->trait = std::make_shared<TypeTrait>(W->make(r.v[c.traited].trait));
  return r;
}

static vector<T> terms() {
  T a = V(0), b = V(1), c = V(2), n = V(3), m = V(4);
  return {a, b, c, N("A"), N("L", {a}), N("L", {b}), N("L", {N("L", {c})}), N("D", {a, b}), N("D", {b, b}), N("D", {c, N("A")}),
          N("S", {n}), N("S", {m}), N("S", {N("#3")}), N("#3"), N("int"), N("Int", {n}), N("Int", {N("#64")}),
          N("fn f", {a, a, N("L", {b}), c}), N("fn f", {c, c, b, N("A")}), N("fn g", {a, a, b, b}), N("D", {N("S", {n}), N("S", {N("#4")})})};
}

static string text(const T &t) {
  if (t->var >= 0)
    return string(1, "abcnmw"[t->var]);
  string s = t->head;
  for (size_t i = 0; i < t->args.size(); i++)
    s += (i ? "," : "[") + text(t->args[i]);
  return s + (t->args.empty() ? "" : "]");
}

static void expect(const string &what, const string &key, const string &got, const string &want) {
  if (got != want)
    fail(what + " " + key, "got  " + got + "\nwant " + want);
}

// everything that can be asked about every term in the present state
static void queries(const Ref &r, const vector<T> &ts, const string &key) {
  for (auto &t : ts) {
    auto p = W->make(t);
    string k = text(t) + " after " + key;
    expect("value", k, W->show(p.get()), r.show(t));
    std::set<int> u, ua;
    r.unbounds(t, u, true);
    r.unbounds(t, ua, false);
    std::set<int> got;
    for (auto *x : p->getUnbounds(false))
      got.insert(W->indexOf(x->follow()));
    std::set<int> want;
    for (int i : u)
      want.insert(r.rep(i));
    if (got != want)
      fail("unbounds of " + k, r.show(t));
    if (p->hasUnbounds(false) != !ua.empty())
      fail("hasUnbounds of " + k, r.show(t));
    if (p->canRealize() != u.empty())
      fail("canRealize of " + k, r.show(t));
    if (p->isInstantiated() != ua.empty())
      fail("isInstantiated of " + k, r.show(t));
    count("queries") += 5;
    for (int level = 0; level <= 3; level++) {
      // expected: variables at or above the level become generics, the others stay
      std::map<int, int> order;
      std::function<string(T, int)> gen = [&](T x, int mode) -> string {
        x = r.look(x);
        if (x->var >= 0) {
          auto &y = r.v[x->var];
          string rest = ":" + std::to_string((int)y.kind) + (y.trait ? "T" : "");
          if (y.level < level)
            return "v" + std::to_string(r.rep(x->var)) + "@" + std::to_string(y.level) + rest;
          int k = order.emplace(x->var, order.size()).first->second;
          return (mode ? "f" : "g") + std::to_string(k) + "@" + (mode ? "7" : "0") + rest;
        }
        // literals of type parameters that do not ask for one decay to their type
        string s = x->head;
        for (auto &a : x->args) {
          auto b = r.look(a);
          bool stat = x->head == "S" || x->head == "Int";
          s += "(" + (b->var < 0 && literal(b) && !stat ? base(b) : gen(b, mode)) + ")";
        }
        return s;
      };
      auto g = p->generalize(level);
      std::map<int, int> f1, f2, f3;
      string want = gen(t, 0);
      expect("generalize " + std::to_string(level), k, W->show(g.get(), &f1), want);
      int next = 1000;
      std::unordered_map<int, TypePtr> c1, c2;
      auto i1 = g->instantiate(7, &next, &c1);
      auto i2 = g->instantiate(7, &next, &c2);
      auto i3 = g->instantiate(7, &next, &c1);
      order.clear();
      want = gen(t, 1);
      expect("instantiate " + std::to_string(level), k, W->show(i1.get(), &f2), want);
      expect("instantiate twice " + std::to_string(level), k, W->show(i2.get(), &f3), want);
      std::set<int> s1, s2;
      for (auto &[id, _] : f2)
        s1.insert(id);
      for (auto &[id, _] : f3)
        if (s1.count(id))
          fail("instances share a variable " + k, want);
      std::map<int, int> f4 = f2;
      expect("same instance " + std::to_string(level), k, W->show(i3.get(), &f4), want);
      if (f4.size() != f2.size())
        fail("one table gave two instances " + k, want);
      if (g->hasUnbounds(false) && level == 0)
        fail("unbound left by generalize " + k, want);
      expect("generalize kept", k, W->show(p.get()), r.show(t));
      count("queries") += 4;
    }
  }
}

static void histories(int depth, const vector<Config> &configs, int shard, int total) {
  auto ts = terms();
  size_t k = 0;
  for (auto &cfg : configs) {
    std::set<string> seen; // states whose queries were asked
    Explorer ex;
    size_t P = ts.size() * ts.size();
    ex.explore([&] {
      vector<size_t> ops;
      // shards divide the first operation
      size_t o = ex.choose((P + total - 1) / total) * total + shard;
      if (o >= P)
        return;
      ops.push_back(o);
      for (int d = 1; d < depth; d++)
        ops.push_back(ex.choose(P));
      Ref r = start(cfg);
      string key = cfg.name;
      vector<Type::Unification> undo(ops.size());
      vector<string> before;
      vector<TypePtr> keep;
      k++;
      for (size_t i = 0; i < ops.size(); i++) {
        T x = ts[ops[i] / ts.size()], y = ts[ops[i] % ts.size()];
        key += " " + text(x) + "~" + text(y);
        current(key);
        auto px = W->make(x), py = W->make(y);
        keep.push_back(px);
        keep.push_back(py);
        string d0 = W->dump();
        before.push_back(d0);
        Ref trial = r, next = r;
        bool okTrial = trial.unify(x, y, false);
        bool ok = next.unify(x, y, true);
        if (trial.ambiguous || next.ambiguous)
          break;
        bool last = i + 1 == ops.size();
        if (last || i == 0) {
          int s0 = px->unify(py.get(), nullptr);
          if ((s0 >= 0) != okTrial)
            fail("trial " + key, std::to_string(s0));
          expect("trial changed", key, W->dump(), d0);
          Type::Unification u;
          int s1 = px->unify(py.get(), &u);
          string d1 = W->dump();
          u.undo();
          expect("undo", key, W->dump(), d0);
          int s2 = px->unify(py.get(), &undo[i]);
          if ((s1 >= 0) != ok)
            fail("unify " + key, std::to_string(s1));
          if (s1 != s2 || (ok && W->dump() != d1))
            fail("redo " + key, d1 + " " + W->dump());
          if (!ok)
            undo[i].undo(), undo[i] = {};
          count("steps") += 3;
        } else {
          int s = px->unify(py.get(), &undo[i]);
          if ((s >= 0) != ok)
            fail("unify " + key, std::to_string(s));
          if (!ok)
            undo[i].undo(), undo[i] = {};
          count("steps")++;
        }
        if (ok)
          r = next;
        expect("state", key, W->dump(), r.dump());
      }
      count("histories")++;
      if (k == 7 && shard < 4)
        sample(key + ": " + r.dump());
      if (seen.insert(r.dump()).second) {
        count("states")++;
        queries(r, ts, key);
      }
      // and back, one step at a time
      for (size_t i = before.size(); i-- > 0;) {
        undo[i].undo();
        expect("undo all to " + std::to_string(i), key, W->dump(), before[i]);
      }
    });
  }
}

// a term with one ground subterm replaced by a variable matches it, with a lower score
static void ground(vector<T> &out, int depth) {
  vector<T> lits = {N("#0"), N("#1"), N("#-1"), N("#10"), N("#64")};
  vector<T> strs = {N("'"), N("'a"), N("''"), N("','"), N("'\\"), N("'\\'"), N("'a,b"), N("']"), N("'\n"), N("'\\n"), N("'\xc3\xa9"), N("'\x01" "1"), N("'\x11")};
  vector<T> level = {N("A"), N("B"), N("AB"), N("int"), N("str"), N("Tuple")};
  for (auto &l : lits)
    level.push_back(N("S", {l}));
  for (auto &l : strs)
    level.push_back(N("Q", {l}));
  level.push_back(N("K", {N("True")}));
  level.push_back(N("K", {N("False")}));
  for (auto &l : lits)
    level.push_back(N("S", {l, lits[1]}));
  out = level;
  for (int d = 0; d < depth; d++) {
    vector<T> small = out;
    if (d == 0)
      small.resize(12);
    else if (small.size() > 60) {
      vector<T> s2;
      for (size_t i = 0; i < small.size(); i += small.size() / 60)
        s2.push_back(small[i]);
      small = s2;
    }
    vector<T> more;
    for (auto &x : small) {
      more.push_back(N("L", {x}));
      more.push_back(N("Tuple", {x}));
      more.push_back(N("Union", {x}));
      more.push_back(N("fn f", {x, x, N("A")}));
      for (auto &y : small) {
        more.push_back(N("D", {x, y}));
        more.push_back(N("Tuple", {x, y}));
        more.push_back(N("Union", {x, y}));
        more.push_back(N("fn f", {N("A"), x, y, N("A")}));
        more.push_back(N("fn g", {x, y, N("A")}));
        if (d == 0)
          for (auto &z : {N("A"), N("B"), N("Tuple")})
            more.push_back(N("Tuple", {x, y, z})), more.push_back(N("Union", {x, y, z}));
      }
    }
    out.insert(out.end(), more.begin(), more.end());
  }
}

// a normal form: unions are sets, the result of a function does not tell realizations apart
static string norm(const T &t, bool inner = false) {
  if (t->head == "Union") {
    std::set<string> s;
    for (auto &a : t->args)
      s.insert(norm(a));
    string r = "Union{";
    for (auto &x : s)
      r += x + ";";
    return r + "}";
  }
  string s = t->head;
  size_t n = t->args.size() - (t->head.substr(0, 3) == "fn " ? 1 : 0);
  for (size_t i = 0; i < n; i++)
    s += "(" + norm(t->args[i]) + ")";
  return s;
}

static bool hasUnion(const T &t) {
  if (t->head == "Union")
    return true;
  for (auto &a : t->args)
    if (hasUnion(a))
      return true;
  return false;
}

static size_t positions(const T &t) {
  size_t n = 1;
  for (auto &a : t->args)
    n += positions(a);
  return n;
}
static T replaceAt(const T &t, size_t &i, const T &by) {
  if (i-- == 0)
    return by;
  vector<T> a;
  for (auto &x : t->args)
    a.push_back(replaceAt(x, i, by));
  return N(t->head, a);
}

static void names(int depth, int shard, int total) {
  vector<T> g;
  ground(g, depth);
  std::map<string, string> byName, byNorm;
  Config cfg{"", {1, 1, 1}};
  size_t k = 0;
  for (auto &t : g) {
    k++;
    current(text(t));
    auto p = W->make(t);
    string nm = p->realizedName(), no = norm(t);
    string nm2 = p->realizedName();
    if (nm != nm2)
      fail("realized name changed " + text(t), nm + " " + nm2);
    auto [i, fresh] = byName.emplace(nm, no);
    if (!fresh && i->second != no)
      fail("two types of one realized name " + text(t), nm + " also names " + i->second);
    auto [j, fresh2] = byNorm.emplace(no, nm);
    if (!fresh2 && j->second != nm)
      fail("two realized names of one type " + text(t), nm + " and " + j->second);
    if (!p->canRealize() || p->hasUnbounds(true) || !p->isInstantiated())
      fail("ground type " + text(t), "not realizable");
    if (k % total != (size_t)shard)
      continue;
    count("types")++;
    // itself, built again
    auto q = W->make(t);
    int s = p->unify(q.get(), nullptr);
    if (s < 0)
      fail("equal types " + text(t), "do not unify");
    if (!hasUnion(t) && t->head.substr(0, 3) != "fn ")
      for (size_t n = positions(t), i = 0; i < n; i++) {
        start(cfg);
        size_t at = i;
        T pat = replaceAt(t, at, V(0));
        size_t at2 = i;
        (void)at2;
        // literals in literal positions need a literal variable: skip those
        bool lit = false;
        std::function<void(const T &, size_t &)> look = [&](const T &x, size_t &j) {
          if (j-- == 0) {
            lit = literal(x) || x->head == "True" || x->head == "False";
            return;
          }
          for (auto &a : x->args)
            if ((ssize_t)j >= 0)
              look(a, j);
        };
        size_t j = i;
        look(t, j);
        if (lit)
          continue;
        auto pp = W->make(pat);
        int s1 = pp->unify(p.get(), nullptr), s2 = p->unify(pp.get(), nullptr);
        if (s1 < 0 || s1 >= s || s1 != s2)
          fail("score of " + text(pat) + " for " + text(t), std::to_string(s) + " " + std::to_string(s1) + " " + std::to_string(s2));
        count("scores")++;
      }
    // against the others
    size_t step = g.size() > 3000 ? 7 : 1;
    for (size_t m = k % step; m < g.size(); m += step) {
      auto &o = g[m];
      auto x = W->make(o);
      Ref r;
      bool want;
      if (hasUnion(t) || hasUnion(o)) {
        if (t->head != "Union" || o->head != "Union")
          continue;
        want = norm(t) == no && norm(t) == norm(o);
        bool flat = true; // members compared pairwise in order of their names
        for (auto *u : {&t, &o})
          for (auto &a : (*u)->args)
            flat &= !hasUnion(a) && a->head.substr(0, 3) != "fn ";
        if (!flat)
          continue;
      } else {
        bool b = false;
        std::function<void(const T &)> bools = [&](const T &y) {
          b |= y->head == "K";
          for (auto &a : y->args)
            bools(a);
        };
        bools(t), bools(o);
        want = r.unify(t, o, true);
      }
      int s1 = p->unify(x.get(), nullptr), s2 = x->unify(p.get(), nullptr);
      if ((s1 >= 0) != want || (s2 >= 0) != want)
        fail("ground " + text(t) + " ~ " + text(o), std::to_string(s1) + " " + std::to_string(s2) + (want ? " want match" : " want none"));
      count("pairs")++;
    }
  }
}

// text literals as they are written into names and read back
static void texts(int depth, int shard, int total) {
  std::set<string> seen;
  size_t k = 0;
  auto one = [&](const string &s) {
    if (k++ % total != (size_t)shard)
      return;
    current("escape");
    string e = codon::ast::escape(s);
    for (unsigned char c : e)
      if (c < 32 || c >= 127)
        fail("escape leaves a special character", e);
    if (codon::ast::unescape(e) != s)
      fail("unescape(escape(s)) of " + e, codon::ast::escape(codon::ast::unescape(e)));
    if (!seen.insert(e).second)
      fail("escape of two texts", e);
    count("texts")++;
  };
  for (int a = 0; a < 256; a++) {
    one(string(1, a));
    for (int b = 0; b < 256; b++)
      one(string(1, a) + string(1, b));
  }
  string alphabet("\x01\x11\x00\x7f\xff\\'\"nx0178aAfg\n {", 21);
  std::function<void(string, int)> rec = [&](string s, int left) {
    if (s.size() > 2)
      one(s);
    if (left)
      for (char c : alphabet)
        rec(s + c, left - 1);
  };
  rec("", depth);
}

int main(int argc, char **argv) {
  string mode = argv[1];
  int depth = atoi(argv[2]), n = atoi(argv[3]);
  W = new World();
  return shards(n, "types-" + mode, [&](int shard, int total) {
    if (mode == "unify") {
      vector<Config> cs;
      for (int tr = -1; tr < 3; tr++)
        for (auto &l : depth > 2 ? vector<vector<int>>{{1, 2, 0}} : vector<vector<int>>{{1, 1, 1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {2, 0, 2}})
          cs.push_back({"levels " + std::to_string(l[0]) + std::to_string(l[1]) + std::to_string(l[2]) +
                            (tr >= 0 ? string(" only L: ") + "abc"[tr] : "") + ":",
                        l, tr});
      if (depth > 2)
        cs.resize(1);
      histories(depth, cs, shard, total);
      if (count("histories") == 0)
        fail("empty", "no histories");
    } else if (mode == "texts") {
      texts(depth, shard, total);
    } else {
      names(depth, shard, total);
      if (count("types") == 0)
        fail("empty", "no types");
    }
  });
}
