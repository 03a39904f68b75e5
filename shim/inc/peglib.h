// Minimal stand-in for exaloop's cpp-peglib fork (not available offline).
//
// It implements only the combinators and hooks used by codon/parser/peg/peg.cpp
// and by the rule files that peg2cpp.py generates from the .peg grammars: ordered
// choice with cut, sequences, repetitions, predicates, token boundaries, packrat
// memoisation, per-rule enter/leave/predicate/action callbacks and farthest-failure
// error reports.  Macros are expanded by peg2cpp.py and never reach this header.
#pragma once

#include <algorithm>
#include <any>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

// real peglib pulls these in transitively and the sources rely on it
#include <fstream>
#include <iostream>
#include <list>
#include <mutex>
#include <set>
#include <sstream>
#include <stack>
#include <unordered_set>

namespace peg {

inline bool success(size_t len) { return len != static_cast<size_t>(-1); }
inline bool fail(size_t len) { return len == static_cast<size_t>(-1); }

using Log = std::function<void(size_t, size_t, const std::string &, const std::string &)>;

struct SemanticValues;
class Definition;
using Grammar = std::unordered_map<std::string, Definition>;
using Rules = std::unordered_map<std::string, std::shared_ptr<class Ope>>;

/// Source text with a line index.
struct Source {
  const char *s;
  size_t n;
  std::vector<size_t> starts;
  Source(const char *s, size_t n) : s(s), n(n) {
    starts.push_back(0);
    for (size_t i = 0; i < n; i++)
      if (s[i] == '\n')
        starts.push_back(i + 1);
  }
  std::pair<size_t, size_t> lineInfo(const char *p) const {
    size_t off = p - s;
    auto it = std::upper_bound(starts.begin(), starts.end(), off);
    size_t line = it - starts.begin();
    return {line, off - starts[line - 1] + 1};
  }
};

struct SemanticValues : public std::vector<std::any> {
  const char *path = nullptr;
  const Source *src = nullptr;
  std::vector<std::string_view> tokens;
  std::string_view sv_;
  size_t choice_ = 0;

  std::string_view sv() const { return sv_; }
  size_t choice() const { return choice_; }
  std::pair<size_t, size_t> line_info() const { return src->lineInfo(sv_.data()); }
  std::string_view token(size_t id = 0) const {
    if (tokens.empty())
      return sv_;
    return tokens.at(id);
  }
  std::string token_to_string(size_t id = 0) const { return std::string(token(id)); }
  template <typename T>
  std::vector<T> transform(size_t beg = 0,
                           size_t end = static_cast<size_t>(-1)) const {
    std::vector<T> r;
    end = std::min(end, size());
    for (size_t i = beg; i < end; i++)
      r.emplace_back(std::any_cast<T>((*this)[i]));
    return r;
  }
  void append(SemanticValues &o) {
    for (auto &v : o)
      emplace_back(std::move(v));
    for (auto &t : o.tokens)
      tokens.emplace_back(t);
    if (sv_.data() == nullptr)
      sv_ = o.sv_;
  }
  void reset() {
    clear();
    tokens.clear();
    choice_ = 0;
    sv_ = {};
  }
};

struct ErrorInfo {
  const char *error_pos = nullptr;
  const char *message_pos = nullptr;
  std::string message;
  const Source *src = nullptr;
  std::shared_ptr<Source> keep;

  void output_log(const Log &log, const char *s, size_t n) const {
    if (!log)
      return;
    Source own(s, n);
    if (message_pos && message_pos >= error_pos) {
      auto li = own.lineInfo(message_pos);
      log(li.first, li.second, message, "");
    } else {
      const char *p = error_pos ? error_pos : s;
      auto li = own.lineInfo(p);
      std::string unexpected;
      if (p < s + n) {
        const char *e = p;
        auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
        if (word(*e))
          while (e < s + n && word(*e))
            e++;
        else
          e++;
        unexpected = std::string(p, e);
        if (unexpected == "\n")
          unexpected = "\\n";
      }
      log(li.first, li.second,
          unexpected.empty() ? std::string("syntax error, unexpected end of input")
                             : "syntax error, unexpected '" + unexpected + "'",
          "");
    }
  }
};

/// State of the user's parse context; part of every memo key.
using StateFn = uint64_t (*)(const std::any &);
inline StateFn &state_fn() {
  static StateFn f = nullptr;
  return f;
}

class Context {
public:
  const char *path;
  const char *s;
  const size_t l;
  Source src;
  ErrorInfo error_info;
  bool cut = false;
  int quiet = 0;
  bool packrat;
  size_t nrules;
  std::vector<std::unique_ptr<SemanticValues>> pool;
  size_t used = 0;
  struct Memo {
    size_t len;
    std::any val;
  };
  std::unordered_map<uint64_t, Memo> memo;

  Context(const char *path, const char *s, size_t l, size_t nrules, bool packrat)
      : path(path), s(s), l(l), src(s, l), packrat(packrat), nrules(nrules) {}

  SemanticValues &push() {
    if (used == pool.size())
      pool.emplace_back(std::make_unique<SemanticValues>());
    auto &r = *pool[used++];
    r.reset();
    r.path = path;
    r.src = &src;
    return r;
  }
  void pop() { used--; }
  void fail_at(const char *p) {
    if (quiet)
      return;
    if (!error_info.error_pos || p > error_info.error_pos)
      error_info.error_pos = p;
  }
  void message_at(const char *p, const std::string &m) {
    if (quiet)
      return;
    if (!error_info.message_pos || p >= error_info.message_pos) {
      error_info.message_pos = p;
      error_info.message = m;
    }
  }
};

struct Scope {
  Context &c;
  SemanticValues &vs;
  Scope(Context &c) : c(c), vs(c.push()) {}
  ~Scope() { c.pop(); }
};

class LinkReferences;

class Ope {
public:
  struct Visitor;
  virtual ~Ope() = default;
  virtual size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
                       std::any &dt) const = 0;
  virtual void link(Grammar &) {}
  virtual bool isChoice() const { return false; }
};
using OpePtr = std::shared_ptr<Ope>;

class Sequence : public Ope {
public:
  std::vector<OpePtr> opes;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    Scope sc(c);
    size_t i = 0;
    for (auto &o : opes) {
      auto len = o->parse(s + i, n - i, sc.vs, c, dt);
      if (fail(len))
        return len;
      i += len;
    }
    vs.append(sc.vs);
    return i;
  }
  void link(Grammar &g) override {
    for (auto &o : opes)
      o->link(g);
  }
};

class PrioritizedChoice : public Ope {
public:
  std::vector<OpePtr> opes;
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    bool saved = c.cut;
    c.cut = false;
    size_t len = static_cast<size_t>(-1);
    for (size_t id = 0; id < opes.size(); id++) {
      Scope sc(c);
      len = opes[id]->parse(s, n, sc.vs, c, dt);
      if (success(len)) {
        vs.append(sc.vs);
        vs.choice_ = id;
        break;
      }
      if (c.cut)
        break;
    }
    c.cut = saved;
    return len;
  }
  void link(Grammar &g) override {
    for (auto &o : opes)
      o->link(g);
  }
  bool isChoice() const override { return true; }
};

class Repetition : public Ope {
public:
  OpePtr ope;
  size_t min, max;
  Repetition(OpePtr o, size_t min, size_t max) : ope(std::move(o)), min(min), max(max) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    size_t count = 0, i = 0;
    while (count < max) {
      Scope sc(c);
      if (count >= min && i == n)
        ; // still try: zero-width rules may succeed at the end of input
      auto len = ope->parse(s + i, n - i, sc.vs, c, dt);
      if (fail(len)) {
        if (count < min)
          return len;
        break;
      }
      vs.append(sc.vs);
      i += len;
      count++;
      if (len == 0 && count >= min)
        break;
    }
    return i;
  }
  void link(Grammar &g) override { ope->link(g); }
};

class Predicate : public Ope {
public:
  OpePtr ope;
  bool positive;
  Predicate(OpePtr o, bool p) : ope(std::move(o)), positive(p) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &dt) const override {
    Scope sc(c);
    size_t len;
    if (positive) {
      len = ope->parse(s, n, sc.vs, c, dt);
      return success(len) ? 0 : len;
    }
    c.quiet++;
    len = ope->parse(s, n, sc.vs, c, dt);
    c.quiet--;
    if (success(len)) {
      c.fail_at(s);
      return static_cast<size_t>(-1);
    }
    return 0;
  }
  void link(Grammar &g) override { ope->link(g); }
};

class LiteralString : public Ope {
public:
  std::string lit;
  bool icase;
  bool word;
  LiteralString(std::string l, bool i) : lit(std::move(l)), icase(i) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &) const override {
    bool ok = n >= lit.size();
    if (ok) {
      if (!icase)
        ok = !memcmp(s, lit.data(), lit.size());
      else
        for (size_t i = 0; ok && i < lit.size(); i++)
          ok = tolower((unsigned char)s[i]) == tolower((unsigned char)lit[i]);
    }
    if (!ok) {
      c.fail_at(s);
      return static_cast<size_t>(-1);
    }
    return lit.size();
  }
};

inline size_t decode_utf8(const char *s, size_t n, char32_t &out) {
  if (!n)
    return 0;
  unsigned char b = s[0];
  if (b < 0x80) {
    out = b;
    return 1;
  }
  size_t k = (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
  if (!k || n < k) {
    out = b;
    return 1;
  }
  out = k == 2 ? (b & 0x1f) : k == 3 ? (b & 0xf) : (b & 7);
  for (size_t i = 1; i < k; i++)
    out = (out << 6) | (s[i] & 0x3f);
  return k;
}

class CharacterClass : public Ope {
public:
  std::vector<std::pair<char32_t, char32_t>> ranges;
  bool negated;
  bool ascii[128];
  CharacterClass(std::vector<std::pair<char32_t, char32_t>> r, bool neg)
      : ranges(std::move(r)), negated(neg) {
    for (int i = 0; i < 128; i++)
      ascii[i] = match(i);
  }
  bool match(char32_t ch) const {
    for (auto &r : ranges)
      if (r.first <= ch && ch <= r.second)
        return !negated;
    return negated;
  }
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &) const override {
    if (n) {
      unsigned char b = *s;
      if (b < 128) {
        if (ascii[b])
          return 1;
      } else {
        char32_t ch = 0;
        size_t k = decode_utf8(s, n, ch);
        if (match(ch))
          return k;
      }
    }
    c.fail_at(s);
    return static_cast<size_t>(-1);
  }
};

class AnyCharacter : public Ope {
public:
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &) const override {
    char32_t ch = 0;
    auto k = decode_utf8(s, n, ch);
    if (!k) {
      c.fail_at(s);
      return static_cast<size_t>(-1);
    }
    return k;
  }
};

class TokenBoundary : public Ope {
public:
  OpePtr ope;
  explicit TokenBoundary(OpePtr o) : ope(std::move(o)) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto len = ope->parse(s, n, vs, c, dt);
    if (success(len))
      vs.tokens.emplace_back(s, len);
    return len;
  }
  void link(Grammar &g) override { ope->link(g); }
  bool isChoice() const override { return ope->isChoice(); }
};

class Ignore : public Ope {
public:
  OpePtr ope;
  explicit Ignore(OpePtr o) : ope(std::move(o)) {}
  size_t parse(const char *s, size_t n, SemanticValues &, Context &c,
               std::any &dt) const override {
    Scope sc(c);
    return ope->parse(s, n, sc.vs, c, dt);
  }
  void link(Grammar &g) override { ope->link(g); }
};

using Parser = std::function<size_t(const char *, size_t, SemanticValues &, std::any &)>;

class User : public Ope {
public:
  Parser fn;
  explicit User(Parser f) : fn(std::move(f)) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override {
    auto len = fn(s, n, vs, dt);
    if (fail(len))
      c.fail_at(s);
    return len;
  }
};

class Cut : public Ope {
public:
  size_t parse(const char *, size_t, SemanticValues &, Context &c,
               std::any &) const override {
    c.cut = true;
    return 0;
  }
};

class Reference : public Ope {
public:
  Grammar &g;
  std::string name;
  Definition *rule = nullptr;
  Reference(Grammar &g, std::string n) : g(g), name(std::move(n)) {}
  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const override;
  void link(Grammar &g) override;
};

class Action {
  std::function<std::any(SemanticValues &, std::any &)> fn;

public:
  Action() = default;
  template <typename F, typename = std::enable_if_t<
                            std::is_invocable_v<F, SemanticValues &, std::any &>>>
  Action(F f) {
    using R = std::invoke_result_t<F, SemanticValues &, std::any &>;
    if constexpr (std::is_void_v<R>)
      fn = [f](SemanticValues &vs, std::any &dt) -> std::any {
        f(vs, dt);
        return {};
      };
    else if constexpr (std::is_same_v<std::decay_t<R>, std::any>)
      fn = f;
    else
      fn = [f](SemanticValues &vs, std::any &dt) -> std::any {
        return std::any(f(vs, dt));
      };
  }
  explicit operator bool() const { return (bool)fn; }
  std::any operator()(SemanticValues &vs, std::any &dt) const { return fn(vs, dt); }
};

class Definition {
public:
  struct Result {
    bool ret;
    bool recovered;
    size_t len;
    ErrorInfo error_info;
  };

  OpePtr ope;
  std::string name;
  size_t id = 0;
  bool ignoreSemanticValue = false;
  bool is_macro = false;
  bool enable_memoize = true;
  bool enablePackratParsing = false;
  std::vector<std::string> params;
  Action action;
  std::function<bool(const SemanticValues &, const std::any &, std::string &)> predicate;
  std::function<void(const Context &, const char *, size_t, std::any &)> enter;
  std::function<void(const Context &, const char *, size_t, size_t, std::any &,
                     std::any &)>
      leave;

  Definition() {
    static size_t counter = 0;
    id = counter++;
  }
  Definition(const Definition &) = delete;
  Definition &operator=(const Definition &) = delete;

  Definition &operator<=(const OpePtr &o) {
    ope = o;
    return *this;
  }
  Definition &operator~() {
    ignoreSemanticValue = true;
    return *this;
  }
  Definition &operator=(Action a) {
    action = std::move(a);
    return *this;
  }
  void accept(LinkReferences &v);

  size_t parse(const char *s, size_t n, SemanticValues &vs, Context &c,
               std::any &dt) const {
    bool memoize = c.packrat && enable_memoize;
    uint64_t key = 0;
    size_t len = static_cast<size_t>(-1);
    std::any val;
    if (memoize) {
      key = ((state_fn() ? state_fn()(dt) : 0) << 34) ^ ((uint64_t)(s - c.s) * 1024 + id);
      auto it = c.memo.find(key);
      if (it != c.memo.end()) {
        if (success(it->second.len) && !ignoreSemanticValue)
          vs.emplace_back(it->second.val);
        return it->second.len;
      }
    }
    if (enter)
      enter(c, s, n, dt);
    {
      Scope sc(c);
      len = ope->parse(s, n, sc.vs, c, dt);
      if (success(len)) {
        sc.vs.sv_ = std::string_view(s, len);
        if (!ope->isChoice())
          sc.vs.choice_ = 0;
        std::string msg;
        if (predicate && !predicate(sc.vs, dt, msg)) {
          if (!msg.empty())
            c.message_at(s, msg);
          else
            c.fail_at(s);
          len = static_cast<size_t>(-1);
        }
        if (success(len)) {
          if (action)
            val = action(sc.vs, dt);
          else if (!sc.vs.empty())
            val = std::move(sc.vs.front());
        }
      }
    }
    if (leave)
      leave(c, s, n, len, val, dt);
    if (memoize)
      c.memo[key] = {len, success(len) ? val : std::any()};
    if (success(len) && !ignoreSemanticValue)
      vs.emplace_back(std::move(val));
    return len;
  }

  template <typename T>
  Result parse_and_get_value(const char *s, size_t n, std::any &dt, T &val,
                             const char *path = nullptr, Log log = nullptr) const {
    Context c(path, s, n, 4096, enablePackratParsing);
    SemanticValues vs;
    vs.path = path;
    vs.src = &c.src;
    auto len = parse(s, n, vs, c, dt);
    Result r{success(len), false, success(len) ? len : 0, c.error_info};
    if (r.ret && !vs.empty() && vs.front().has_value())
      val = std::any_cast<T>(vs[0]);
    return r;
  }
};

class LinkReferences {
public:
  Grammar &g;
  LinkReferences(Grammar &g, const std::vector<std::string> &) : g(g) {}
};

inline void Definition::accept(LinkReferences &v) { ope->link(v.g); }
inline void Reference::link(Grammar &gr) {
  auto it = gr.find(name);
  if (it == gr.end()) {
    std::cerr << "peglib stand-in: undefined rule " << name << "\n";
    std::abort();
  }
  rule = &it->second;
}
inline size_t Reference::parse(const char *s, size_t n, SemanticValues &vs, Context &c,
                               std::any &dt) const {
  return rule->parse(s, n, vs, c, dt);
}

template <typename... Args> OpePtr seq(Args &&...args) {
  auto r = std::make_shared<Sequence>();
  (r->opes.push_back(args), ...);
  return r;
}
template <typename... Args> OpePtr cho(Args &&...args) {
  auto r = std::make_shared<PrioritizedChoice>();
  (r->opes.push_back(args), ...);
  return r;
}
inline OpePtr zom(const OpePtr &o) {
  return std::make_shared<Repetition>(o, 0, std::numeric_limits<size_t>::max());
}
inline OpePtr oom(const OpePtr &o) {
  return std::make_shared<Repetition>(o, 1, std::numeric_limits<size_t>::max());
}
inline OpePtr opt(const OpePtr &o) { return std::make_shared<Repetition>(o, 0, 1); }
inline OpePtr rep(const OpePtr &o, size_t a, size_t b) {
  return std::make_shared<Repetition>(o, a, b);
}
inline OpePtr apd(const OpePtr &o) { return std::make_shared<Predicate>(o, true); }
inline OpePtr npd(const OpePtr &o) { return std::make_shared<Predicate>(o, false); }
inline OpePtr lit(std::string s) {
  return std::make_shared<LiteralString>(std::move(s), false);
}
inline OpePtr liti(std::string s) {
  return std::make_shared<LiteralString>(std::move(s), true);
}
inline OpePtr cls(std::vector<std::pair<char32_t, char32_t>> v) {
  return std::make_shared<CharacterClass>(std::move(v), false);
}
inline OpePtr ncls(std::vector<std::pair<char32_t, char32_t>> v) {
  return std::make_shared<CharacterClass>(std::move(v), true);
}
inline OpePtr dot() { return std::make_shared<AnyCharacter>(); }
inline OpePtr cut() { return std::make_shared<Cut>(); }
inline OpePtr tok(const OpePtr &o) { return std::make_shared<TokenBoundary>(o); }
inline OpePtr ign(const OpePtr &o) { return std::make_shared<Ignore>(o); }
inline OpePtr usr(Parser f) { return std::make_shared<User>(std::move(f)); }
inline OpePtr ref(Grammar &g, const std::string &name) {
  return std::make_shared<Reference>(g, name);
}

} // namespace peg
