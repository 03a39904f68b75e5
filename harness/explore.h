// Systematic enumeration by replaying choice sequences, and the protocol to checks/mclib.py.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

// Depth-first enumeration: run() calls choose(n) as often as it likes; explore() re-runs it for
// every sequence of answers.
struct Explorer {
  std::vector<unsigned> prefix, taken, width;
  unsigned pos = 0;
  size_t runs = 0;

  unsigned choose(unsigned n) {
    unsigned c = 0;
    if (pos < prefix.size()) {
      c = prefix[pos];
      if (c >= n) {
        fprintf(stderr, "replay diverged: choice %u of %u\n", c, n);
        abort();
      }
    }
    taken.push_back(c);
    width.push_back(n);
    pos++;
    return c;
  }

  bool next() { // advances to the next sequence; false if all were taken
    while (!taken.empty() && taken.back() + 1 >= width.back()) {
      taken.pop_back();
      width.pop_back();
    }
    if (taken.empty())
      return false;
    prefix = taken;
    prefix.back()++;
    return true;
  }

  template <typename F> size_t explore(F &&run) {
    prefix.clear();
    runs = 0;
    do {
      taken.clear();
      width.clear();
      pos = 0;
      run();
      runs++;
    } while (next());
    return runs;
  }
};

inline std::string escape(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '\n')
      r += "\\n";
    else
      r += c;
  }
  return r;
}

inline std::map<std::string, size_t> &counts() {
  static std::map<std::string, size_t> c;
  return c;
}
inline size_t &count(const std::string &k) { return counts()[k]; }

inline size_t &failures() {
  static size_t n = 0;
  return n;
}

inline void fail(const std::string &key, const std::string &detail) {
  if (failures()++ < 200) {
    printf("FAIL %s\t%s\n", key.c_str(), escape(detail).c_str());
    fflush(stdout);
  }
}

inline void sample(const std::string &s) {
  static int n = 0;
  if (n++ < 6) {
    printf("SAMPLE %s\n", escape(s).c_str());
    fflush(stdout);
  }
}

// Runs body(shard, shards) in n processes; their output is forwarded. A shard that dies is
// reported with the case it had announced through current().
inline char *&currentBuf() {
  static char *b = nullptr;
  return b;
}
inline void current(const std::string &s) {
  if (currentBuf()) {
    size_t n = std::min<size_t>(s.size(), 4000);
    memcpy(currentBuf(), s.data(), n);
    currentBuf()[n] = 0;
  }
}

} // namespace mc

#include <sys/mman.h>

namespace mc {

inline int shards(int n, const std::string &name, const std::function<void(int, int)> &body,
                  int limitSeconds = 800) {
  std::vector<pid_t> pids;
  std::vector<char *> bufs;
  std::vector<FILE *> outs;
  fflush(stdout);
  for (int i = 0; i < n; i++) {
    char *buf = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    buf[0] = 0;
    FILE *f = tmpfile();
    pid_t p = fork();
    if (p == 0) {
      currentBuf() = buf;
      dup2(fileno(f), 1);
      alarm(limitSeconds);
      body(i, n);
      for (auto &[k, v] : counts())
        printf("COUNT %s %zu\n", k.c_str(), v);
      fflush(stdout);
      _exit(0);
    }
    pids.push_back(p);
    bufs.push_back(buf);
    outs.push_back(f);
  }
  for (int i = 0; i < n; i++) {
    int st;
    waitpid(pids[i], &st, 0);
    rewind(outs[i]);
    char line[65536];
    while (fgets(line, sizeof line, outs[i]))
      fputs(line, stdout);
    fclose(outs[i]);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      std::string how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                        : "status " + std::to_string(WEXITSTATUS(st));
      printf("FAIL crash:%s\tdied with %s in: %s\n", name.c_str(), how.c_str(),
             escape(bufs[i]).c_str());
    }
  }
  printf("DONE\n");
  fflush(stdout);
  return 0;
}

} // namespace mc
