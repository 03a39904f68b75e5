// Program explorer back end: loads the standard library once, then forks one child per job that
// parses, type checks, compiles and runs one program with the real pipeline.
//
// usage: mc [-m d|r|t|c|j] [-n] [-x pass]... [-j N] [-t SEC]  < jobs
//   d: debug; r: release; t: debug code generation with all release IR passes;
//   c: parse and type check only
//   j: JIT session (the program is cut into cells at lines "#%%")
//   -X: the passes of passes.h run after the compiler's own
// job line: <program path>\t<output path>\t<D or nothing>   (D: dump typechecked AST size only)
// for every job one line "<program path>\t<status>" follows on stdout; status is the exit code,
// or -signal.  Diagnostics go to the output file as "E:<file>:<line>:<col>:<message>" (exit 3).
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "codon/cir/llvm/llvisitor.h"
#include "codon/compiler/compiler.h"
#include "codon/compiler/error.h"
#include "codon/compiler/jit.h"
#include "codon/parser/ast.h"
#include "codon/parser/cache.h"
#include "codon/parser/common.h"
#include "codon/parser/ctx.h"
#include "codon/parser/peg/peg.h"
#include "codon/parser/visitors/scoping/scoping.h"
#include "codon/parser/visitors/translate/translate.h"
#include "codon/parser/visitors/visitor.h"
#include "codon/parser/visitors/typecheck/typecheck.h"

#include "passes.h"

using namespace codon;

static void report(const error::ParserErrorInfo &e) {
  for (auto &group : e.getErrors())
    for (auto &msg : group) {
      auto f = msg.getFile();
      auto p = f.rfind('/');
      if (p != std::string::npos)
        f = f.substr(p + 1);
      printf("E:%s:%d:%d:%s\n", f.c_str(), msg.getLine(), msg.getColumn(),
             msg.getMessage().c_str());
    }
  fflush(stdout);
}

static int runProgram(Compiler *compiler, ast::SuiteStmt *preamble,
                      const std::string &path, bool frontOnly) {
  auto *cache = compiler->getCache();
  std::string abspath = cache->fs->canonical(path);
  try {
    auto nodeOrErr = ast::parseFile(cache, abspath);
    if (!nodeOrErr)
      throw exc::ParserException(nodeOrErr.takeError());
    cache->fs->set_module0(path);
    auto *typechecked = ast::TypecheckVisitor::apply(cache, *nodeOrErr, abspath, {},
                                                     compiler->getEarlyDefines(), false);
    // the standard library was loaded by the parent: put its statements first
    auto *suite = cache->N<ast::SuiteStmt>();
    suite->addStmt(preamble);
    suite->addStmt(typechecked);
    if (frontOnly)
      return 0;
    ast::TranslateVisitor::apply(cache, suite);
  } catch (const exc::ParserException &exc) {
    llvm::handleAllErrors(llvm::make_error<error::ParserErrorInfo>(exc.getErrors()),
                          report);
    return 3;
  }
  compiler->getModule()->setSrcInfo({abspath, 0, 0, 0});
  llvm::cantFail(compiler->compile());
  compiler->getLLVMVisitor()->run({path});
  return 0;
}

static int runCells(jit::JIT *jit, const std::string &path) {
  std::ifstream f(path);
  std::string code, line;
  auto flush = [&] {
    if (code.empty())
      return;
    auto r = jit->execute(code);
    if (auto err = r.takeError())
      llvm::handleAllErrors(
          std::move(err), report,
          [](const error::RuntimeErrorInfo &e) {
            printf("R:%s\n", e.getType().c_str());
          });
    else
      printf("%s", r->c_str());
    printf("#%%%%\n");
    fflush(stdout);
    code.clear();
  };
  while (std::getline(f, line)) {
    if (line == "#%%")
      flush();
    else
      code += line + "\n";
  }
  flush();
  return 0;
}

int main(int argc, char **argv) {
  std::string mode = "d";
  bool pynum = false, passes = false;
  int jobs = 1, limit = 120;
  std::vector<std::string> disabled;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-m")
      mode = argv[++i];
    else if (a == "-n")
      pynum = true;
    else if (a == "-X")
      passes = true;
    else if (a == "-x")
      disabled.push_back(argv[++i]);
    else if (a == "-j")
      jobs = atoi(argv[++i]);
    else if (a == "-t")
      limit = atoi(argv[++i]);
  }
  rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  std::unique_ptr<Compiler> compiler;
  std::unique_ptr<jit::JIT> jit;
  ast::SuiteStmt *preamble = nullptr;
  if (mode == "j") {
    jit = std::make_unique<jit::JIT>(argv[0]);
  } else {
    compiler = std::make_unique<Compiler>(argv[0], mode != "r", disabled,
                                          /*isTest=*/mode == "t", pynum);
    if (passes)
      mc::registerPasses(compiler->getPassManager());
    compiler->getLLVMVisitor()->setStandalone(true);
    auto *cache = compiler->getCache();
    preamble = cache->N<ast::SuiteStmt>();
    try {
      ast::TypecheckVisitor::loadStdLibrary(cache, preamble, compiler->getEarlyDefines(),
                                            false);
    } catch (const exc::ParserException &exc) {
      llvm::handleAllErrors(llvm::make_error<error::ParserErrorInfo>(exc.getErrors()),
                            report);
      return 4;
    }
  }
  std::map<pid_t, std::string> running;
  auto reap = [&](bool block) {
    int st;
    pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG);
    if (p <= 0)
      return false;
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    printf("%s\t%d\n", running[p].c_str(), code);
    fflush(stdout);
    running.erase(p);
    return true;
  };
  std::string line;
  while (std::getline(std::cin, line)) {
    auto t = line.find('\t');
    if (t == std::string::npos)
      continue;
    auto path = line.substr(0, t), out = line.substr(t + 1);
    while ((int)running.size() >= jobs)
      reap(true);
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) {
      perror("fork");
      return 5;
    }
    if (p == 0) {
      alarm(limit);
      int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
      setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
      int nul = open("/dev/null", O_RDONLY);
      dup2(nul, 0);
      int rc;
      if (jit) {
        llvm::cantFail(jit->init());
        rc = runCells(jit.get(), path);
      } else {
        rc = runProgram(compiler.get(), preamble, path, mode == "c");
      }
      fflush(stdout);
      _exit(rc);
    }
    running[p] = path;
  }
  while (!running.empty())
    reap(true);
  fflush(stdout);
  _exit(0);
}
