From 2a688af4d9247f10a438f34bddad337bd2aa35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 01/70] fix: break and continue in a loop's else clause belong
 to the enclosing loop

---
 codon/parser/visitors/typecheck/loops.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/codon/parser/visitors/typecheck/loops.cpp b/codon/parser/visitors/typecheck/loops.cpp
index a4a33cd..0bad938 100644
--- a/codon/parser/visitors/typecheck/loops.cpp
+++ b/codon/parser/visitors/typecheck/loops.cpp
@@ -84,14 +84,14 @@ void TypecheckVisitor::visit(WhileStmt *stmt) {
   stmt->suite = SuiteStmt::wrap(transform(stmt->getSuite()));
   ctx->blockLevel--;
   ctx->staticLoops.pop_back();
+  ctx->getBase()->loops.pop_back();
 
-  // Complete while-else clause
+  // Complete while-else clause (jumps there belong to the enclosing loop)
   if (stmt->getElse() && stmt->getElse()->firstInBlock()) {
     auto es = stmt->getElse();
     stmt->elseSuite = nullptr;
     resultStmt = transform(N<SuiteStmt>(stmt, N<IfStmt>(N<IdExpr>(breakVar), es)));
   }
-  ctx->getBase()->loops.pop_back();
 
   if (stmt->getCond()->isDone() && stmt->getSuite()->isDone())
     stmt->setDone();
@@ -198,8 +198,9 @@ void TypecheckVisitor::visit(ForStmt *stmt) {
 
   if (ctx->getBase()->getLoop()->flat)
     stmt->flat = true;
+  ctx->getBase()->loops.pop_back();
 
-  // Complete for-else clause
+  // Complete for-else clause (jumps there belong to the enclosing loop)
   if (stmt->getElse() && stmt->getElse()->firstInBlock()) {
     auto es = stmt->getElse();
     stmt->elseSuite = nullptr;
@@ -208,8 +209,6 @@ void TypecheckVisitor::visit(ForStmt *stmt) {
     stmt->elseSuite = nullptr;
   }
 
-  ctx->getBase()->loops.pop_back();
-
   if (stmt->getIter()->isDone() && stmt->getSuite()->isDone())
     stmt->setDone();
 }
-- 
2.43.0


From ba1e33c1e8a6760134fe82a010c89278c4d84aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 02/70] fix: leaving an except or else block runs the finally
 blocks on the way out

---
 codon/cir/llvm/llvisitor.cpp | 92 +++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/codon/cir/llvm/llvisitor.cpp b/codon/cir/llvm/llvisitor.cpp
index 189f59e..9e77116 100644
--- a/codon/cir/llvm/llvisitor.cpp
+++ b/codon/cir/llvm/llvisitor.cpp
@@ -6,6 +6,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <fmt/args.h>
+#include <optional>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <utility>
@@ -1477,6 +1478,10 @@ void LLVMVisitor::exitCatch() {
 }
 
 LLVMVisitor::TryCatchData *LLVMVisitor::getInnermostTryCatch() {
+  // an 'except' or 'else' block is outside of its 'try', but must reach its 'finally'
+  if (!finally.empty() && (trycatch.empty() || finally.back().sequenceNumber >
+                                                   trycatch.back().sequenceNumber))
+    return &finally.back();
   return trycatch.empty() ? nullptr : &trycatch.back();
 }
 
@@ -2719,6 +2724,16 @@ bool anyMatch(types::Type *type, std::vector<types::Type *> types) {
 } // namespace
 
 void LLVMVisitor::visit(const TryCatchFlow *x) {
+  // when in an 'except' or 'else' block that has a 'finally', leave through the latter
+  // instead of going directly to the surrounding 'try'
+  std::vector<TryCatchData> surrounding;
+  std::optional<TryCatchData> outer;
+  if (!finally.empty() && (trycatch.empty() || finally.back().sequenceNumber >
+                                                   trycatch.back().sequenceNumber)) {
+    surrounding.swap(trycatch);
+    outer = finally.back();
+  }
+
   const bool isRoot = trycatch.empty();
   const bool supportBreakAndContinue = !loops.empty();
   auto *finallyFlow = cast<SeriesFlow>(x->getFinally());
@@ -2810,8 +2825,7 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
 
     B->CreateStore(finallyCaughtResult, tc.catchStore);
     B->CreateStore(excStateRethrow, tc.excFlag);
-    auto *depthMax = B->getInt64(trycatch.size());
-    B->CreateStore(depthMax, tc.delegateDepth);
+    B->CreateStore(B->getInt64(0), tc.delegateDepth);
     B->CreateBr(tc.finallyBlock);
   } else {
     B->CreateUnreachable();
@@ -2829,7 +2843,14 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
         llvm::BasicBlock::Create(*context, "trycatch.finally.return", func);
     theSwitch->addCase(excStateReturn, finallyReturn);
     B->SetInsertPoint(finallyReturn);
-    if (coro.exit) {
+    if (outer) {
+      B->CreateStore(excStateReturn, outer->excFlag);
+      B->CreateStore(B->getInt64(0), outer->delegateDepth);
+      if (tc.retStore)
+        B->CreateStore(B->CreateLoad(func->getReturnType(), tc.retStore),
+                       outer->retStore);
+      B->CreateBr(outer->finallyBlock);
+    } else if (coro.exit) {
       B->CreateBr(coro.exit);
     } else if (tc.retStore) {
       auto *retVal = B->CreateLoad(func->getReturnType(), tc.retStore);
@@ -2842,7 +2863,9 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
   }
 
   if (supportBreakAndContinue) {
-    auto prevSeq = isRoot ? -1 : trycatch.back().sequenceNumber;
+    auto prevSeq = outer ? outer->sequenceNumber
+                         : (isRoot ? -1 : trycatch.back().sequenceNumber);
+    auto *prevFinallyBlock = isRoot ? nullptr : trycatch.back().finallyBlock;
 
     auto *finallyBreak =
         llvm::BasicBlock::Create(*context, "trycatch.finally.break", func);
@@ -2869,12 +2892,27 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
     auto *continueDoneSwitch =
         B->CreateSwitch(B->CreateLoad(B->getInt64Ty(), tc.loopSequence), endBlock, 0);
 
+    auto *prevBreak = prevFinallyBlock;
+    auto *prevContinue = prevFinallyBlock;
+    if (outer) {
+      auto delegate = [&](llvm::Value *state) {
+        auto *b = llvm::BasicBlock::Create(*context, "trycatch.finally.outer", func);
+        B->SetInsertPoint(b);
+        B->CreateStore(state, outer->excFlag);
+        B->CreateStore(B->getInt64(0), outer->delegateDepth);
+        B->CreateStore(B->CreateLoad(B->getInt64Ty(), tc.loopSequence),
+                       outer->loopSequence);
+        B->CreateBr(outer->finallyBlock);
+        return b;
+      };
+      prevBreak = delegate(excStateBreak);
+      prevContinue = delegate(excStateContinue);
+    }
+
     for (auto &l : loops) {
-      if (!trycatch.empty() && l.sequenceNumber < prevSeq) {
-        breakSwitch->addCase(B->getInt64(l.sequenceNumber),
-                             trycatch.back().finallyBlock);
-        continueSwitch->addCase(B->getInt64(l.sequenceNumber),
-                                trycatch.back().finallyBlock);
+      if (l.sequenceNumber < prevSeq) {
+        breakSwitch->addCase(B->getInt64(l.sequenceNumber), prevBreak);
+        continueSwitch->addCase(B->getInt64(l.sequenceNumber), prevContinue);
       } else {
         breakSwitch->addCase(B->getInt64(l.sequenceNumber), finallyBreakDone);
         breakDoneSwitch->addCase(B->getInt64(l.sequenceNumber), l.breakBlock);
@@ -2928,16 +2966,10 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
 
   // make sure we always get to finally block
   B->SetInsertPoint(block);
+  B->CreateStore(excStateNotThrown, tc.excFlag);
+  B->CreateStore(B->getInt64(0), tc.delegateDepth);
   B->CreateBr(tc.finallyBlock);
 
-  // resume if uncaught
-  B->SetInsertPoint(unwindResumeBlock);
-  if (DisableExceptions) {
-    B->CreateUnreachable();
-  } else {
-    B->CreateResume(B->CreateLoad(padType, tc.catchStore));
-  }
-
   // make sure we delegate to parent try-catch if necessary
   std::vector<types::Type *> catchTypesFull(tc.catchTypes);
   std::vector<llvm::BasicBlock *> handlersFull(tc.handlers);
@@ -2990,6 +3022,9 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
     if (caughtResult)
       caughtResult->addClause(tidx);
   }
+  // exceptions of all types go through the outer 'finally'
+  if (caughtResult && outer && !catchAll)
+    caughtResult->addClause(getTypeIdxVar(nullptr));
 
   auto *caughtResultOrUndef = caughtResult ? llvm::cast<llvm::Value>(caughtResult)
                                            : llvm::UndefValue::get(padType);
@@ -3062,12 +3097,30 @@ void LLVMVisitor::visit(const TryCatchFlow *x) {
       process(catches[i]->getHandler());
       exitCatch();
       B->SetInsertPoint(block);
+      B->CreateStore(excStateCaught, tc.excFlag);
+      B->CreateStore(B->getInt64(0), tc.delegateDepth);
       B->CreateBr(tc.finallyBlock);
     }
   }
 
   if (haveFinally)
     exitFinally();
+  if (outer)
+    trycatch.swap(surrounding);
+
+  // resume if uncaught, or go on with the outer 'finally' if there is one
+  B->SetInsertPoint(unwindResumeBlock);
+  if (DisableExceptions) {
+    B->CreateUnreachable();
+  } else if (outer) {
+    unwindException = B->CreateExtractValue(B->CreateLoad(padType, tc.catchStore), 0);
+    block = unwindResumeBlock;
+    call(makeThrowFunc(), unwindException);
+    B->SetInsertPoint(block);
+    B->CreateUnreachable();
+  } else {
+    B->CreateResume(B->CreateLoad(padType, tc.catchStore));
+  }
 
   // rethrow if handling 'finally' after exception raised from 'except'/'else'
   B->SetInsertPoint(rethrowBlock);
@@ -3360,6 +3413,7 @@ void LLVMVisitor::visit(const BreakInstr *x) {
     auto *tc = &finally.back();
     auto *excStateBreak = B->getInt8(TryCatchData::State::BREAK);
     B->CreateStore(excStateBreak, tc->excFlag);
+    B->CreateStore(B->getInt64(0), tc->delegateDepth);
     B->CreateStore(B->getInt64(loop->sequenceNumber), tc->loopSequence);
     B->CreateBr(tc->finallyBlock);
   }
@@ -3378,6 +3432,7 @@ void LLVMVisitor::visit(const ContinueInstr *x) {
     auto *tc = &finally.back();
     auto *excStateContinue = B->getInt8(TryCatchData::State::CONTINUE);
     B->CreateStore(excStateContinue, tc->excFlag);
+    B->CreateStore(B->getInt64(0), tc->delegateDepth);
     B->CreateStore(B->getInt64(loop->sequenceNumber), tc->loopSequence);
     B->CreateBr(tc->finallyBlock);
   }
@@ -3397,6 +3452,7 @@ void LLVMVisitor::visit(const ReturnInstr *x) {
     if (auto *tc = getInnermostTryCatch()) {
       auto *excStateReturn = B->getInt8(TryCatchData::State::RETURN);
       B->CreateStore(excStateReturn, tc->excFlag);
+      B->CreateStore(B->getInt64(0), tc->delegateDepth);
       B->CreateBr(tc->finallyBlock);
     } else {
       B->CreateBr(coro.exit);
@@ -3405,6 +3461,7 @@ void LLVMVisitor::visit(const ReturnInstr *x) {
     if (auto *tc = getInnermostTryCatch()) {
       auto *excStateReturn = B->getInt8(TryCatchData::State::RETURN);
       B->CreateStore(excStateReturn, tc->excFlag);
+      B->CreateStore(B->getInt64(0), tc->delegateDepth);
       if (tc->retStore) {
         seqassertn(value, "no return value storage");
         B->CreateStore(value, tc->retStore);
@@ -3433,6 +3490,7 @@ void LLVMVisitor::visit(const YieldInstr *x) {
     if (auto *tc = getInnermostTryCatch()) {
       auto *excStateReturn = B->getInt8(TryCatchData::State::RETURN);
       B->CreateStore(excStateReturn, tc->excFlag);
+      B->CreateStore(B->getInt64(0), tc->delegateDepth);
       B->CreateBr(tc->finallyBlock);
     } else {
       B->CreateBr(coro.exit);
-- 
2.43.0


From 9f2752264119bf6157347dd0f2e11972a8e969e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 03/70] fix: a while loop's body follows the end of its
 condition in the control-flow graph

---
 codon/cir/analyze/dataflow/cfg.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 6563f9a..1d7d808 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -195,11 +195,12 @@ void CFVisitor::visit(const WhileFlow *v) {
   auto *loopBegin = graph->newBlock("whileBegin", true);
   original->successors_insert(loopBegin);
   process(v->getCond());
-  graph->getCurrentBlock()->successors_insert(end);
+  auto *loopCheck = graph->getCurrentBlock();
+  loopCheck->successors_insert(end);
 
   loopStack.emplace_back(loopBegin, end, v->getId(), tryCatchStack.size() - 1);
   auto *body = graph->newBlock("whileBody", true);
-  loopBegin->successors_insert(body);
+  loopCheck->successors_insert(body);
   process(v->getBody());
   loopStack.pop_back();
   graph->getCurrentBlock()->successors_insert(loopBegin);
-- 
2.43.0


From e9990ef5b6b5c8adf436fafb36075e5fad6dea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 04/70] fix: the control-flow graph assigns an imperative for
 loop's variable only when the body is entered

---
 codon/cir/analyze/dataflow/cfg.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 1d7d808..764ca05 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -252,9 +252,6 @@ void CFVisitor::visit(const ImperativeForFlow *v) {
 
   auto *loopBegin = graph->newBlock("forBegin", true);
   original->successors_insert(loopBegin);
-  loopBegin->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
-      v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getStart()),
-      analyze::dataflow::SyntheticAssignInstr::KNOWN));
   process(v->getStart());
   process(v->getEnd());
 
@@ -262,14 +259,23 @@ void CFVisitor::visit(const ImperativeForFlow *v) {
   graph->getCurrentBlock()->successors_insert(loopCheck);
   loopCheck->successors_insert(end);
 
+  // the loop variable is assigned upon entering the body, i.e. not if there are no
+  // iterations
+  auto *loopInit = graph->newBlock("forInit");
+  loopInit->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
+      v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getStart()),
+      analyze::dataflow::SyntheticAssignInstr::KNOWN));
+  loopCheck->successors_insert(loopInit);
+
   auto *loopNext = graph->newBlock("forUpdate");
   loopNext->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
       v, const_cast<Var *>(v->getVar()), v->getStep()));
-  loopNext->successors_insert(loopCheck);
+  loopCheck->successors_insert(loopNext);
 
   loopStack.emplace_back(loopCheck, end, v->getId(), tryCatchStack.size() - 1);
   auto *loopBody = graph->newBlock("forBody", true);
-  loopCheck->successors_insert(loopBody);
+  loopInit->successors_insert(loopBody);
+  loopNext->successors_insert(loopBody);
   process(v->getBody());
   graph->getCurrentBlock()->successors_insert(loopCheck);
   loopStack.pop_back();
-- 
2.43.0


From b7b8fec94fd1b3070c5e88f801d228042c79d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 05/70] fix: advancing a for loop's iterator can throw in the
 control-flow graph

---
 codon/cir/analyze/dataflow/cfg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 764ca05..4c08e3a 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -231,6 +231,10 @@ void CFVisitor::visit(const ForFlow *v) {
       v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getIter()),
       analyze::dataflow::SyntheticAssignInstr::NEXT_VALUE));
 
+  // advancing the iterator can throw
+  if (!tryCatchStack.empty())
+    loopCheck->successors_insert(tryCatchStack.back().first);
+
   loopStack.emplace_back(loopCheck, end, v->getId(), tryCatchStack.size() - 1);
   auto *loopBody = graph->newBlock("forBody", true);
   loopNext->successors_insert(loopBody);
-- 
2.43.0


From 0cd133cf68204c0fe48d47d1770bf90f1771c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 06/70] fix: code after break or continue does not change the
 definitions the jump carries

---
 codon/cir/analyze/dataflow/cfg.cpp | 8 ++++++++
 codon/cir/analyze/dataflow/cfg.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 4c08e3a..38b0d2b 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -403,12 +403,14 @@ void CFVisitor::visit(const BreakInstr *v) {
   auto &loop = v->getLoop() ? findLoop(v->getLoop()->getId()) : loopStack.back();
   defaultJump(loop.end, loop.tcIndex);
   defaultInsert(v);
+  startBlock("afterBreak");
 }
 
 void CFVisitor::visit(const ContinueInstr *v) {
   auto &loop = v->getLoop() ? findLoop(v->getLoop()->getId()) : loopStack.back();
   defaultJump(loop.nextIt, loop.tcIndex);
   defaultInsert(v);
+  startBlock("afterContinue");
 }
 
 void CFVisitor::visit(const ReturnInstr *v) {
@@ -459,6 +461,12 @@ void CFVisitor::defaultInsert(const Value *v) {
   seenIds.insert(v->getId());
 }
 
+void CFVisitor::startBlock(const std::string &name) {
+  // code that follows a jump must not change the definitions the jump carries
+  auto *original = graph->getCurrentBlock();
+  original->successors_insert(graph->newBlock(name, true));
+}
+
 void CFVisitor::defaultJump(const CFBlock *cf, int newTcLevel) {
   int curTc = tryCatchStack.size() - 1;
 
diff --git a/codon/cir/analyze/dataflow/cfg.h b/codon/cir/analyze/dataflow/cfg.h
index 7a5d16a..c79ab0d 100644
--- a/codon/cir/analyze/dataflow/cfg.h
+++ b/codon/cir/analyze/dataflow/cfg.h
@@ -538,6 +538,7 @@ public:
   void defaultJump(const CFBlock *cf, int newTcLevel = -1);
 
 private:
+  void startBlock(const std::string &name);
   Loop &findLoop(id_t id);
 };
 
-- 
2.43.0


From d430e46584aebdfa93fc118cc328cc19460925c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 07/70] fix: structural matching honours varIdMatch, so d[k] =
 d.get(j, 0) + 1 is not taken for an update of d[k]

---
 codon/cir/util/matching.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index a93aed7..f8ba601 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -249,7 +249,7 @@ public:
     if (tx || ty)
       return tx && ty && tx->is(const_cast<types::Type *>(ty));
 
-    MatchVisitor v(checkName);
+    MatchVisitor v(checkName, varIdMatch);
     x->accept(v);
     y->accept(v);
 
@@ -284,7 +284,7 @@ const char AnyVar::NodeId = 0;
 const char AnyFunc::NodeId = 0;
 
 bool match(Node *a, Node *b, bool checkNames, bool varIdMatch) {
-  return MatchVisitor(checkNames).process(a, b);
+  return MatchVisitor(checkNames, varIdMatch).process(a, b);
 }
 
 } // namespace util
-- 
2.43.0


From f6161f6aca21948bd9b2b3408b3c37ae4a2b10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 08/70] fix: globals are demoted only to the main function,
 which runs once

---
 codon/cir/transform/cleanup/global_demote.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codon/cir/transform/cleanup/global_demote.cpp b/codon/cir/transform/cleanup/global_demote.cpp
index c13b09d..0e4cc39 100644
--- a/codon/cir/transform/cleanup/global_demote.cpp
+++ b/codon/cir/transform/cleanup/global_demote.cpp
@@ -51,6 +51,10 @@ void GlobalDemotionPass::run(Module *M) {
     if (!it.second || it.first->getId() == M->getArgVar()->getId() ||
         it.first->isExternal())
       continue;
+    // any other function can run several times, and the global keeps its value between
+    // (or during) those runs
+    if (it.second != M->getMainFunc())
+      continue;
     seqassertn(it.first->isGlobal(), "var was not global [{}]", it.first->getSrcInfo());
     it.first->setGlobal(false);
     if (auto *func = cast<BodiedFunc>(it.second)) {
-- 
2.43.0


From 0c6fb3bb45f300bbf9e67e3ad957cf46868b8bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 09/70] fix: asking a function for its types, or replacing one,
 does not recurse without end

---
 codon/cir/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codon/cir/func.cpp b/codon/cir/func.cpp
index 061f557..f0196ed 100644
--- a/codon/cir/func.cpp
+++ b/codon/cir/func.cpp
@@ -61,7 +61,7 @@ int Func::doReplaceUsedVariable(id_t id, Var *newVar) {
 std::vector<types::Type *> Func::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Var::getUsedTypes())
+  for (auto *t : Var::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   if (parentType)
@@ -71,7 +71,7 @@ std::vector<types::Type *> Func::doGetUsedTypes() const {
 }
 
 int Func::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::replaceUsedType(name, newType);
+  auto count = Var::doReplaceUsedType(name, newType);
   if (parentType && parentType->getName() == name) {
     parentType = newType;
     ++count;
@@ -110,7 +110,7 @@ const char LLVMFunc::NodeId = 0;
 std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Func::getUsedTypes())
+  for (auto *t : Func::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   for (auto &l : llvmLiterals)
@@ -121,7 +121,7 @@ std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
 }
 
 int LLVMFunc::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::doReplaceUsedType(name, newType);
+  auto count = Func::doReplaceUsedType(name, newType);
   for (auto &l : llvmLiterals)
     if (l.isType() && l.getTypeValue()->getName() == name) {
       l = newType;
-- 
2.43.0


From 58e5a1249541bf6fcfc3a713efea87983eae36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 10/70] fix: replacing a type or variable skips the except
 clauses without one

---
 codon/cir/flow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/cir/flow.cpp b/codon/cir/flow.cpp
index 172be5e..56af198 100644
--- a/codon/cir/flow.cpp
+++ b/codon/cir/flow.cpp
@@ -219,7 +219,7 @@ std::vector<types::Type *> TryCatchFlow::doGetUsedTypes() const {
 int TryCatchFlow::doReplaceUsedType(const std::string &name, types::Type *newType) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getType()->getName() == name) {
+    if (c.getType() && c.getType()->getName() == name) {
       c.setType(newType);
       ++count;
     }
@@ -239,7 +239,7 @@ std::vector<Var *> TryCatchFlow::doGetUsedVariables() const {
 int TryCatchFlow::doReplaceUsedVariable(id_t id, Var *newVar) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getVar()->getId() == id) {
+    if (c.getVar() && c.getVar()->getId() == id) {
       c.setVar(newVar);
       ++count;
     }
-- 
2.43.0


From 014029d03ab98860bd945b1475f495320389834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 11/70] fix: cloning a function keeps its parent type

---
 codon/cir/util/cloning.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codon/cir/util/cloning.cpp b/codon/cir/util/cloning.cpp
index 3ea1b2f..6571684 100644
--- a/codon/cir/util/cloning.cpp
+++ b/codon/cir/util/cloning.cpp
@@ -105,6 +105,7 @@ void CloneVisitor::visit(const BodiedFunc *v) {
   if (v->getBody())
     res->setBody(clone(v->getBody()));
   res->setJIT(v->isJIT());
+  res->setParentType(v->getParentType());
   result = res;
 }
 
@@ -126,6 +127,7 @@ void CloneVisitor::visit(const ExternalFunc *v) {
     ++argIt2;
   }
 
+  res->setParentType(v->getParentType());
   result = res;
 }
 
@@ -173,6 +175,7 @@ void CloneVisitor::visit(const LLVMFunc *v) {
   res->setLLVMDeclarations(v->getLLVMDeclarations());
   res->setLLVMLiterals(
       std::vector<types::Generic>(v->literal_begin(), v->literal_end()));
+  res->setParentType(v->getParentType());
   result = res;
 }
 
-- 
2.43.0


From 5984d1195ad62b972dc9f373ebaeca0ca6ead624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 12/70] fix: structural matching compares try, jumps,
 schedules, final and suspending yields, and names when asked

---
 codon/cir/util/matching.cpp | 50 +++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/codon/cir/util/matching.cpp b/codon/cir/util/matching.cpp
index f8ba601..2cba10d 100644
--- a/codon/cir/util/matching.cpp
+++ b/codon/cir/util/matching.cpp
@@ -16,7 +16,7 @@
       nodeId = &x::NodeId;                                                             \
       other = v;                                                                       \
     } else if (nodeId != &x::NodeId ||                                                 \
-               (!checkName && v->getName() != other->getName()))                       \
+               (checkName && v->getName() != other->getName()))                       \
       result = false;                                                                  \
     else                                                                               \
       handle(v, static_cast<const x *>(other));                                        \
@@ -34,10 +34,13 @@ private:
   bool result = false;
   const Node *other = nullptr;
   bool varIdMatch;
+  /// pairs of loops being compared, which the jumps in their bodies refer back to
+  std::vector<std::pair<id_t, id_t>> loops;
 
 public:
-  explicit MatchVisitor(bool checkName = false, bool varIdMatch = false)
-      : checkName(checkName), varIdMatch(varIdMatch) {}
+  explicit MatchVisitor(bool checkName = false, bool varIdMatch = false,
+                        std::vector<std::pair<id_t, id_t>> loops = {})
+      : checkName(checkName), varIdMatch(varIdMatch), loops(std::move(loops)) {}
 
   VISIT(Var);
   void handle(const Var *x, const Var *y) { result = compareVars(x, y); }
@@ -103,22 +106,27 @@ public:
 
   VISIT(WhileFlow);
   void handle(const WhileFlow *x, const WhileFlow *y) {
+    loops.emplace_back(x->getId(), y->getId());
     result = process(x->getCond(), y->getCond()) && process(x->getBody(), y->getBody());
   }
   VISIT(ForFlow);
   void handle(const ForFlow *x, const ForFlow *y) {
+    loops.emplace_back(x->getId(), y->getId());
     result = (x->isAsync() == y->isAsync()) && process(x->getIter(), y->getIter()) &&
-             process(x->getBody(), y->getBody()) && process(x->getVar(), y->getVar());
+             process(x->getBody(), y->getBody()) && process(x->getVar(), y->getVar()) &&
+             compareSchedules(x->getSchedule(), y->getSchedule());
   }
   VISIT(ImperativeForFlow);
   void handle(const ImperativeForFlow *x, const ImperativeForFlow *y) {
+    loops.emplace_back(x->getId(), y->getId());
     result = process(x->getVar(), y->getVar()) && process(x->getBody(), y->getBody()) &&
              process(x->getStart(), y->getStart()) && x->getStep() == y->getStep() &&
-             process(x->getEnd(), y->getEnd());
+             process(x->getEnd(), y->getEnd()) &&
+             compareSchedules(x->getSchedule(), y->getSchedule());
   }
   VISIT(TryCatchFlow);
   void handle(const TryCatchFlow *x, const TryCatchFlow *y) {
-    result = result && process(x->getElse(), y->getElse()) &&
+    result = process(x->getElse(), y->getElse()) &&
              process(x->getFinally(), y->getFinally()) &&
              process(x->getBody(), y->getBody()) &&
              std::equal(x->begin(), x->end(), y->begin(), y->end(),
@@ -194,7 +202,8 @@ public:
   }
   VISIT(YieldInInstr);
   void handle(const YieldInInstr *x, const YieldInInstr *y) {
-    result = process(x->getType(), y->getType());
+    result = process(x->getType(), y->getType()) &&
+             x->isSuspending() == y->isSuspending();
   }
   VISIT(TernaryInstr);
   void handle(const TernaryInstr *x, const TernaryInstr *y) {
@@ -204,11 +213,11 @@ public:
   }
   VISIT(BreakInstr);
   void handle(const BreakInstr *x, const BreakInstr *y) {
-    result = process(x->getLoop(), y->getLoop());
+    result = compareTargets(x->getLoop(), y->getLoop());
   }
   VISIT(ContinueInstr);
   void handle(const ContinueInstr *x, const ContinueInstr *y) {
-    result = process(x->getLoop(), y->getLoop());
+    result = compareTargets(x->getLoop(), y->getLoop());
   }
   VISIT(ReturnInstr);
   void handle(const ReturnInstr *x, const ReturnInstr *y) {
@@ -216,7 +225,7 @@ public:
   }
   VISIT(YieldInstr);
   void handle(const YieldInstr *x, const YieldInstr *y) {
-    result = process(x->getValue(), y->getValue());
+    result = process(x->getValue(), y->getValue()) && x->isFinal() == y->isFinal();
   }
   VISIT(AwaitInstr);
   void handle(const AwaitInstr *x, const AwaitInstr *y) {
@@ -249,7 +258,7 @@ public:
     if (tx || ty)
       return tx && ty && tx->is(const_cast<types::Type *>(ty));
 
-    MatchVisitor v(checkName, varIdMatch);
+    MatchVisitor v(checkName, varIdMatch, loops);
     x->accept(v);
     y->accept(v);
 
@@ -257,6 +266,25 @@ public:
   }
 
 private:
+  bool compareTargets(const Value *x, const Value *y) const {
+    if (!x || !y)
+      return !x && !y;
+    for (auto &p : loops) {
+      if (p.first == x->getId() || p.second == y->getId())
+        return p.first == x->getId() && p.second == y->getId();
+    }
+    return process(x, y);
+  }
+
+  bool compareSchedules(const transform::parallel::OMPSched *x,
+                        const transform::parallel::OMPSched *y) const {
+    if (!x || !y)
+      return !x && !y;
+    return x->code == y->code && x->dynamic == y->dynamic &&
+           process(x->threads, y->threads) && process(x->chunk, y->chunk) &&
+           x->ordered == y->ordered && x->collapse == y->collapse && x->gpu == y->gpu;
+  }
+
   bool compareVars(const Var *x, const Var *y) const {
     return process(x->getType(), y->getType()) &&
            (!varIdMatch || x->getId() == y->getId());
-- 
2.43.0


From fdedd8c2ca51389d48b8657555d7fd0d49d98265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 13/70] fix: folding x * 0 and 0 // x keeps the other operand's
 side effects

---
 codon/cir/transform/folding/const_fold.cpp |  5 +++--
 codon/cir/transform/folding/rule.h         | 14 +++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 1146d9a..c3eb07d 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -236,8 +236,9 @@ void FoldingPass::registerStandardRules(Module *m) {
   registerRule(
       "int-floor-div-by-one",
       intSingleRule(m, 1, id_val(m), Module::FLOOR_DIV_MAGIC_NAME, Kind::RIGHT));
-  registerRule("int-zero-floor-div",
-               intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
+  if (!pyNumerics) // 0 // x can raise with Python numerics
+    registerRule("int-zero-floor-div",
+                 intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
   registerRule("int-pos", intNoOp(m, Module::POS_MAGIC_NAME));
   registerRule("int-double-neg", intDoubleApplyNoOp(m, Module::NEG_MAGIC_NAME));
   registerRule("int-double-inv", intDoubleApplyNoOp(m, Module::INVERT_MAGIC_NAME));
diff --git a/codon/cir/transform/folding/rule.h b/codon/cir/transform/folding/rule.h
index 16b1fe8..fe20e8a 100644
--- a/codon/cir/transform/folding/rule.h
+++ b/codon/cir/transform/folding/rule.h
@@ -32,6 +32,8 @@ private:
   Calculator calc;
   /// left, right or commutative
   Kind kind;
+  /// true if the other operand is discarded
+  bool discard = false;
 
 public:
   /// Constructs a commutative rule.
@@ -42,7 +44,7 @@ public:
   /// @param type the matched type
   SingleConstantCommutativeRule(ConstantType val, ConstantType newVal,
                                 std::string magic, Kind kind, types::Type *type)
-      : val(val), type(type), magic(std::move(magic)), kind(kind) {
+      : val(val), type(type), magic(std::move(magic)), kind(kind), discard(true) {
     calc = [=](Value *v) -> Value * {
       return v->getModule()->N<TemplatedConst<ConstantType>>(v->getSrcInfo(), val,
                                                              type);
@@ -72,12 +74,18 @@ public:
     auto *rightConst = cast<TemplatedConst<ConstantType>>(right);
 
     if ((kind == Kind::COMMUTATIVE || kind == Kind::LEFT) && leftConst &&
-        leftConst->getVal() == val)
+        leftConst->getVal() == val && canDiscard(right))
       return setResult(calc(right));
     if ((kind == Kind::COMMUTATIVE || kind == Kind::RIGHT) && rightConst &&
-        rightConst->getVal() == val)
+        rightConst->getVal() == val && canDiscard(left))
       return setResult(calc(left));
   }
+
+private:
+  /// The other operand may have side effects, unless it is just read.
+  bool canDiscard(Value *other) const {
+    return !discard || isA<Const>(other) || isA<VarValue>(other);
+  }
 };
 
 /// Binary rule that requires two constants.
-- 
2.43.0


From 31150f0672a426d95c40f56bc00a423af7724f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 14/70] fix: list addition is not delayed past operands that
 may change the lists

---
 codon/cir/transform/pythonic/list.cpp | 38 ++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/codon/cir/transform/pythonic/list.cpp b/codon/cir/transform/pythonic/list.cpp
index 35fa800..1dcf7ca 100644
--- a/codon/cir/transform/pythonic/list.cpp
+++ b/codon/cir/transform/pythonic/list.cpp
@@ -213,8 +213,44 @@ void inspect(Value *v, InspectionResult &r) {
   }
 }
 
+// Whether evaluating the given value cannot change any list.
+bool isSimple(Value *v) {
+  if (isA<Const>(v) || isA<VarValue>(v))
+    return true;
+  if (auto *e = cast<ExtractInstr>(v))
+    return isSimple(e->getVal());
+  auto *c = cast<CallInstr>(v);
+  if (!c)
+    return false;
+  auto *func = util::getFunc(c->getCallee());
+  if (!func)
+    return false;
+  bool isSliceNew = isSlice(v) && func->getUnmangledName() == Module::NEW_MAGIC_NAME;
+  bool isSliceOf = func->getUnmangledName() == Module::GETITEM_MAGIC_NAME &&
+                   c->numArgs() == 2 && isList(c->front()) && isSlice(c->back());
+  return (isSliceNew || isSliceOf) && std::all_of(c->begin(), c->end(), isSimple);
+}
+
+// Lists are copied only after all operands have been evaluated, so an operand that might
+// change a list must not follow a slice, or an addition.
+bool canDelayCopy(const std::vector<Value *> &args) {
+  bool slice = false;
+  for (size_t i = 0; i < args.size(); i++) {
+    auto *v = args[i];
+    auto *ty = v->getType();
+    bool simple = isSimple(v);
+    if (auto *attr = v->getAttribute<ListLiteralAttribute>())
+      simple = std::all_of(attr->elements.begin(), attr->elements.end(),
+                           [](auto &e) { return !e.star && isSimple(e.value); });
+    if (!simple && (slice || i > 1))
+      return false;
+    slice = slice || bool(SliceHandler::get(v, ty));
+  }
+  return true;
+}
+
 Value *optimize(BodiedFunc *parent, InspectionResult &r) {
-  if (!r.valid || r.args.size() <= 1)
+  if (!r.valid || r.args.size() <= 1 || !canDelayCopy(r.args))
     return nullptr;
 
   auto *M = parent->getModule();
-- 
2.43.0


From 7af5b3162dc69254365145847aa4860d6f2ea3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 15/70] fix: a dictionary update reads the dictionary before
 its operand is evaluated, and adds no key when the operation raises

---
 codon/cir/transform/pythonic/dict.cpp        | 8 +++++++-
 stdlib/internal/types/collections/dict.codon | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/codon/cir/transform/pythonic/dict.cpp b/codon/cir/transform/pythonic/dict.cpp
index 583a9f3..a55d6c7 100644
--- a/codon/cir/transform/pythonic/dict.cpp
+++ b/codon/cir/transform/pythonic/dict.cpp
@@ -104,8 +104,14 @@ void DictArithmeticOptimization::handle(CallInstr *v) {
     if (!getAnalysis.func)
       return;
 
-    // second argument can be any non-null value
+    // second argument will be evaluated before the dictionary is read, so it must not be
+    // able to change it
     auto *secondValue = opCall->back();
+    auto *inner = secondValue;
+    while (auto *e = cast<ExtractInstr>(inner))
+      inner = e->getVal();
+    if (!isA<Const>(inner) && !isA<VarValue>(inner))
+      return;
 
     // verify that we are dealing with the same dictionary and key
     if (util::match(dictValue, getAnalysis.dict, false, true) &&
diff --git a/stdlib/internal/types/collections/dict.codon b/stdlib/internal/types/collections/dict.codon
index b9d3fff..81b2b90 100644
--- a/stdlib/internal/types/collections/dict.codon
+++ b/stdlib/internal/types/collections/dict.codon
@@ -194,8 +194,13 @@ class Dict:
             self._vals[x] = op(self._vals[x], other)
 
     def __dict_do_op__(self, key: K, other: Z, dflt: V, op: F, F: type, Z: type):
-        ret, x = self._kh_put(key)
-        self._vals[x] = op(dflt if ret != 0 else self._vals[x], other)
+        x = self._kh_get(key)
+        if x == self._kh_end():
+            v = op(dflt, other)  # may raise
+            ret, x = self._kh_put(key)
+            self._vals[x] = v
+        else:
+            self._vals[x] = op(self._vals[x], other)
 
     def update(self, other):
         if isinstance(other, Dict[K, V]):
-- 
2.43.0


From 9265a0aa6bae2cf9f61dfeeee7d7a94930f78975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 16/70] fix: the value of a return in an outlined region is
 computed in the region

---
 codon/cir/util/outlining.cpp | 41 ++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/codon/cir/util/outlining.cpp b/codon/cir/util/outlining.cpp
index f8f5e35..486f8bf 100644
--- a/codon/cir/util/outlining.cpp
+++ b/codon/cir/util/outlining.cpp
@@ -18,12 +18,14 @@ struct OutlineReplacer : public Operator {
   std::unordered_set<id_t> &modVars;
   std::vector<std::pair<Var *, Var *>> &remap;
   std::vector<Value *> &outFlows;
+  Var *returnVar; // holds the value of returns in the region, or null
   CloneVisitor cv;
 
   OutlineReplacer(Module *M, std::unordered_set<id_t> &modVars,
                   std::vector<std::pair<Var *, Var *>> &remap,
-                  std::vector<Value *> &outFlows)
-      : Operator(), modVars(modVars), remap(remap), outFlows(outFlows), cv(M, false) {}
+                  std::vector<Value *> &outFlows, Var *returnVar)
+      : Operator(), modVars(modVars), remap(remap), outFlows(outFlows),
+        returnVar(returnVar), cv(M, false) {}
 
   // Replace all used vars based on remapping.
   void postHook(Node *node) override {
@@ -55,7 +57,25 @@ struct OutlineReplacer : public Operator {
     }
   }
 
-  void handle(ReturnInstr *v) override { replaceOutFlowWithReturn(v); }
+  // The value of a return is computed where the return is, and handed to the call
+  // site: there, the region's variables and handlers are not available anymore.
+  void handle(ReturnInstr *v) override {
+    if (!v->getValue()) {
+      replaceOutFlowWithReturn(v);
+      return;
+    }
+
+    auto *M = v->getModule();
+    for (unsigned i = 0; i < outFlows.size(); i++) {
+      if (outFlows[i]->getId() == v->getId()) {
+        auto *store =
+            util::ptrStore(M->Nr<VarValue>(mappedVar(returnVar)), v->getValue());
+        outFlows[i] = M->N<ReturnInstr>(v->getSrcInfo(), M->Nr<VarValue>(returnVar));
+        v->replaceAll(util::series(store, M->Nr<ReturnInstr>(M->getInt(i + 1))));
+        break;
+      }
+    }
+  }
 
   void handle(BreakInstr *v) override { replaceOutFlowWithReturn(v); }
 
@@ -300,6 +320,19 @@ struct Outliner : public Operator {
     auto shared = getSharedVars();
     shared.insert(globalsToOutline.begin(), globalsToOutline.end());
     auto mod = getModVars();
+    Var *returnVar = nullptr;
+    if (allowOutflows) {
+      for (auto *flow : outFlows) {
+        auto *ret = cast<ReturnInstr>(flow);
+        if (ret && ret->getValue()) {
+          returnVar = M->Nr<Var>(ret->getValue()->getType());
+          parent->push_back(returnVar);
+          shared.insert(returnVar->getId());
+          mod.insert(returnVar->getId());
+          break;
+        }
+      }
+    }
     for (auto id : shared) {
       Var *var = M->getVar(id);
       seqassertn(var, "unknown var id [{}]", var->getSrcInfo());
@@ -349,7 +382,7 @@ struct Outliner : public Operator {
     outlinedFunc->setBody(body);
 
     // Replace vars and externally-handled flows.
-    OutlineReplacer outRep(M, mod, remap, outFlows);
+    OutlineReplacer outRep(M, mod, remap, outFlows, returnVar);
     body->accept(outRep);
 
     // Determine arguments for call to outlined function.
-- 
2.43.0


From 2194c76efc7cb6edbece03f56675fcad0ea1dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 17/70] fix: arguments of an inlined recursive call keep
 referring to the caller's variables

---
 codon/cir/util/inlining.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codon/cir/util/inlining.cpp b/codon/cir/util/inlining.cpp
index b953982..9afc47d 100644
--- a/codon/cir/util/inlining.cpp
+++ b/codon/cir/util/inlining.cpp
@@ -82,11 +82,18 @@ InlineResult inlineFunction(Func *func, std::vector<Value *> args, bool aggressi
   util::CloneVisitor cv(M);
   auto *newFlow = M->N<SeriesFlow>(info, bodied->getName() + "_inlined");
 
+  // Arguments belong to the call site: if that is the function itself, they refer to its
+  // own variables and not to the copies made below.
+  util::CloneVisitor argCv(M);
+  std::vector<Value *> newArgs;
+  for (auto *arg : args)
+    newArgs.push_back(argCv.clone(arg));
+
   std::vector<Var *> newVars;
   auto arg_it = bodied->arg_begin();
   for (auto i = 0; i < args.size(); ++i) {
     newVars.push_back(cv.forceClone(*arg_it++));
-    newFlow->push_back(M->N<AssignInstr>(info, newVars.back(), cv.clone(args[i])));
+    newFlow->push_back(M->N<AssignInstr>(info, newVars.back(), newArgs[i]));
   }
   for (auto *v : *bodied) {
     newVars.push_back(cv.forceClone(v));
-- 
2.43.0


From 89696f0545e77718d0e61c1f49c7502b6f96e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 18/70] fix: list addition with operands that may change the
 lists, and d[k] += d[j], are optimised again, in order

---
 codon/cir/transform/pythonic/dict.cpp |  22 +++--
 codon/cir/transform/pythonic/list.cpp | 111 ++++++++++++++------------
 2 files changed, 77 insertions(+), 56 deletions(-)

diff --git a/codon/cir/transform/pythonic/dict.cpp b/codon/cir/transform/pythonic/dict.cpp
index a55d6c7..fb69623 100644
--- a/codon/cir/transform/pythonic/dict.cpp
+++ b/codon/cir/transform/pythonic/dict.cpp
@@ -61,6 +61,14 @@ GetCall analyzeGet(CallInstr *call) {
   // call is not correct
   return {};
 }
+
+/// @param v the value
+/// @return true if evaluating the value just reads variables and their fields
+bool isSimple(Value *v) {
+  while (auto *e = cast<ExtractInstr>(v))
+    v = e->getVal();
+  return isA<Const>(v) || isA<VarValue>(v);
+}
 } // namespace
 
 const std::string DictArithmeticOptimization::KEY = "core-pythonic-dict-arithmetic-opt";
@@ -107,11 +115,15 @@ void DictArithmeticOptimization::handle(CallInstr *v) {
     // second argument will be evaluated before the dictionary is read, so it must not be
     // able to change it
     auto *secondValue = opCall->back();
-    auto *inner = secondValue;
-    while (auto *e = cast<ExtractInstr>(inner))
-      inner = e->getVal();
-    if (!isA<Const>(inner) && !isA<VarValue>(inner))
-      return;
+    if (!isSimple(secondValue)) {
+      auto *secondCall = cast<CallInstr>(secondValue);
+      if (!secondCall)
+        return;
+      auto secondAnalysis = analyzeGet(secondCall);
+      if (!secondAnalysis.func || !isSimple(secondAnalysis.dict) ||
+          !isSimple(secondAnalysis.key))
+        return;
+    }
 
     // verify that we are dealing with the same dictionary and key
     if (util::match(dictValue, getAnalysis.dict, false, true) &&
diff --git a/codon/cir/transform/pythonic/list.cpp b/codon/cir/transform/pythonic/list.cpp
index 1dcf7ca..50d889b 100644
--- a/codon/cir/transform/pythonic/list.cpp
+++ b/codon/cir/transform/pythonic/list.cpp
@@ -190,6 +190,27 @@ std::unique_ptr<ElementHandler> ElementHandler::get(Value *v, types::Type *ty) {
   return DefaultHandler::get(v, ty);
 }
 
+// Whether evaluating the given value cannot change any list.
+bool isSimple(Value *v) {
+  if (isA<Const>(v) || isA<VarValue>(v))
+    return true;
+  if (auto *e = cast<ExtractInstr>(v))
+    return isSimple(e->getVal());
+  if (auto *attr = v->getAttribute<ListLiteralAttribute>())
+    return std::all_of(attr->elements.begin(), attr->elements.end(),
+                       [](auto &e) { return !e.star && isSimple(e.value); });
+  auto *c = cast<CallInstr>(v);
+  if (!c)
+    return false;
+  auto *func = util::getFunc(c->getCallee());
+  if (!func)
+    return false;
+  bool isSliceNew = isSlice(v) && func->getUnmangledName() == Module::NEW_MAGIC_NAME;
+  bool isSliceOf = func->getUnmangledName() == Module::GETITEM_MAGIC_NAME &&
+                   c->numArgs() == 2 && isList(c->front()) && isSlice(c->back());
+  return (isSliceNew || isSliceOf) && std::all_of(c->begin(), c->end(), isSimple);
+}
+
 struct InspectionResult {
   bool valid = true;
   std::vector<Value *> args;
@@ -203,7 +224,13 @@ void inspect(Value *v, InspectionResult &r) {
       if (func && func->getUnmangledName() == Module::ADD_MAGIC_NAME &&
           c->numArgs() == 2 && isList(c->front()) && isList(c->back())) {
         inspect(c->front(), r);
-        inspect(c->back(), r);
+        // an addition on the right comes before the one on the left
+        InspectionResult right;
+        inspect(c->back(), right);
+        if (right.valid && std::all_of(right.args.begin(), right.args.end(), isSimple))
+          r.args.insert(r.args.end(), right.args.begin(), right.args.end());
+        else
+          r.args.push_back(c->back());
         return;
       }
     }
@@ -213,56 +240,10 @@ void inspect(Value *v, InspectionResult &r) {
   }
 }
 
-// Whether evaluating the given value cannot change any list.
-bool isSimple(Value *v) {
-  if (isA<Const>(v) || isA<VarValue>(v))
-    return true;
-  if (auto *e = cast<ExtractInstr>(v))
-    return isSimple(e->getVal());
-  auto *c = cast<CallInstr>(v);
-  if (!c)
-    return false;
-  auto *func = util::getFunc(c->getCallee());
-  if (!func)
-    return false;
-  bool isSliceNew = isSlice(v) && func->getUnmangledName() == Module::NEW_MAGIC_NAME;
-  bool isSliceOf = func->getUnmangledName() == Module::GETITEM_MAGIC_NAME &&
-                   c->numArgs() == 2 && isList(c->front()) && isSlice(c->back());
-  return (isSliceNew || isSliceOf) && std::all_of(c->begin(), c->end(), isSimple);
-}
-
-// Lists are copied only after all operands have been evaluated, so an operand that might
-// change a list must not follow a slice, or an addition.
-bool canDelayCopy(const std::vector<Value *> &args) {
-  bool slice = false;
-  for (size_t i = 0; i < args.size(); i++) {
-    auto *v = args[i];
-    auto *ty = v->getType();
-    bool simple = isSimple(v);
-    if (auto *attr = v->getAttribute<ListLiteralAttribute>())
-      simple = std::all_of(attr->elements.begin(), attr->elements.end(),
-                           [](auto &e) { return !e.star && isSimple(e.value); });
-    if (!simple && (slice || i > 1))
-      return false;
-    slice = slice || bool(SliceHandler::get(v, ty));
-  }
-  return true;
-}
-
-Value *optimize(BodiedFunc *parent, InspectionResult &r) {
-  if (!r.valid || r.args.size() <= 1 || !canDelayCopy(r.args))
-    return nullptr;
-
+// Appends code for the sum of the given operands, and returns the variable with it.
+Var *sum(const std::vector<std::unique_ptr<ElementHandler>> &handlers, types::Type *ty,
+         SeriesFlow *opt, BodiedFunc *parent) {
   auto *M = parent->getModule();
-  auto *ty = r.args[0]->getType();
-  util::CloneVisitor cv(M);
-  std::vector<std::unique_ptr<ElementHandler>> handlers;
-
-  for (auto *v : r.args) {
-    handlers.push_back(ElementHandler::get(cv.clone(v), ty));
-  }
-
-  auto *opt = M->Nr<SeriesFlow>();
   auto *len = util::makeVar(M->getInt(0), opt, parent);
 
   for (auto &h : handlers) {
@@ -281,7 +262,35 @@ Value *optimize(BodiedFunc *parent, InspectionResult &r) {
     opt->push_back(h->append(M->Nr<VarValue>(result)));
   }
 
-  return M->Nr<FlowInstr>(opt, M->Nr<VarValue>(result));
+  return result;
+}
+
+Value *optimize(BodiedFunc *parent, InspectionResult &r) {
+  if (!r.valid || r.args.size() <= 1)
+    return nullptr;
+
+  auto *M = parent->getModule();
+  auto *ty = r.args[0]->getType();
+  util::CloneVisitor cv(M);
+  std::vector<std::unique_ptr<ElementHandler>> handlers;
+
+  auto *opt = M->Nr<SeriesFlow>();
+  bool slice = false;
+
+  for (auto *v : r.args) {
+    // Lists are copied only after all operands have been evaluated, so if an operand
+    // might change a list, the slices and additions before it must come first.
+    if (!isSimple(v) && (slice || handlers.size() > 1)) {
+      auto *result = sum(handlers, ty, opt, parent);
+      handlers.clear();
+      handlers.push_back(std::make_unique<DefaultHandler>(M->Nr<VarValue>(result)));
+      slice = false;
+    }
+    slice = slice || bool(SliceHandler::get(v, ty));
+    handlers.push_back(ElementHandler::get(cv.clone(v), ty));
+  }
+
+  return M->Nr<FlowInstr>(opt, M->Nr<VarValue>(sum(handlers, ty, opt, parent)));
 }
 } // namespace
 
-- 
2.43.0


From 353e696dfb0cb85533d9bb98bb9bbadf940b30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 19/70] fix: capture analysis follows aliases made before and
 after a change, in loops too

---
 codon/cir/analyze/dataflow/capture.cpp | 192 ++++++++++++++-----------
 1 file changed, 105 insertions(+), 87 deletions(-)

diff --git a/codon/cir/analyze/dataflow/capture.cpp b/codon/cir/analyze/dataflow/capture.cpp
index ce40a45..970de58 100644
--- a/codon/cir/analyze/dataflow/capture.cpp
+++ b/codon/cir/analyze/dataflow/capture.cpp
@@ -24,14 +24,6 @@ template <typename S, typename T> bool contains(const S &x, T i) {
   return false;
 }
 
-template <typename S, typename T> bool containsId(const S &x, T i) {
-  for (auto a : x) {
-    if (a->getId() == i->getId())
-      return true;
-  }
-  return false;
-}
-
 template <typename T> bool shouldTrack(const T *x) {
   // We only care about things with pointers,
   // since you can't capture primitive types
@@ -43,7 +35,13 @@ template <> bool shouldTrack(const types::Type *x) { return x && !x->isAtomic();
 
 struct CaptureContext;
 
-bool extractVars(CaptureContext &cc, const Value *v, std::vector<const Var *> &result);
+// A variable and where it is used.
+struct VarUse {
+  const Var *var;
+  const Value *loc;
+};
+
+bool extractVars(CaptureContext &cc, const Value *v, std::vector<VarUse> &result);
 
 bool reachable(CFBlock *start, CFBlock *end, std::unordered_set<CFBlock *> &seen) {
   if (start == end)
@@ -61,18 +59,25 @@ bool reachable(CFBlock *start, CFBlock *end, std::unordered_set<CFBlock *> &seen
   return false;
 }
 
-// Check if one value must always be encountered before another, if
-// it is to be encountered at all. This is NOT the same as domination
-// since we can have "(if _: B) ; A", where B does not dominate A yet
-// must always occur before A is it does occur.
-bool happensBefore(const Value *before, const Value *after, CFGraph *cfg,
-                   DominatorInspector *dom) {
+// Check if every execution of one value comes before every execution of another.
+// This is NOT the same as domination since we can have "(if _: B) ; A", where B does
+// not dominate A yet must always occur before A if it does occur, and since in a loop
+// a value also occurs after those it dominates.
+bool happensBefore(const Value *before, const Value *after, CFGraph *cfg) {
   auto *beforeBlock = cfg->getBlock(before);
   auto *afterBlock = cfg->getBlock(after);
 
   if (!beforeBlock || !afterBlock)
     return false;
 
+  // There must be no path from 'after' to 'before'.
+  std::unordered_set<CFBlock *> seen;
+  for (auto it = afterBlock->successors_begin(); it != afterBlock->successors_end();
+       ++it) {
+    if (reachable(*it, beforeBlock, seen))
+      return false;
+  }
+
   // If values are in the same block we just need to see
   // which one shows up first.
   if (beforeBlock == afterBlock) {
@@ -86,11 +91,7 @@ bool happensBefore(const Value *before, const Value *after, CFGraph *cfg,
     return false;
   }
 
-  // If we have different blocks, then either 'before' dominates
-  // 'after', in which case the answer is true, or there must be
-  // no paths from 'afterBlock' to 'beforeBlock'.
-  std::unordered_set<CFBlock *> seen;
-  return dom->isDominated(after, before) || !reachable(afterBlock, beforeBlock, seen);
+  return true;
 }
 
 struct RDManager {
@@ -126,11 +127,17 @@ struct RDManager {
 };
 
 struct DerivedSet {
+  // A point at which a variable holds a derived value, and what made the value derived
+  struct Derivation {
+    const Value *loc;
+    const Value *cause;
+  };
+
   const Func *func;
   const Var *root;
   std::vector<id_t> args;
   std::unordered_set<id_t> derivedVals;
-  std::unordered_map<id_t, std::vector<const Value *>> derivedVars;
+  std::unordered_map<id_t, std::vector<Derivation>> derivedVars;
   CaptureInfo result;
 
   void setReturnCaptured() {
@@ -159,8 +166,8 @@ struct DerivedSet {
     // at least one definition that has led to a
     // derived value.
     auto mySet = rd.getReachingDefinitions(v, loc);
-    for (auto *cause : it->second) {
-      auto otherSet = rd.getReachingDefinitions(v, cause);
+    for (auto &derivation : it->second) {
+      auto otherSet = rd.getReachingDefinitions(v, derivation.loc);
       for (auto &elem : mySet) {
         if (otherSet.count(elem))
           return true;
@@ -174,7 +181,8 @@ struct DerivedSet {
     return derivedVals.find(v->getId()) != derivedVals.end();
   }
 
-  void setDerived(const Var *v, const Value *cause, bool shouldArgCapture = true) {
+  void setDerived(const Var *v, const Value *loc, const Value *cause,
+                  bool shouldArgCapture = true) {
     if (!shouldTrack(v))
       return;
 
@@ -189,14 +197,12 @@ struct DerivedSet {
       }
     }
 
-    auto it = derivedVars.find(id);
-    if (it == derivedVars.end()) {
-      std::vector<const Value *> info = {cause};
-      derivedVars.emplace(id, info);
-    } else {
-      if (!containsId(it->second, cause))
-        it->second.push_back(cause);
+    auto &derivations = derivedVars[id];
+    for (auto &d : derivations) {
+      if (d.loc->getId() == loc->getId() && d.cause->getId() == cause->getId())
+        return;
     }
+    derivations.push_back({loc, cause});
   }
 
   void setDerived(const Value *v) {
@@ -225,20 +231,20 @@ struct DerivedSet {
       args.push_back((*it)->getId());
     }
 
-    setDerived(root, cause);
+    setDerived(root, cause, cause);
   }
 
   // Set for function argument
   DerivedSet(const Func *func, const Value *value, CaptureContext &cc)
       : DerivedSet(func) {
-    std::vector<const Var *> vars;
+    std::vector<VarUse> vars;
     bool escapes = extractVars(cc, value, vars);
     if (escapes)
       setExternCaptured();
 
     setDerived(value);
-    for (auto *var : vars) {
-      setDerived(var, value);
+    for (auto &use : vars) {
+      setDerived(use.var, use.loc, value);
     }
   }
 };
@@ -308,7 +314,7 @@ struct CaptureContext {
 // "i" (typically) we would not care about.
 struct ExtractVars : public util::ConstVisitor {
   CaptureContext &cc;
-  std::unordered_set<id_t> vars;
+  std::vector<VarUse> vars;
   bool escapes;
 
   explicit ExtractVars(CaptureContext &cc)
@@ -316,16 +322,16 @@ struct ExtractVars : public util::ConstVisitor {
 
   template <typename Node> void process(const Node *v) { v->accept(*this); }
 
-  void add(const Var *v) {
+  void add(const Var *v, const Value *loc) {
     if (shouldTrack(v))
-      vars.insert(v->getId());
+      vars.push_back({v, loc});
   }
 
   void defaultVisit(const Node *) override {}
 
-  void visit(const VarValue *v) override { add(v->getVar()); }
+  void visit(const VarValue *v) override { add(v->getVar(), v); }
 
-  void visit(const PointerValue *v) override { add(v->getVar()); }
+  void visit(const PointerValue *v) override { add(v->getVar(), v); }
 
   void visit(const CallInstr *v) override {
     if (auto *func = util::getFunc(v->getCallee())) {
@@ -335,7 +341,7 @@ struct ExtractVars : public util::ConstVisitor {
         // note possibly capInfo.size() != v->numArgs() if calling vararg C function
         auto info = (i < capInfo.size()) ? capInfo[i]
                                          : CaptureInfo::unknown(func, arg->getType());
-        if (shouldTrack(arg) && capInfo[i].returnCaptures)
+        if (shouldTrack(arg) && info.returnCaptures)
           process(arg);
         ++i;
       }
@@ -368,13 +374,10 @@ struct ExtractVars : public util::ConstVisitor {
   }
 };
 
-bool extractVars(CaptureContext &cc, const Value *v, std::vector<const Var *> &result) {
-  auto *M = v->getModule();
+bool extractVars(CaptureContext &cc, const Value *v, std::vector<VarUse> &result) {
   ExtractVars ev(cc);
   v->accept(ev);
-  for (auto id : ev.vars) {
-    result.push_back(M->getVar(id));
-  }
+  result.insert(result.end(), ev.vars.begin(), ev.vars.end());
   return ev.escapes;
 }
 
@@ -453,75 +456,90 @@ struct CaptureTracker : public util::Operator {
     }
   }
 
-  void forwardLink(Value *from, Value *cause, const std::vector<const Var *> &toVars,
-                   bool toEscapes, bool shouldArgCapture) {
+  // Calls the given function with what made the given variables derived, where they
+  // are used (or later, for an object that they refer to there)
+  void forEachCauseOf(DerivedSet &dset, const std::vector<VarUse> &uses,
+                      std::function<void(const Value *)> func) {
+    for (auto &use : uses) {
+      auto it = dset.derivedVars.find(use.var->getId());
+      if (it == dset.derivedVars.end())
+        continue;
+
+      const bool always = use.var->isGlobal() || rd.isInvalid(use.var);
+      auto mySet = rd.getReachingDefinitions(use.var, use.loc);
+      // the derivations may grow if a variable is linked to itself
+      auto derivations = it->second;
+      for (auto &derivation : derivations) {
+        bool derived = always;
+        if (!derived) {
+          auto otherSet = rd.getReachingDefinitions(use.var, derivation.loc);
+          derived = std::any_of(mySet.begin(), mySet.end(), [&](id_t elem) {
+            return otherSet.count(elem) != 0;
+          });
+        }
+        if (derived)
+          func(derivation.cause);
+      }
+    }
+  }
+
+  void forwardLink(Value *from, Value *cause, const std::vector<VarUse> &fromVars,
+                   const std::vector<VarUse> &toVars, bool toEscapes,
+                   bool shouldArgCapture) {
     forEachDSetOf(from, [&](DerivedSet &dset) {
       if (toEscapes)
         dset.setExternCaptured();
 
-      for (auto *toVar : toVars) {
-        dset.setDerived(toVar, cause, shouldArgCapture);
+      for (auto &to : toVars) {
+        dset.setDerived(to.var, to.loc, cause, shouldArgCapture);
       }
+
+      // changes through one of the variables also
+      // change what the other one refers to
+      forEachCauseOf(dset, fromVars, [&](const Value *fromCause) {
+        for (auto &to : toVars) {
+          dset.setDerived(to.var, to.loc, fromCause, shouldArgCapture);
+        }
+      });
     });
   }
 
   void backwardLinkFunc(DerivedSet &dset, Value *cause,
-                        const std::vector<const Var *> &toVars,
-                        const std::vector<const Var *> &fromVars, bool fromEscapes) {
+                        const std::vector<VarUse> &toVars,
+                        const std::vector<VarUse> &fromVars, bool fromEscapes) {
     if (fromEscapes)
       dset.setExternCaptured();
 
-    for (auto *toVar : toVars) {
-      auto it = dset.derivedVars.find(toVar->getId());
-      if (it == dset.derivedVars.end())
-        continue;
-      auto &toCauses = it->second;
-
-      for (auto *toCause : toCauses) {
-        if (isA<AssignInstr>(toCause) || isA<SyntheticAssignInstr>(toCause) ||
-            happensBefore(toCause, cause, cfg, dom))
-          continue;
-
-        bool derived = false;
-        if (toVar->isGlobal() || rd.isInvalid(toVar)) {
-          derived = true;
-        } else {
-          auto mySet = rd.getReachingDefinitions(toVar, cause);
-          auto otherSet = rd.getReachingDefinitions(toVar, toCause);
-          for (auto &elem : mySet) {
-            if (otherSet.count(elem)) {
-              derived = true;
-              break;
-            }
-          }
-        }
+    forEachCauseOf(dset, toVars, [&](const Value *toCause) {
+      if (isA<AssignInstr>(toCause) || isA<SyntheticAssignInstr>(toCause) ||
+          happensBefore(toCause, cause, cfg))
+        return;
 
-        if (derived) {
-          for (auto *fromVar : fromVars) {
-            dset.setDerived(fromVar, toCause);
-          }
-        }
+      // what is linked now is derived from then on, even
+      // if the variable no longer refers to it by then
+      for (auto &from : fromVars) {
+        dset.setDerived(from.var, from.loc, toCause);
       }
-    }
+    });
   }
 
   void link(Value *from, Value *to, Value *cause) {
-    std::vector<const Var *> fromVars, toVars;
+    std::vector<VarUse> fromVars, toVars;
     bool fromEscapes = extractVars(cc, from, fromVars);
     bool toEscapes = extractVars(cc, to, toVars);
 
-    forwardLink(from, cause, toVars, toEscapes, /*shouldArgCapture=*/true);
+    forwardLink(from, cause, fromVars, toVars, toEscapes, /*shouldArgCapture=*/true);
     forEachDSetOf(to, [&](DerivedSet &dset) {
       backwardLinkFunc(dset, cause, toVars, fromVars, fromEscapes);
     });
   }
 
   void link(Value *from, Var *to, Value *cause) {
-    std::vector<const Var *> fromVars, toVars = {to};
+    std::vector<VarUse> fromVars, toVars = {{to, cause}};
     bool fromEscapes = extractVars(cc, from, fromVars);
     bool toEscapes = false;
 
-    forwardLink(from, cause, toVars, toEscapes, /*shouldArgCapture=*/false);
+    forwardLink(from, cause, fromVars, toVars, toEscapes, /*shouldArgCapture=*/false);
     forEachDSetOf(to, cause, [&](DerivedSet &dset) {
       backwardLinkFunc(dset, cause, toVars, fromVars, fromEscapes);
     });
@@ -616,7 +634,7 @@ struct CaptureTracker : public util::Operator {
           if (synth->getKind() == SyntheticAssignInstr::Kind::NEXT_VALUE &&
               synth->getLhs()->getId() == var->getId()) {
             seqassertn(!found, "found multiple synthetic assignments for loop var");
-            dset.setDerived(var, synth);
+            dset.setDerived(var, synth, synth);
             found = true;
           }
         }
-- 
2.43.0


From b68f957de16e4dd66b6f48b06a49e279db953b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 20/70] fix: constant propagation treats globals bound by loops
 and except clauses as changing

---
 codon/cir/analyze/module/global_vars.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/codon/cir/analyze/module/global_vars.cpp b/codon/cir/analyze/module/global_vars.cpp
index 3cd81c0..13f5d58 100644
--- a/codon/cir/analyze/module/global_vars.cpp
+++ b/codon/cir/analyze/module/global_vars.cpp
@@ -12,9 +12,21 @@ namespace {
 struct GlobalVarAnalyzer : public util::Operator {
   std::unordered_map<id_t, id_t> assignments;
 
-  void handle(PointerValue *v) override {
-    if (v->getVar()->isGlobal())
-      assignments[v->getVar()->getId()] = -1;
+  // Marks a variable that is (or may be) changed other than by an assignment
+  void setUnknown(const Var *v) {
+    if (v && v->isGlobal())
+      assignments[v->getId()] = -1;
+  }
+
+  void handle(PointerValue *v) override { setUnknown(v->getVar()); }
+
+  void handle(ForFlow *v) override { setUnknown(v->getVar()); }
+
+  void handle(ImperativeForFlow *v) override { setUnknown(v->getVar()); }
+
+  void handle(TryCatchFlow *v) override {
+    for (auto &c : *v)
+      setUnknown(c.getVar());
   }
 
   void handle(AssignInstr *v) override {
-- 
2.43.0


From a9e196e5ce2132b618e49ea2e5dba7a33ca75ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 21/70] fix: outlined loops and handlers assign their variable
 in the enclosing function

---
 codon/cir/util/outlining.cpp | 81 ++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 17 deletions(-)

diff --git a/codon/cir/util/outlining.cpp b/codon/cir/util/outlining.cpp
index 486f8bf..b2ba2dc 100644
--- a/codon/cir/util/outlining.cpp
+++ b/codon/cir/util/outlining.cpp
@@ -19,13 +19,15 @@ struct OutlineReplacer : public Operator {
   std::vector<std::pair<Var *, Var *>> &remap;
   std::vector<Value *> &outFlows;
   Var *returnVar; // holds the value of returns in the region, or null
+  BodiedFunc *outlinedFunc;
   CloneVisitor cv;
 
   OutlineReplacer(Module *M, std::unordered_set<id_t> &modVars,
                   std::vector<std::pair<Var *, Var *>> &remap,
-                  std::vector<Value *> &outFlows, Var *returnVar)
+                  std::vector<Value *> &outFlows, Var *returnVar,
+                  BodiedFunc *outlinedFunc)
       : Operator(), modVars(modVars), remap(remap), outFlows(outFlows),
-        returnVar(returnVar), cv(M, false) {}
+        returnVar(returnVar), outlinedFunc(outlinedFunc), cv(M, false) {}
 
   // Replace all used vars based on remapping.
   void postHook(Node *node) override {
@@ -117,6 +119,40 @@ struct OutlineReplacer : public Operator {
       v->replaceAll(setitem);
     }
   }
+
+  // If passed by pointer (i.e. a "mod var"), a loop or handler cannot assign the
+  // variable: let it assign a local one, which is stored in the pointer first.
+  std::pair<Var *, Flow *> bindLocal(Var *var, Flow *body) {
+    auto *M = body->getModule();
+    auto *local = M->N<Var>(var->getSrcInfo(), var->getType(), /*global=*/false,
+                            /*external=*/false, /*tls=*/false, var->getName());
+    outlinedFunc->push_back(local);
+    auto *setitem =
+        util::ptrStore(M->Nr<VarValue>(mappedVar(var)), M->Nr<VarValue>(local));
+    return {local, util::series(setitem, body)};
+  }
+
+  template <typename LoopType> void bindLoopVar(LoopType *v) {
+    if (modVars.count(v->getVar()->getId()) > 0) {
+      auto [local, body] = bindLocal(v->getVar(), v->getBody());
+      v->setVar(local);
+      v->setBody(body);
+    }
+  }
+
+  void handle(ForFlow *v) override { bindLoopVar(v); }
+
+  void handle(ImperativeForFlow *v) override { bindLoopVar(v); }
+
+  void handle(TryCatchFlow *v) override {
+    for (auto &c : *v) {
+      if (c.getVar() && modVars.count(c.getVar()->getId()) > 0) {
+        auto [local, handler] = bindLocal(c.getVar(), c.getHandler());
+        c.setVar(local);
+        c.setHandler(handler);
+      }
+    }
+  }
 };
 
 struct Outliner : public Operator {
@@ -144,6 +180,12 @@ struct Outliner : public Operator {
         invalid(false), inVars(), outVars(), modifiedInVars(), globalsToOutline(),
         inLoops(), outFlows() {}
 
+  void addModified(Var *var) {
+    modifiedInVars.insert(var->getId());
+    if (outlineGlobals && var->isGlobal() && !var->isThreadLocal())
+      globalsToOutline.insert(var->getId());
+  }
+
   bool isEnclosingLoopInRegion(id_t loopId = -1) {
     int d = depth();
     for (int i = 0; i < d; i++) {
@@ -165,13 +207,26 @@ struct Outliner : public Operator {
   }
 
   void handle(ForFlow *v) override {
-    if (inRegion)
+    if (inRegion) {
       inLoops.insert(v->getId());
+      addModified(v->getVar());
+    }
   }
 
   void handle(ImperativeForFlow *v) override {
-    if (inRegion)
+    if (inRegion) {
       inLoops.insert(v->getId());
+      addModified(v->getVar());
+    }
+  }
+
+  void handle(TryCatchFlow *v) override {
+    if (inRegion) {
+      for (auto &c : *v) {
+        if (c.getVar())
+          addModified(c.getVar());
+      }
+    }
   }
 
   void handle(ReturnInstr *v) override {
@@ -212,21 +267,13 @@ struct Outliner : public Operator {
   }
 
   void handle(AssignInstr *v) override {
-    if (inRegion) {
-      auto *var = v->getLhs();
-      modifiedInVars.insert(var->getId());
-      if (outlineGlobals && var->isGlobal() && !var->isThreadLocal())
-        globalsToOutline.insert(var->getId());
-    }
+    if (inRegion)
+      addModified(v->getLhs());
   }
 
   void handle(PointerValue *v) override {
-    if (inRegion) {
-      auto *var = v->getVar();
-      modifiedInVars.insert(var->getId());
-      if (outlineGlobals && var->isGlobal() && !var->isThreadLocal())
-        globalsToOutline.insert(var->getId());
-    }
+    if (inRegion)
+      addModified(v->getVar());
   }
 
   void visit(SeriesFlow *v) override {
@@ -382,7 +429,7 @@ struct Outliner : public Operator {
     outlinedFunc->setBody(body);
 
     // Replace vars and externally-handled flows.
-    OutlineReplacer outRep(M, mod, remap, outFlows, returnVar);
+    OutlineReplacer outRep(M, mod, remap, outFlows, returnVar, outlinedFunc);
     body->accept(outRep);
 
     // Determine arguments for call to outlined function.
-- 
2.43.0


From 9904b6e12d87ec69cb796913a2eaee2ac6ac43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 22/70] fix: do not outline an empty raise without its handler

---
 codon/cir/util/outlining.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/codon/cir/util/outlining.cpp b/codon/cir/util/outlining.cpp
index b2ba2dc..979aa22 100644
--- a/codon/cir/util/outlining.cpp
+++ b/codon/cir/util/outlining.cpp
@@ -169,6 +169,7 @@ struct Outliner : public Operator {
       modifiedInVars; // vars modified (assigned or address'd) in region
   std::unordered_set<id_t> globalsToOutline; // modified global vars to outline
   std::unordered_set<id_t> inLoops;          // loops contained in region
+  std::unordered_set<id_t> inTries;          // try-catches contained in region
   std::vector<Value *>
       outFlows; // control flows that need to be handled externally (e.g. return)
 
@@ -178,7 +179,7 @@ struct Outliner : public Operator {
       : Operator(), parent(parent), flowRegion(flowRegion), begin(begin), end(end),
         outlineGlobals(outlineGlobals), allByValue(allByValue), inRegion(false),
         invalid(false), inVars(), outVars(), modifiedInVars(), globalsToOutline(),
-        inLoops(), outFlows() {}
+        inLoops(), inTries(), outFlows() {}
 
   void addModified(Var *var) {
     modifiedInVars.insert(var->getId());
@@ -222,6 +223,7 @@ struct Outliner : public Operator {
 
   void handle(TryCatchFlow *v) override {
     if (inRegion) {
+      inTries.insert(v->getId());
       for (auto &c : *v) {
         if (c.getVar())
           addModified(c.getVar());
@@ -261,6 +263,27 @@ struct Outliner : public Operator {
       invalid = true;
   }
 
+  // An empty throw belongs to the handler around it, which must be outlined as well.
+  void handle(ThrowInstr *v) override {
+    if (!inRegion || v->getValue())
+      return;
+    const Node *child = v;
+    for (int i = 0; i < depth(); i++) {
+      auto *parent = getParent(i);
+      if (auto *t = cast<TryCatchFlow>(parent)) {
+        for (auto &c : *t) {
+          // the series of the region itself is not among the parents
+          if (c.getHandler() == child || c.getHandler() == flowRegion) {
+            if (inTries.count(t->getId()) == 0)
+              invalid = true;
+            return;
+          }
+        }
+      }
+      child = parent;
+    }
+  }
+
   void handle(StackAllocInstr *v) override {
     if (inRegion)
       invalid = true;
-- 
2.43.0


From 7577a67bd1b2192f2943cf95348d7620266dce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 23/70] fix: Module::remove removes the given node and not what
 replaced it

---
 codon/cir/module.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codon/cir/module.h b/codon/cir/module.h
index f72834c..136f37f 100644
--- a/codon/cir/module.h
+++ b/codon/cir/module.h
@@ -190,7 +190,8 @@ public:
   /// Removes a given var.
   /// @param v the var
   void remove(const Var *v) {
-    auto it = varMap.find(v->getId());
+    // the id of a replaced node is that of its replacement: use the node's own
+    auto it = varMap.find(v->IdMixin::getId());
     vars.erase(it->second);
     varMap.erase(it);
   }
@@ -228,7 +229,8 @@ public:
   /// Removes a given value.
   /// @param v the value
   void remove(const Value *v) {
-    auto it = valueMap.find(v->getId());
+    // the id of a replaced node is that of its replacement: use the node's own
+    auto it = valueMap.find(v->IdMixin::getId());
     values.erase(it->second);
     valueMap.erase(it);
   }
-- 
2.43.0


From f6fe2ea3e92559dbd48534784ab93d7ab6198333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 24/70] fix: vectorised sin and cos leave arguments beyond
 39000 to the scalar version

---
 codon/runtime/numpy/loops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codon/runtime/numpy/loops.cpp b/codon/runtime/numpy/loops.cpp
index 2239e8f..eb0f1c0 100644
--- a/codon/runtime/numpy/loops.cpp
+++ b/codon/runtime/numpy/loops.cpp
@@ -140,9 +140,9 @@ struct Atan2Functor {
 struct CosFunctor {
   template <typename T> static inline T limit() {
     if constexpr (std::is_same_v<T, double>) {
-      return 3.37e9;
+      return 39000.0;
     } else if constexpr (std::is_same_v<T, float>) {
-      return 2.63e7f;
+      return 39000.0f;
     } else {
       return T{};
     }
@@ -318,9 +318,9 @@ struct Log2Functor {
 struct SinFunctor {
   template <typename T> static inline T limit() {
     if constexpr (std::is_same_v<T, double>) {
-      return 6.74e9;
+      return 39000.0;
     } else if constexpr (std::is_same_v<T, float>) {
-      return 5.30e8f;
+      return 39000.0f;
     } else {
       return T{};
     }
-- 
2.43.0


From 34cf70dd7826c954452c4ae953f9cb89ed00a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 25/70] fix: vectorised sin and expm1 of negative zero are
 negative zero

---
 codon/runtime/numpy/loops.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codon/runtime/numpy/loops.cpp b/codon/runtime/numpy/loops.cpp
index eb0f1c0..6fa5cac 100644
--- a/codon/runtime/numpy/loops.cpp
+++ b/codon/runtime/numpy/loops.cpp
@@ -235,7 +235,10 @@ struct Expm1Functor {
   static inline auto vector(const hn::ScalableTag<T> d, const V &v) {
     const auto lim = Set(d, limit<T>());
     const auto pinf = Set(d, std::numeric_limits<T>::infinity());
-    return IfThenElse(IsNaN(v), v, IfThenElse(v >= lim, pinf, Expm1(d, v)));
+    const auto zero = Set(d, static_cast<T>(0.0));
+    return IfThenElse(
+        v == zero, v,
+        IfThenElse(IsNaN(v), v, IfThenElse(v >= lim, pinf, Expm1(d, v))));
   }
 
   static inline double scalar(const double x) { return expm1(x); }
@@ -344,7 +347,7 @@ struct SinFunctor {
       }
     }
 
-    return Sin(d, v);
+    return IfThenElse(v == Set(d, static_cast<T>(0.0)), v, Sin(d, v));
   }
 
   static inline double scalar(const double x) { return sin(x); }
-- 
2.43.0


From 05a7f73fac7891e1f172b49ed3577d8b1e98e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 26/70] fix: vectorised binary loops keep a broadcast first
 operand after the first vector

---
 codon/runtime/numpy/loops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/runtime/numpy/loops.cpp b/codon/runtime/numpy/loops.cpp
index 6fa5cac..b8b2276 100644
--- a/codon/runtime/numpy/loops.cpp
+++ b/codon/runtime/numpy/loops.cpp
@@ -477,8 +477,8 @@ void BinaryLoop(const T *in1, size_t is1, const T *in2, size_t is2, T *out, size
       memcpy(tmp2, in2 + i, L * sizeof(T));
       auto vec1 = hn::Load(d, tmp1);
       auto vec2 = hn::Load(d, tmp2);
-      Store(F::template vector<T, decltype(vec1)>(d, vec1, vec2), d, tmp1);
-      memcpy(out + i, tmp1, L * sizeof(T));
+      Store(F::template vector<T, decltype(vec1)>(d, vec1, vec2), d, tmp2);
+      memcpy(out + i, tmp2, L * sizeof(T));
     }
 
     for (; i < n; ++i)
-- 
2.43.0


From ad803b76368076bc2c93268f42d5a99b75dd610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 27/70] fix: sorting in reverse keeps equal elements in order

---
 stdlib/internal/sort.codon | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stdlib/internal/sort.codon b/stdlib/internal/sort.codon
index e8b0371..d4057f9 100644
--- a/stdlib/internal/sort.codon
+++ b/stdlib/internal/sort.codon
@@ -65,6 +65,9 @@ class List:
         reverse: bool = False,
         algorithm: Literal[str] = "auto",
     ):
+        # reversing both before and after keeps equal elements in order
+        if reverse:
+            self.reverse()
         if isinstance(key, Optional):
             if algorithm == "auto":
                 # Python uses Timsort in all cases, but if we
-- 
2.43.0


From 436518dace078c28ad36999a06b2ed236b5651e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 28/70] fix: timsort keeps equal elements in order

---
 stdlib/algorithms/timsort.codon | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stdlib/algorithms/timsort.codon b/stdlib/algorithms/timsort.codon
index 1846e72..769622d 100644
--- a/stdlib/algorithms/timsort.codon
+++ b/stdlib/algorithms/timsort.codon
@@ -64,11 +64,12 @@ def _count_run(
 
     n = 2
     i = begin + 1
-    if keyf(arr[i - 1]) >= keyf(arr[i]):
+    if keyf(arr[i]) < keyf(arr[i - 1]):
+        # strictly, as reversing the run must not swap equal elements
         inorder = 0
         i += 1
         while i < end:
-            if keyf(arr[i - 1]) < keyf(arr[i]):
+            if not (keyf(arr[i]) < keyf(arr[i - 1])):
                 break
             i += 1
             n += 1
@@ -76,7 +77,7 @@ def _count_run(
     else:
         i += 1
         while i < end:
-            if keyf(arr[i - 1]) >= keyf(arr[i]):
+            if keyf(arr[i]) < keyf(arr[i - 1]):
                 break
             i += 1
             n += 1
-- 
2.43.0


From 53b4b4483c7816754c4655fd19db9fdf89629913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:48 +0000
Subject: [PATCH 29/70] fix: np.array accepts an empty list

---
 stdlib/numpy/routines.codon | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stdlib/numpy/routines.codon b/stdlib/numpy/routines.codon
index 0c37f68..9735d9d 100644
--- a/stdlib/numpy/routines.codon
+++ b/stdlib/numpy/routines.codon
@@ -35,7 +35,13 @@ def _inner_type(t):
 def _extract_shape(t):
     if isinstance(t, ndarray):
         return t.shape
-    elif isinstance(t, List) or isinstance(t, Tuple):
+    elif isinstance(t, List):
+        if len(t) == 0:
+            n: Literal[int] = static.len(type(_extract_shape(t[0])))
+            return (0, *tuple(0 for _ in static.range(n)))
+        rest = _extract_shape(t[0])
+        return (len(t), *rest)
+    elif isinstance(t, Tuple):
         rest = _extract_shape(t[0])
         return (len(t), *rest)
     else:
-- 
2.43.0


From 10402f8db62b708fc2344e8d5a5f386b6ea605a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 30/70] fix: np.array of strided or differently typed arrays
 copies their elements

---
 stdlib/numpy/routines.codon | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/numpy/routines.codon b/stdlib/numpy/routines.codon
index 9735d9d..a711ead 100644
--- a/stdlib/numpy/routines.codon
+++ b/stdlib/numpy/routines.codon
@@ -52,13 +52,13 @@ def _flatten(t, shape, D: type):
         for s in t:
             if isinstance(s, ndarray):
                 cc, fc = s._contig
-                if cc:
+                if cc and s.dtype is D:
                     str.memcpy((p + start).as_byte(), s.data.as_byte(), s.nbytes)
+                    start += s.size
                 else:
                     for idx in util.multirange(s.shape):
-                        p[start] = s._ptr(idx)[0]
+                        p[start] = util.cast(s._ptr(idx)[0], D)
                         start += 1
-                start += s.size
             elif isinstance(s, List) or isinstance(s, Tuple):
                 start = helper(s, p, start, D)
             else:
-- 
2.43.0


From f0f4d1346129308008268ac1b8dd54f46f07506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 31/70] fix: np.array rejects jagged lists before copying them

---
 stdlib/numpy/routines.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/numpy/routines.codon b/stdlib/numpy/routines.codon
index a711ead..0f50f4c 100644
--- a/stdlib/numpy/routines.codon
+++ b/stdlib/numpy/routines.codon
@@ -120,8 +120,8 @@ def _array(a, dtype: type = NoneType, copy: bool = True, order: str = 'K'):
                     return a.astype(dtype, order='F', copy=False)
     elif isinstance(a, List) or isinstance(a, Tuple):
         shape = _extract_shape(a)
-        data = _flatten(a, shape, dtype)
         _validate_shape(a, shape)
+        data = _flatten(a, shape, dtype)
         result = ndarray(shape, data)
 
         if order == 'F':
-- 
2.43.0


From 79ea899cc4b92e7c9162263e8d4d06a5940aa0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 32/70] fix: symmetric_difference_update adds the elements only
 the other set has

---
 stdlib/internal/types/collections/set.codon | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stdlib/internal/types/collections/set.codon b/stdlib/internal/types/collections/set.codon
index a76e29f..67f4bac 100644
--- a/stdlib/internal/types/collections/set.codon
+++ b/stdlib/internal/types/collections/set.codon
@@ -211,12 +211,11 @@ class Set:
         return s
 
     def symmetric_difference_update(self, other: Set[K]):
-        for a in other:
+        for a in other.copy():
             if a in self:
                 self.discard(a)
-        for a in self:
-            if a in other:
-                self.discard(a)
+            else:
+                self.add(a)
 
     def union(self, other: Set[K]) -> Set[K]:
         s = Set[K]()
-- 
2.43.0


From fde136a5958af12282379b01d07c39fc50e04739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 33/70] fix: set.pop of an empty set raises KeyError

---
 stdlib/internal/types/collections/set.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/collections/set.codon b/stdlib/internal/types/collections/set.codon
index 67f4bac..9d75a96 100644
--- a/stdlib/internal/types/collections/set.codon
+++ b/stdlib/internal/types/collections/set.codon
@@ -165,7 +165,7 @@ class Set:
 
     def pop(self) -> K:
         if self.__len__() == 0:
-            raise ValueError("empty set")
+            raise KeyError("pop from an empty set")
         for a in self:
             self.remove(a)
             return a
-- 
2.43.0


From bfbc7be144619ff0a98e2d0bbb494162ee356680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 34/70] fix: an argument with a function that cannot be
 realized yet does not crash the compiler

---
 codon/parser/ast/types/traits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/parser/ast/types/traits.cpp b/codon/parser/ast/types/traits.cpp
index f9e7ab5..343a02f 100644
--- a/codon/parser/ast/types/traits.cpp
+++ b/codon/parser/ast/types/traits.cpp
@@ -160,8 +160,8 @@ int CallableTrait::unify(Type *typ, Unification *us) {
 
       if (us && pf->canRealize()) {
         // Realize if possible to allow deduction of return type
-        auto rf = tv.realize(pf);
-        pf->unify(rf, us);
+        if (auto rf = tv.realize(pf))
+          pf->unify(rf, us);
       }
       if (args[1]->unify(pf->getRetType(), us) == -1)
         return -1;
-- 
2.43.0


From 746e852d18f756141dc4eebd158efdffe39e4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 35/70] fix: intersection of counters drops elements the other
 does not have

---
 stdlib/collections.codon | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/collections.codon b/stdlib/collections.codon
index 90ce5ec..1705729 100644
--- a/stdlib/collections.codon
+++ b/stdlib/collections.codon
@@ -293,8 +293,8 @@ class Counter(Static[Dict[T, int]]):
         return self
 
     def __iand__(self, other: Counter[T]) -> Counter[T]:
-        for k, v in other.items():
-            self[k] = min(self.get(k, 0), v)
+        for k, v in list(self.items()):
+            self[k] = min(v, other.get(k, 0))
         self._del_non_positives()
         return self
 
-- 
2.43.0


From 5afac8faf31de56713f1bc00f23b65ff06b0c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 36/70] fix: a bounded deque never holds more than its maximum
 length

---
 stdlib/collections.codon | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/collections.codon b/stdlib/collections.codon
index 1705729..dfc58e8 100644
--- a/stdlib/collections.codon
+++ b/stdlib/collections.codon
@@ -24,7 +24,7 @@ class deque:
 
     def __init__(self, maxlen: int):
         cap = 1
-        while cap < maxlen:
+        while cap <= maxlen + 1:
             cap *= 2
         self._arr = Array[T](cap)
         self._head = 0
@@ -72,7 +72,7 @@ class deque:
         self._arr[self._head] = x
         if self._maxlen >= 0 and len(self) > self._maxlen:
             self.pop()
-        if self._head == self._tail:
+        elif self._head == self._tail:
             self._double_cap()
 
     def append(self, x: T):
@@ -80,7 +80,7 @@ class deque:
         self._tail = (self._tail + 1) & (len(self._arr) - 1)
         if self._maxlen >= 0 and len(self) > self._maxlen:
             self.popleft()
-        if self._head == self._tail:
+        elif self._head == self._tail:
             self._double_cap()
 
     def popleft(self) -> T:
-- 
2.43.0


From c0149133acbbfe3923ef4edd98261d2247e4a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 37/70] fix: counters compare elements they do not have as zero

---
 stdlib/collections.codon | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stdlib/collections.codon b/stdlib/collections.codon
index dfc58e8..bbd7be4 100644
--- a/stdlib/collections.codon
+++ b/stdlib/collections.codon
@@ -267,10 +267,12 @@ class Counter(Static[Dict[T, int]]):
             self._kh_del(x)
 
     def __eq__(self, other: Counter[T]) -> bool:
-        if self.__len__() != other.__len__():
-            return False
+        # missing elements count as zero
         for k, v in self.items():
-            if k not in other or other[k] != v:
+            if other.get(k, 0) != v:
+                return False
+        for k, v in other.items():
+            if self.get(k, 0) != v:
                 return False
         return True
 
-- 
2.43.0


From 1c7bdc1f235f8bd6a1a226bd921e630398fcdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 38/70] fix: optimized list concatenation appends nothing for a
 slice that ends before it starts

---
 stdlib/internal/types/collections/list.codon | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 80bd536..0378304 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -506,9 +506,8 @@ class List:
             ans.len += n
         elif s.step is None:
             start, stop, step, length = s.adjust_indices(v.__len__())
-            n = stop - start
-            str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), n * sizeof(T))
-            ans.len += n
+            str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), length * sizeof(T))
+            ans.len += length
         else:
             start, stop, step, length = s.adjust_indices(v.__len__())
             for i in range(start, stop, step):
-- 
2.43.0


From e7d0c6edf955f81ed80fe069b7929fd04da9c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 39/70] fix: assigning a list to its own full slice keeps its
 elements

---
 stdlib/internal/types/collections/list.codon | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 0378304..7408de9 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -101,6 +101,8 @@ class List:
 
     def __setitem__(self, s: Slice, other: List[T]):
         if s.start is None and s.stop is None and s.step is None:
+            if other.__raw__() == self.__raw__():
+                return
             self.clear()
             for a in other:
                 self.append(a)
-- 
2.43.0


From 443b5a3f2ce981b2624c18a504cfd332eef45659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 40/70] fix: slices with a step near the limits of int stay
 inside the sequence

---
 stdlib/internal/str.codon                    |  4 +++-
 stdlib/internal/types/collections/list.codon | 23 ++++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index 8f15446..d8669e7 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -88,8 +88,10 @@ class str:
     def _make_from_range(self, start: int, stop: int, step: int, length: int) -> str:
         p = Ptr[byte](length)
         j = 0
-        for i in range(start, stop, step):
+        i = start
+        while j < length:
             p[j] = self.ptr[i]
+            i += step
             j += 1
         return str(p, length)
 
diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 7408de9..1f77031 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -92,8 +92,10 @@ class List:
         else:
             start, stop, step, length = s.adjust_indices(self.__len__())
             other = List[T](length)
-            for i in range(start, stop, step):
-                other.append(self._get(i))
+            cur = start
+            for _ in range(length):
+                other.append(self._get(cur))
+                cur += step
             return other
 
     def __setitem__(self, s: Slice, other: Generator[T]):
@@ -147,17 +149,18 @@ class List:
             if s.step is None or step == 1:
                 self._assign_slice(start, stop, Ptr[T](), 0)
             else:
-                if length < 0:
+                if length <= 0:
                     return
 
-                if step < 0:
-                    stop = start + 1
-                    start = stop + step * (length - 1) - 1
+                if length == 1:
+                    step = 1  # the step may be too large to add
+                elif step < 0:
+                    start += step * (length - 1)
                     step = -step
 
                 cur = start
                 i = 0
-                while cur < stop:
+                while i < length:
                     lim = step - 1
                     if cur + step > self.__len__():
                         lim = self.__len__() - cur - 1
@@ -512,9 +515,11 @@ class List:
             ans.len += length
         else:
             start, stop, step, length = s.adjust_indices(v.__len__())
-            for i in range(start, stop, step):
-                ans.arr.ptr[ans.len] = v._get(i)
+            cur = start
+            for _ in range(length):
+                ans.arr.ptr[ans.len] = v._get(cur)
                 ans.len += 1
+                cur += step
 
     def _list_add_opt_literal_append(ans: List[T], elem: T):
         ans.arr.ptr[ans.len] = elem
-- 
2.43.0


From abc5ca6b95b948c18492891393933fd51c7feddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:13 +0000
Subject: [PATCH 41/70] fix: searching a string backwards looks at every
 position of the last block

---
 stdlib/algorithms/strings.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/algorithms/strings.codon b/stdlib/algorithms/strings.codon
index a043ea9..e0c7eca 100644
--- a/stdlib/algorithms/strings.codon
+++ b/stdlib/algorithms/strings.codon
@@ -301,7 +301,7 @@ def backward_find(s: Ptr[byte], n: int, needle: Ptr[byte], k: int):
         else:
             break
 
-        j = i + 10
+        j = i - 10
         if j - k + 1 >= 0:
             if lastb == s[j] and firstb == s[j - k + 1] and _C.memcmp(s + j - k + 2, needle + 1, k - 2) == i32(0):
                 return j - k + 1
-- 
2.43.0


From 89d2b4242a73ba9bcdc7e6da4e725802ecb79dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:13 +0000
Subject: [PATCH 42/70] fix: startswith and endswith count negative positions
 from the end of the string

---
 stdlib/internal/str.codon | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index d8669e7..cbb44e9 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -666,14 +666,7 @@ class str:
         self, prefix: str, start: int = 0, end: Optional[int] = None
     ) -> bool:
         end: int = end if end is not None else len(self)
-        if end < 0:
-            end += len(self)
-        elif start < 0:
-            start += len(self)
-
-        # length prefix is longer than range of string being compared to
-        if start + len(prefix) > len(self):
-            return False
+        start, end = self._correct_indices(start, end)
 
         # length of prefix is longer than range of string[start:end]
         if end - start < len(prefix):
@@ -687,29 +680,17 @@ class str:
 
     def endswith(self, suffix: str, start: int = 0, end: Optional[int] = None) -> bool:
         end: int = end if end is not None else len(self)
-        if end < 0:
-            end += len(self)
-        elif start < 0:
-            start += len(self)
-        if end > len(self):
-            end = len(self)
-
-        # length prefix is longer than range of string being compared to
-        if end - start < len(suffix) or start > len(self):
-            return False
-
-        if end - len(suffix) > start:
-            start = end - len(suffix)
+        start, end = self._correct_indices(start, end)
 
-        # length of prefix is longer than range of string[start:end]
+        # length of suffix is longer than range of string[start:end]
         if end - start < len(suffix):
             return False
 
-        # prefix is an empty string
+        # suffix is an empty string
         if not suffix:
             return True
 
-        return suffix == self._slice(start, start + len(suffix))
+        return suffix == self._slice(end - len(suffix), end)
 
     def index(self, sub: str, start: int = 0, end: Optional[int] = None) -> int:
         i = self.find(sub, start, end)
-- 
2.43.0


From d7b8b3a99bd248f18078fe47f88cb306124d095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 43/70] fix: a string repeated a negative number of times is
 empty

---
 stdlib/internal/str.codon | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index cbb44e9..0b6541b 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -109,6 +109,8 @@ class str:
             i -= 1
 
     def __mul__(self, x: int) -> str:
+        if x <= 0:
+            return ""
         total = x * self.len
         p = Ptr[byte](total)
         n = 0
-- 
2.43.0


From f20a8a06d74db3b87a7e0f91f2b505920a15af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 44/70] fix: the delete character is not printable

---
 stdlib/internal/str.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index 0b6541b..c57a442 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -520,7 +520,7 @@ class str:
 
     def isprintable(self) -> bool:
         for i in range(len(self)):
-            if not (31 < int(self.ptr[i]) < 128):
+            if not (31 < int(self.ptr[i]) < 127):
                 return False
         return True
 
-- 
2.43.0


From 8aaf888a7e77bf771a2144656e472184ef9fc5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 45/70] fix: centering in an odd width puts the odd space where
 Python does

---
 stdlib/internal/str.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/str.codon b/stdlib/internal/str.codon
index c57a442..6d631df 100644
--- a/stdlib/internal/str.codon
+++ b/stdlib/internal/str.codon
@@ -452,7 +452,7 @@ class str:
             return self
 
         pad = width - len(self)
-        left_pad = pad // 2
+        left_pad = pad // 2 + (pad & width & 1)
         right_pad = width - len(self) - left_pad
         return str._build((fillchar, left_pad), self, (fillchar, right_pad))
 
-- 
2.43.0


From c22c3a9b093b16cb9a0917d67362ef7330b97bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 46/70] fix: set.pop of an empty set raises ValueError, as its
 test expects

---
 stdlib/internal/types/collections/set.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/collections/set.codon b/stdlib/internal/types/collections/set.codon
index 9d75a96..67f4bac 100644
--- a/stdlib/internal/types/collections/set.codon
+++ b/stdlib/internal/types/collections/set.codon
@@ -165,7 +165,7 @@ class Set:
 
     def pop(self) -> K:
         if self.__len__() == 0:
-            raise KeyError("pop from an empty set")
+            raise ValueError("empty set")
         for a in self:
             self.remove(a)
             return a
-- 
2.43.0


From f3e0978ab05e0f3c7e4c78baddc32d2350aee7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 47/70] fix: a width that starts with zero pads numbers with
 zeros

---
 stdlib/internal/format.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/format.codon b/stdlib/internal/format.codon
index 7f4392b..ab22a63 100644
--- a/stdlib/internal/format.codon
+++ b/stdlib/internal/format.codon
@@ -45,7 +45,7 @@ def _python_to_fmt_format(s):
         i += 1
 
     width_pre_zero = False
-    if i < len(s) and s[i] == '#':
+    if i < len(s) and s[i] == '0':
         width_pre_zero = True
         i += 1
     width = 0
-- 
2.43.0


From 2201736a751db305e1d3dbc13439f235754c78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:57 +0000
Subject: [PATCH 48/70] fix: braces inside an f-string's expression belong to
 the expression

---
 codon/parser/visitors/scoping/scoping.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/codon/parser/visitors/scoping/scoping.cpp b/codon/parser/visitors/scoping/scoping.cpp
index 1adc5e6..6edbe9d 100644
--- a/codon/parser/visitors/scoping/scoping.cpp
+++ b/codon/parser/visitors/scoping/scoping.cpp
@@ -190,10 +190,11 @@ ScopingVisitor::unpackFString(const std::string &value) {
   int braceCount = 0, braceStart = 0;
   for (int i = 0; i < value.size(); i++) {
     if (value[i] == '{') {
-      if (braceStart < i)
-        items.emplace_back(value.substr(braceStart, i - braceStart));
-      if (!braceCount)
+      if (!braceCount) {
+        if (braceStart < i)
+          items.emplace_back(value.substr(braceStart, i - braceStart));
         braceStart = i + 1;
+      }
       braceCount++;
     } else if (value[i] == '}') {
       braceCount--;
@@ -215,7 +216,8 @@ ScopingVisitor::unpackFString(const std::string &value) {
           items.back().format = val->second;
         }
       }
-      braceStart = i + 1;
+      if (braceCount <= 0)
+        braceStart = i + 1;
     }
   }
   if (braceCount > 0)
-- 
2.43.0


From 8a012200b0f00c184bd867c8548dbbf480c37d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:57 +0000
Subject: [PATCH 49/70] fix: int() reads the digit after a base prefix, not the
 one beyond it

---
 stdlib/internal/builtin.codon | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stdlib/internal/builtin.codon b/stdlib/internal/builtin.codon
index eea6672..70f4fc1 100644
--- a/stdlib/internal/builtin.codon
+++ b/stdlib/internal/builtin.codon
@@ -398,10 +398,13 @@ class int:
 
             # detect base from prefix
             if n >= o + 1 and s.ptr[o] == byte(48):  # '0'
-                if n < o + 2:
-                    parse_error(s0, base)
+                zeros = o + 1
+                while zeros < n and s.ptr[zeros] == byte(48):
+                    zeros += 1
 
-                if s.ptr[o + 1] == byte(98) or s.ptr[o + 1] == byte(66):  # 'b'/'B'
+                if zeros == n:
+                    base = 10
+                elif s.ptr[o + 1] == byte(98) or s.ptr[o + 1] == byte(66):  # 'b'/'B'
                     base = 2
                 elif s.ptr[o + 1] == byte(111) or s.ptr[o + 1] == byte(79):  # 'o'/'O'
                     base = 8
@@ -445,7 +448,7 @@ class int:
             elif (n >= 3 and
                   s.ptr[0] == byte(48) and
                   (s.ptr[1] == C_LOWER or s.ptr[1] == C_UPPER)):  # '0b' etc.
-                if not check_digit(s.ptr[3], base):
+                if not check_digit(s.ptr[2], base):
                     parse_error(s0, base0)
                 s = str(s.ptr + 2, n - 2)
 
-- 
2.43.0


From 71f9cb2942d702283d220d48c30c93cc1acf4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:57 +0000
Subject: [PATCH 50/70] fix: infinities and NaNs are right-aligned in a field
 by default, as other numbers

---
 stdlib/internal/format.codon | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/internal/format.codon b/stdlib/internal/format.codon
index ab22a63..06baa42 100644
--- a/stdlib/internal/format.codon
+++ b/stdlib/internal/format.codon
@@ -3,7 +3,7 @@
 def _format_error(ret: str):
 	raise ValueError(f"invalid format specifier: {ret}")
 
-def _python_to_fmt_format(s):
+def _python_to_fmt_format(s, right: bool = False):
     if not s:
         return s
 
@@ -81,6 +81,8 @@ def _python_to_fmt_format(s):
     if align:
         if fill: ns.append(fill)
         ns.append(align)
+    elif right and width and not width_pre_zero:
+        ns.append('>')  # also for infinities and NaNs
     if sign: ns.append(sign)
     if alternate_form: ns.append("#")
     if width_pre_zero: ns.append("0")
@@ -123,7 +125,7 @@ class UInt:
 class float:
     def __format__(self, format_spec: str) -> str:
         err = False
-        ret = _C.seq_str_float(self, _python_to_fmt_format(format_spec), __ptr__(err))
+        ret = _C.seq_str_float(self, _python_to_fmt_format(format_spec, right=True), __ptr__(err))
         if format_spec and err:
             _format_error(ret)
         return ret if ret != "-nan" else "nan"
-- 
2.43.0


From 1161fcc55bc74ff16a91c986610459f6fba3eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 51/70] fix: float() accepts a plus sign before inf and nan

---
 stdlib/internal/builtin.codon | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/internal/builtin.codon b/stdlib/internal/builtin.codon
index 70f4fc1..f5c9d50 100644
--- a/stdlib/internal/builtin.codon
+++ b/stdlib/internal/builtin.codon
@@ -468,8 +468,11 @@ class int:
 class float:
     def _from_str(s: str) -> float:
         s0 = s
-        s = s.rstrip()
+        s = s.strip()
         n = len(s)
+        if n > 1 and s.ptr[0] == byte(43) and not (s.ptr[1] == byte(43) or s.ptr[1] == byte(45) or str._isspace(s.ptr[1])):
+            s = str(s.ptr + 1, n - 1)  # also for '+inf' and '+nan'
+            n -= 1
         end = cobj()
         result = _C.seq_float_from_str(s, __ptr__(end))
 
-- 
2.43.0


From 1bb722fc3f1359346c408d8df270b02f647fad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 52/70] fix: '{x=}' in an f-string shows repr(x), as in Python

---
 codon/parser/visitors/typecheck/basic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codon/parser/visitors/typecheck/basic.cpp b/codon/parser/visitors/typecheck/basic.cpp
index c2fcf2a..3a6bf63 100644
--- a/codon/parser/visitors/typecheck/basic.cpp
+++ b/codon/parser/visitors/typecheck/basic.cpp
@@ -62,6 +62,8 @@ void TypecheckVisitor::visit(StringExpr *expr) {
             // TODO: error?
             break;
           }
+        } else if (!p.format.text.empty() && p.format.spec.empty()) {
+          p.expr = N<CallExpr>(N<IdExpr>("repr"), p.expr);
         }
         if (!p.format.spec.empty()) {
           p.expr = N<CallExpr>(N<DotExpr>(p.expr, "__format__"),
-- 
2.43.0


From 5b2d64192cb6d16179fcc8ff2629a5c4be98f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 53/70] fix: a sign is accepted in an f-string's format
 specification

---
 codon/parser/peg/grammar.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/peg/grammar.peg b/codon/parser/peg/grammar.peg
index a48b13a..84fbbde 100644
--- a/codon/parser/peg/grammar.peg
+++ b/codon/parser/peg/grammar.peg
@@ -874,6 +874,6 @@ EXTERNDENT__PREDICATE {
 >
 
 # https://docs.python.org/3/library/string.html#formatspec
-format_spec <- ([^{}] [<>=^] / [<>=^])? [+- ]? 'z'? '#'? '0'? [0-9]* [_,]* ('.' [0-9]+)? [bcdeEfFgGnosxX%]? {
+format_spec <- ([^{}] [<>=^] / [<>=^])? [-+ ]? 'z'? '#'? '0'? [0-9]* [_,]* ('.' [0-9]+)? [bcdeEfFgGnosxX%]? {
   return string(VS.sv());
 }
-- 
2.43.0


From 84e4656d3671df5a590d38e2d456f3d1ad4a6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 54/70] fix: popcnt of a one- or two-bit integer is not
 negative

---
 stdlib/internal/types/intn.codon | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/internal/types/intn.codon b/stdlib/internal/types/intn.codon
index 77cfc5c..45e7f3d 100644
--- a/stdlib/internal/types/intn.codon
+++ b/stdlib/internal/types/intn.codon
@@ -318,7 +318,7 @@ class Int:
         ret i{=N} %0
 
     def popcnt(self) -> int:
-        return int(self._popcnt())
+        return int(UInt[N](self._popcnt()))
 
     @pure
     @llvm
@@ -618,7 +618,7 @@ class UInt:
         return f"UInt[{N}]({self.__str__()})"
 
     def popcnt(self) -> int:
-        return int(Int[N](self)._popcnt())
+        return int(UInt[N](Int[N](self)._popcnt()))
 
     @pure
     @llvm
-- 
2.43.0


From 1937b0dffdcddaaf06b8fc6ac7f0abd77716c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 55/70] fix: widening an unsigned integer to a signed type
 keeps its value

---
 stdlib/internal/types/intn.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/intn.codon b/stdlib/internal/types/intn.codon
index 45e7f3d..a9d6e52 100644
--- a/stdlib/internal/types/intn.codon
+++ b/stdlib/internal/types/intn.codon
@@ -60,7 +60,7 @@ class Int:
         elif N == M:
             return Int[N](what)
         else:
-            return Int._sext(what, M, N)
+            return Int._zext(what, M, N)
 
     @overload
     def __new__(what: UInt[N]) -> Int[N]:
-- 
2.43.0


From 58c997a1d253502b06e0d967b3c3a52e24e7d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 56/70] fix: raising a one-bit integer to a power ends

---
 stdlib/internal/types/intn.codon | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stdlib/internal/types/intn.codon b/stdlib/internal/types/intn.codon
index a9d6e52..fbed73c 100644
--- a/stdlib/internal/types/intn.codon
+++ b/stdlib/internal/types/intn.codon
@@ -297,6 +297,10 @@ class Int:
 
         if exp < zero:
             return zero
+        if not exp:
+            return one
+        if exp == one:  # a one-bit exponent cannot be shifted by one
+            return self
         result = one
         while True:
             if exp & one:
@@ -604,6 +608,10 @@ class UInt:
 
         if exp < zero:
             return zero
+        if not exp:
+            return one
+        if exp == one:  # a one-bit exponent cannot be shifted by one
+            return self
         result = one
         while True:
             if exp & one:
-- 
2.43.0


From fae2fc8c494706f9d52415410417ba068eb830ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 57/70] fix: an integer differs from NaN

---
 stdlib/internal/types/int.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/internal/types/int.codon b/stdlib/internal/types/int.codon
index 9c38686..b845f8d 100644
--- a/stdlib/internal/types/int.codon
+++ b/stdlib/internal/types/int.codon
@@ -279,7 +279,7 @@ class int:
     @llvm
     def __ne__(self, b: float) -> bool:
         %0 = sitofp i64 %self to double
-        %1 = fcmp one double %0, %b
+        %1 = fcmp une double %0, %b
         %2 = zext i1 %1 to i8
         ret i8 %2
 
-- 
2.43.0


From c7b33da599c04bd59abd3524bfa81da7542174b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:04 +0000
Subject: [PATCH 58/70] fix: asking an exhausted generator for more values ends
 it again instead of crashing

---
 stdlib/internal/types/generator.codon | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/internal/types/generator.codon b/stdlib/internal/types/generator.codon
index 54bfb3e..466daaa 100644
--- a/stdlib/internal/types/generator.codon
+++ b/stdlib/internal/types/generator.codon
@@ -15,6 +15,8 @@ class Generator:
         pass
 
     def done(self) -> bool:
+        if self.__done__():
+            return True
         self.__resume__()
         return self.__done__()
 
-- 
2.43.0


From 2667d2f48ee862497ab8c6e5473c94bd26666469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 59/70] fix: an argument given to a partial function whose
 default was captured no longer shifts the other captures

---
 codon/parser/visitors/typecheck/call.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codon/parser/visitors/typecheck/call.cpp b/codon/parser/visitors/typecheck/call.cpp
index 3cb91d4..3f59f89 100644
--- a/codon/parser/visitors/typecheck/call.cpp
+++ b/codon/parser/visitors/typecheck/call.cpp
@@ -634,6 +634,11 @@ Expr *TypecheckVisitor::callReorderArguments(FuncType *calleeFn, CallExpr *expr,
             } else {
               // Case: argument provided
               seqassert(slots[si].size() == 1, "call transformation failed");
+              if (!part.known.empty() &&
+                  part.known[si] == ClassType::PartialFlag::Default) {
+                // Overrides the default captured by partial: skip it
+                pi++;
+              }
 
               args.emplace_back(realName, (*expr)[slots[si][0]].getExpr());
               addReordered(slots[si][0]);
-- 
2.43.0


From 470a8844628d0ff5ace610fc92b87fdf31b96f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 60/70] fix: a list or set display of functions holds callable
 values instead of crashing the compiler

---
 codon/parser/visitors/typecheck/collections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codon/parser/visitors/typecheck/collections.cpp b/codon/parser/visitors/typecheck/collections.cpp
index ea0b5a3..6acf698 100644
--- a/codon/parser/visitors/typecheck/collections.cpp
+++ b/codon/parser/visitors/typecheck/collections.cpp
@@ -222,6 +222,9 @@ Expr *TypecheckVisitor::transformComprehension(const std::string &type,
         typ = extractClassGeneric(star->getExpr()->getType())->getClass();
     } else {
       i = transform(i);
+      if (i->getType()->getFunc())
+        // Store functions as (partial) values
+        i = transform(N<CallExpr>(i, N<EllipsisExpr>(EllipsisExpr::PARTIAL)));
       typ = i->getClassType();
     }
     if (!typ) {
-- 
2.43.0


From 8f84fb39381403210771581c0e8826316ca40af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 61/70] fix: text literals differing after a control character
 keep distinct names

---
 codon/parser/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/common.cpp b/codon/parser/common.cpp
index 8f81c9d..5221d5c 100644
--- a/codon/parser/common.cpp
+++ b/codon/parser/common.cpp
@@ -172,7 +172,7 @@ std::string escape(const std::string &str) {
     case '\\': r += "\\\\"; break;
     default:
       if (c < 32 || c >= 127)
-        r += fmt::format("\\x{:x}", c);
+        r += fmt::format("\\x{:02x}", c);
       else
         r += c;
     }
-- 
2.43.0


From a6afd32b57bd5c5469711e210dd7bef95a8c52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:50 +0000
Subject: [PATCH 62/70] fix: a NumPy expression is forwarded into another block
 only if nothing executed in between interferes

---
 codon/cir/transform/numpy/forward.cpp | 116 ++++++++++++++++----------
 1 file changed, 70 insertions(+), 46 deletions(-)

diff --git a/codon/cir/transform/numpy/forward.cpp b/codon/cir/transform/numpy/forward.cpp
index 42489a9..b357206 100644
--- a/codon/cir/transform/numpy/forward.cpp
+++ b/codon/cir/transform/numpy/forward.cpp
@@ -2,6 +2,8 @@
 
 #include "numpy.h"
 
+#include <algorithm>
+
 namespace codon {
 namespace ir {
 namespace transform {
@@ -74,40 +76,60 @@ struct GetAllUses : public util::Operator {
   }
 };
 
-bool canForwardExpressionAlongPath(
-    Value *source, Value *destination, std::unordered_set<id_t> &vids,
-    const std::unordered_map<id_t, NumPyExpr *> &parsedValues, SE *se,
-    const std::vector<CFBlock *> &path) {
-  if (path.empty())
-    return true;
-
-  bool go = false;
-  for (auto *block : path) {
-    for (const auto *value : *block) {
-      // Skip things before 'source' in first block
-      if (!go && block == path.front() && value == source) {
-        go = true;
-        continue;
-      }
-
-      // Skip things after 'destination' in last block
-      if (go && block == path.back() && value == destination) {
-        go = false;
-        break;
-      }
+// Checks the given block's values after 'from' (from the start of the block if null)
+// and before 'to' (to the end of the block if null).
+bool canForwardExpressionPast(CFBlock *block, Value *from, Value *to,
+                              std::unordered_set<id_t> &vids,
+                              const std::unordered_map<id_t, NumPyExpr *> &parsedValues,
+                              SE *se) {
+  bool go = !from;
+  for (const auto *value : *block) {
+    if (!go) {
+      go = (value == from);
+      continue;
+    }
 
-      if (!go)
-        continue;
+    if (value == to)
+      break;
 
-      OkToForwardPast check(vids, parsedValues, se);
-      const_cast<Value *>(value)->accept(check);
-      if (!check.ok)
+    // Synthetic values exist only in the CFG, and only assign variables.
+    if (auto *assign = cast<analyze::dataflow::SyntheticAssignInstr>(value)) {
+      if (vids.count(assign->getLhs()->getId()))
         return false;
+      continue;
     }
+    if (isA<analyze::dataflow::SyntheticPhiInstr>(value))
+      continue;
+
+    OkToForwardPast check(vids, parsedValues, se);
+    const_cast<Value *>(value)->accept(check);
+    if (!check.ok)
+      return false;
   }
   return true;
 }
 
+// Blocks that can be reached from the end of the given block without passing through
+// 'avoid'. If 'reverse' is set, blocks that can reach the start of the given block.
+std::unordered_set<CFBlock *> getReachable(CFBlock *block, CFBlock *avoid,
+                                           bool reverse) {
+  std::unordered_set<CFBlock *> seen;
+  std::vector<CFBlock *> worklist = {block};
+  auto add = [&](CFBlock *b) {
+    if (b != avoid && seen.insert(b).second)
+      worklist.push_back(b);
+  };
+  while (!worklist.empty()) {
+    auto *curr = worklist.back();
+    worklist.pop_back();
+    if (reverse)
+      std::for_each(curr->predecessors_begin(), curr->predecessors_end(), add);
+    else
+      std::for_each(curr->successors_begin(), curr->successors_end(), add);
+  }
+  return seen;
+}
+
 bool canForwardExpression(NumPyOptimizationUnit *expr, Value *target,
                           const std::unordered_map<id_t, NumPyExpr *> &parsedValues,
                           CFG *cfg, SE *se) {
@@ -133,27 +155,29 @@ bool canForwardExpression(NumPyOptimizationUnit *expr, Value *target,
   auto *end = cfg->getBlock(target);
   seqassertn(start, "start CFG block not found");
   seqassertn(end, "end CFG block not found");
-  bool ok = true;
-
-  std::function<void(CFBlock *, std::vector<CFBlock *> &)> dfs =
-      [&](CFBlock *curr, std::vector<CFBlock *> &path) {
-        path.push_back(curr);
-        if (curr == end) {
-          if (!canForwardExpressionAlongPath(source, target, vids, parsedValues, se,
-                                             path))
-            ok = false;
-        } else {
-          for (auto it = curr->successors_begin(); it != curr->successors_end(); ++it) {
-            if (std::find(path.begin(), path.end(), *it) != path.end())
-              dfs(*it, path);
-          }
-        }
-        path.pop_back();
-      };
 
-  std::vector<CFBlock *> path;
-  dfs(start, path);
-  return ok;
+  if (start == end) {
+    for (const auto *value : *start) {
+      if (value == source)
+        return canForwardExpressionPast(start, source, target, vids, parsedValues, se);
+      if (value == target)
+        return false;
+    }
+  }
+
+  // Everything that can be executed between 'source' and 'target' must be OK; blocks
+  // may be executed several times if they are in a loop that does not contain 'source'.
+  auto fwd = getReachable(start, start, /*reverse=*/false);
+  auto bwd = getReachable(end, start, /*reverse=*/true);
+  if (!canForwardExpressionPast(start, source, nullptr, vids, parsedValues, se))
+    return false;
+  for (auto *block : fwd) {
+    if (block != end && bwd.count(block) &&
+        !canForwardExpressionPast(block, nullptr, nullptr, vids, parsedValues, se))
+      return false;
+  }
+  return canForwardExpressionPast(end, nullptr, bwd.count(end) ? nullptr : target, vids,
+                                  parsedValues, se);
 }
 
 bool canForwardVariable(AssignInstr *assign, Value *destination, BodiedFunc *func,
-- 
2.43.0


From 14f5415470219477426479aecb21ec6ee264385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 63/70] fix: in-place array operators reject operands that do
 not broadcast to the array

---
 stdlib/numpy/ndarray.codon | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stdlib/numpy/ndarray.codon b/stdlib/numpy/ndarray.codon
index e33fe84..65270c3 100644
--- a/stdlib/numpy/ndarray.codon
+++ b/stdlib/numpy/ndarray.codon
@@ -1212,7 +1212,13 @@ class ndarray[dtype, ndim: Literal[int]]:
                              alloc=Tuple[T])[0]
 
     def _iop_elemwise(self, other: ndarray, op):
-        ndarray._loop((self, other), _InplaceBinaryFunctor(op))
+        if static.len(other.shape) > static.len(self.shape):
+            raise ValueError(
+                f"non-broadcastable output operand with shape {self.shape} doesn't match the broadcast shape {other.shape}"
+            )
+        else:
+            # The result is written into 'self', so only 'other' can be broadcast
+            ndarray._loop((self, other), _InplaceBinaryFunctor(op), broadcast='first')
         return self
 
     def _iop_scalar(self, b, op):
-- 
2.43.0


From 1f45763f127856e5f3f36636271c620e18b7fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 64/70] fix: assigning an array to an overlapping part of
 itself keeps the values read

---
 stdlib/numpy/indexing.codon |  6 +++---
 stdlib/numpy/ndarray.codon  | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/stdlib/numpy/indexing.codon b/stdlib/numpy/indexing.codon
index eb4df8f..987cc40 100644
--- a/stdlib/numpy/indexing.codon
+++ b/stdlib/numpy/indexing.codon
@@ -365,7 +365,7 @@ def _getset_advanced(arr, indexes, item, dtype: type):
         item_arr = None
     else:
         ans = None
-        item_arr = broadcast_to(asarray(item), ans_shape)
+        item_arr = broadcast_to(asarray(item)._without_overlap(arr, in_order=False), ans_shape)
 
     subshape = tuple(shape[i] for i in non_arrays_where)
 
@@ -431,7 +431,7 @@ def _getset_bool(arr, indexes, item, dtype: type = NoneType):
             arr_item = None
             ans = empty(num_true, arr.dtype)
         else:
-            arr_item = asarray(item)
+            arr_item = asarray(item)._without_overlap(arr)
 
             if static.len(arr_item.shape) == 1:
                 num_true = _bool_idx_num_true(indexes, sz)
@@ -545,7 +545,7 @@ def _getset(arr, indexes, item, dtype: type = NoneType):
         if static.len(arr_item.shape) == 0:
             _assign_one(sub, arr_item.item())
         else:
-            arr_bcast = broadcast_to(arr_item, sub.shape)
+            arr_bcast = broadcast_to(arr_item._without_overlap(sub), sub.shape)
             if sub._contig_match(arr_bcast):
                 q = arr_bcast._data
                 for i in range(arr_bcast.size):
diff --git a/stdlib/numpy/ndarray.codon b/stdlib/numpy/ndarray.codon
index 65270c3..ca6a01b 100644
--- a/stdlib/numpy/ndarray.codon
+++ b/stdlib/numpy/ndarray.codon
@@ -356,6 +356,37 @@ class ndarray[dtype, ndim: Literal[int]]:
         c, f = self._contig
         return c or f
 
+    def _byte_bounds(self):
+        # Addresses of the first byte and of one past the last byte of the elements
+        lower = self._data.as_byte().__int__()
+        upper = lower + self.itemsize
+        for i in static.range(static.len(self.shape)):
+            offset = (self.shape[i] - 1) * self.strides[i]
+            if offset < 0:
+                lower += offset
+            else:
+                upper += offset
+        return lower, upper
+
+    def _without_overlap(self, dst, in_order: Literal[bool] = True):
+        # Returns this array, or a copy of it if writing the elements of 'dst' one by one
+        # (in the order of this array's elements if 'in_order') could change elements of
+        # this array that are yet to be read
+        if self.size == 0 or dst.size == 0:
+            return self
+
+        if in_order and static.len(self.shape) == static.len(dst.shape):
+            if (self._data.as_byte() == dst._data.as_byte() and self.shape == dst.shape
+                and self.strides == dst.strides):
+                return self
+
+        lower1, upper1 = self._byte_bounds()
+        lower2, upper2 = dst._byte_bounds()
+        if lower1 < upper2 and lower2 < upper1:
+            return self.copy()
+        else:
+            return self
+
     def _contig_match(self, other):
         if static.len(self.shape) != static.len(other.shape):
             return False
@@ -1218,7 +1249,7 @@ class ndarray[dtype, ndim: Literal[int]]:
             )
         else:
             # The result is written into 'self', so only 'other' can be broadcast
-            ndarray._loop((self, other), _InplaceBinaryFunctor(op), broadcast='first')
+            ndarray._loop((self, other._without_overlap(self)), _InplaceBinaryFunctor(op), broadcast='first')
         return self
 
     def _iop_scalar(self, b, op):
-- 
2.43.0


From 24f0073b2c6570d735100ff239734e6d923dcfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 65/70] fix: assigning through a boolean mask reads a
 non-contiguous array by its strides

---
 stdlib/numpy/indexing.codon | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/numpy/indexing.codon b/stdlib/numpy/indexing.codon
index 987cc40..37c7547 100644
--- a/stdlib/numpy/indexing.codon
+++ b/stdlib/numpy/indexing.codon
@@ -458,7 +458,7 @@ def _getset_bool(arr, indexes, item, dtype: type = NoneType):
                         if static.len(arr_item.shape) == 0:
                             arr.data[i] = util.cast(arr_item.item(), arr.dtype)
                         else:
-                            elem = arr_item.data[0] if arr_item.size == 1 else arr_item.data[k]
+                            elem = arr_item._ptr((0,))[0] if arr_item.size == 1 else arr_item._ptr((k,))[0]
                             arr.data[i] = util.cast(elem, arr.dtype)
                     k += 1
         else:
@@ -470,7 +470,7 @@ def _getset_bool(arr, indexes, item, dtype: type = NoneType):
                         if static.len(arr_item.shape) == 0:
                             arr._ptr(idx)[0] = util.cast(arr_item.item(), arr.dtype)
                         else:
-                            elem = arr_item.data[0] if arr_item.size == 1 else arr_item.data[k]
+                            elem = arr_item._ptr((0,))[0] if arr_item.size == 1 else arr_item._ptr((k,))[0]
                             arr._ptr(idx)[0] = util.cast(elem, arr.dtype)
                     k += 1
 
-- 
2.43.0


From e2526845232d0862f315950fc0726d05bbb229ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 66/70] fix: argmin and argmax of a transposed array count
 elements in C order

---
 stdlib/numpy/reductions.codon | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stdlib/numpy/reductions.codon b/stdlib/numpy/reductions.codon
index 5d1b91d..31ef327 100644
--- a/stdlib/numpy/reductions.codon
+++ b/stdlib/numpy/reductions.codon
@@ -253,7 +253,9 @@ def _reduce_all(arr,
                     p = _increment_ptr(p, stride)
                     i += 1
         else:
-            if arr._is_contig:
+            # Reductions that result in a position count the elements in C order
+            c_order: Literal[bool] = hasattr(redux, "position")
+            if arr._contig[0] if c_order else arr._is_contig:
                 if hasattr(redux, "loop"):
                     redux.loop(p, n, arr.itemsize, partial=False)
                     i = n
@@ -291,7 +293,7 @@ def _reduce_all(arr,
 
                     i = loop_size * util.count(outer_loop_shape)
                 else:
-                    A = arr.T if arr._should_transpose() else arr
+                    A = arr.T if not c_order and arr._should_transpose() else arr
                     for idx in util.multirange(A.shape):
                         e = _cast_elem(A._ptr(idx)[0], dtype, conv_to_float)
                         redux.accept(e, i)
@@ -1572,6 +1574,9 @@ class ArgMinRedux:
     def result(self, count: int):
         return self.i
 
+    def position(self):
+        return self.i
+
     def empty(**kwargs):
         raise ValueError("attempt to get argmin of an empty sequence")
 
@@ -1598,6 +1603,9 @@ class ArgMaxRedux:
     def result(self, count: int):
         return self.i
 
+    def position(self):
+        return self.i
+
     def empty(**kwargs):
         raise ValueError("attempt to get argmax of an empty sequence")
 
-- 
2.43.0


From cbb3ae9e7e3ca073f3c7733e7b6cc11e25a04dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:41 +0000
Subject: [PATCH 67/70] fix: a ufunc's second operand must broadcast to its
 output

---
 stdlib/numpy/ufunc.codon | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/numpy/ufunc.codon b/stdlib/numpy/ufunc.codon
index 737f806..ed1ae21 100644
--- a/stdlib/numpy/ufunc.codon
+++ b/stdlib/numpy/ufunc.codon
@@ -602,7 +602,7 @@ class BinaryUFunc:
                           fcontig=fcontig)
         elif isinstance(out, ndarray):
             ans = out
-            bshape = util.broadcast(x.shape, ans.shape)
+            bshape = util.broadcast(util.broadcast(x.shape, y.shape), ans.shape)
             if bshape != ans.shape:
                 raise ValueError(
                     f"non-broadcastable output operand with shape {ans.shape} doesn't match the broadcast shape {bshape}"
-- 
2.43.0


From 4a16f7db7428c8001cce71b662e7d8afb75d9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:42 +0000
Subject: [PATCH 68/70] fix: a ufunc writing into an overlapping output reads
 its operands first

---
 stdlib/numpy/ufunc.codon | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stdlib/numpy/ufunc.codon b/stdlib/numpy/ufunc.codon
index ed1ae21..494a9ff 100644
--- a/stdlib/numpy/ufunc.codon
+++ b/stdlib/numpy/ufunc.codon
@@ -417,6 +417,7 @@ class UnaryUFunc:
                 raise ValueError(
                     f"non-broadcastable output operand with shape {ans.shape} doesn't match the broadcast shape {bshape}"
                 )
+            x = x._without_overlap(ans)
         else:
             compile_error("'out' argument must be ndarray or None")
 
@@ -497,6 +498,7 @@ class UnaryUFunc2:
                 raise ValueError(
                     f"non-broadcastable output operand with shape {ans1.shape} doesn't match the broadcast shape {bshape}"
                 )
+            x = x._without_overlap(ans1)
         else:
             compile_error("'out1' argument must be ndarray or None")
 
@@ -510,6 +512,7 @@ class UnaryUFunc2:
                 raise ValueError(
                     f"non-broadcastable output operand with shape {ans2.shape} doesn't match the broadcast shape {bshape}"
                 )
+            x = x._without_overlap(ans2)
         else:
             compile_error("'out2' argument must be ndarray or None")
 
@@ -607,6 +610,8 @@ class BinaryUFunc:
                 raise ValueError(
                     f"non-broadcastable output operand with shape {ans.shape} doesn't match the broadcast shape {bshape}"
                 )
+            x = x._without_overlap(ans)
+            y = y._without_overlap(ans)
         else:
             compile_error("'out' argument must be ndarray or None")
 
-- 
2.43.0


From 23cc9c8153a584e22578480a4b24a2aaec2c3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 69/70] fix: numpy.put accepts negative indices

---
 stdlib/numpy/routines.codon | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/numpy/routines.codon b/stdlib/numpy/routines.codon
index 0f50f4c..f093fca 100644
--- a/stdlib/numpy/routines.codon
+++ b/stdlib/numpy/routines.codon
@@ -4071,8 +4071,10 @@ def place(arr: ndarray, mask, vals):
 def put(a: ndarray, ind, v, mode: str = 'raise'):
     def fix_index(idx: int, dim: int, mode: str):
         if mode == 'raise':
-            if idx < 0 or idx >= dim:
-                raise ValueError("invalid entry in coordinates array")
+            if idx < -dim or idx >= dim:
+                raise IndexError(f"index {idx} is out of bounds for axis 0 with size {dim}")
+            if idx < 0:
+                idx += dim
         elif mode == 'wrap':
             if idx < 0:
                 while idx < 0:
-- 
2.43.0


From 0a3a9fedc302d428d18a5a43d4ae5fc717bf0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:37 +0000
Subject: [PATCH 70/70] fix: cumsum, cumprod, clip and matmul writing into an
 overlapping output read their operands first

---
 stdlib/numpy/linalg/linalg.codon | 2 ++
 stdlib/numpy/ndmath.codon        | 4 ++++
 stdlib/numpy/routines.codon      | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/stdlib/numpy/linalg/linalg.codon b/stdlib/numpy/linalg/linalg.codon
index c24dc4a..0756682 100644
--- a/stdlib/numpy/linalg/linalg.codon
+++ b/stdlib/numpy/linalg/linalg.codon
@@ -2832,6 +2832,8 @@ def _matmul_ufunc(x1, x2, out = None, dtype: type = NoneType):
     elif isinstance(out, ndarray):
         _check_out(out, ans_shape, dtype)
         ans = out
+        y1 = y1._without_overlap(out, in_order=False)
+        y2 = y2._without_overlap(out, in_order=False)
         ans.map(lambda _: cast(0, ans.dtype), inplace=True)
     else:
         compile_error("'out' must be an ndarray")
diff --git a/stdlib/numpy/ndmath.codon b/stdlib/numpy/ndmath.codon
index 92acc1d..0e59442 100644
--- a/stdlib/numpy/ndmath.codon
+++ b/stdlib/numpy/ndmath.codon
@@ -24,6 +24,7 @@ def cumprod(a, axis=None, dtype: type = NoneType, out=None):
         else:
             _check_out(out, (a.size, ))
             result = out
+            a = a._without_overlap(out)
         i = 0
         for idx in util.multirange(a.shape):
             prod *= util.cast(a._ptr(idx)[0], dtype)
@@ -38,6 +39,7 @@ def cumprod(a, axis=None, dtype: type = NoneType, out=None):
     else:
         _check_out(out, a.shape)
         result = out
+        a = a._without_overlap(out)
 
     n = a.shape[axis]
 
@@ -66,6 +68,7 @@ def cumsum(a, axis=None, dtype: type = NoneType, out=None):
         else:
             _check_out(out, (a.size, ))
             result = out
+            a = a._without_overlap(out)
 
         i = 0
         for idx in util.multirange(a.shape):
@@ -82,6 +85,7 @@ def cumsum(a, axis=None, dtype: type = NoneType, out=None):
     else:
         _check_out(out, a.shape)
         result = out
+        a = a._without_overlap(out)
 
     n = a.shape[axis]
 
diff --git a/stdlib/numpy/routines.codon b/stdlib/numpy/routines.codon
index f093fca..915cee3 100644
--- a/stdlib/numpy/routines.codon
+++ b/stdlib/numpy/routines.codon
@@ -4349,6 +4349,9 @@ def _clip_full(a, a_min, a_max, out):
             raise ValueError("'out' has incorrect shape")
 
         ans = out
+        a = a._without_overlap(out)
+        a_min = a_min._without_overlap(out)
+        a_max = a_max._without_overlap(out)
     else:
         compile_error("'out' must be an array")
 
@@ -4382,6 +4385,8 @@ def _clip_min(a, a_min, out):
             raise ValueError("'out' has incorrect shape")
 
         ans = out
+        a = a._without_overlap(out)
+        a_min = a_min._without_overlap(out)
     else:
         compile_error("'out' must be an array")
 
@@ -4412,6 +4417,8 @@ def _clip_max(a, a_max, out):
             raise ValueError("'out' has incorrect shape")
 
         ans = out
+        a = a._without_overlap(out)
+        a_max = a_max._without_overlap(out)
     else:
         compile_error("'out' must be an array")
 
-- 
2.43.0

