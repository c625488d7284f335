From dd36b7e3a34cfa775e991c51cc4961e839f026c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:48 +0000
Subject: [PATCH 001/137] fix: release the heap at shutdown without running
 destructors

Objects that are still alive when the virtual machine shuts down were
deleted after the methods they use had been freed. Deleting one of them
could drop the last reference to another one and run its destructor, which
crashed. Shut down the heap first and stop counting references there.
---
 Projects/Core/Core/VirtualMachine/Controller.cpp |  4 +++-
 Projects/Core/Core/VirtualMachine/Memory.cpp     | 10 +++++++---
 Projects/Core/Core/VirtualMachine/Memory.h       |  1 +
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 502b3f6..fbb7d11 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -27,10 +27,12 @@ void Controller::deinit()
 {
 	assert(mPhase > Phase::Startup);
 
+	// release all remaining objects before the scopes (and methods) they depend on are gone
+	mMemory->deinit();
+
 	delete mGlobalScope;
 	mGlobalScope = nullptr;
 
-	mMemory->deinit();
 	mThreads->deinit();
 	mRepository->deinit();
 
diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..0502d61 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -21,7 +21,8 @@ namespace Slang {
 
 
 Memory::Memory()
-: mNextAddress(1)
+: mIsShuttingDown(false),
+  mNextAddress(1)
 {
 }
 
@@ -32,7 +33,7 @@ Memory::~Memory()
 
 void Memory::add(const Runtime::Reference& ref)
 {
-	if ( !ref.isValid() ) {
+	if ( !ref.isValid() || mIsShuttingDown ) {
 		// cannot add address 0
 		return;
 	}
@@ -47,6 +48,9 @@ void Memory::add(const Runtime::Reference& ref)
 
 void Memory::deinit()
 {
+	// from here on all remaining objects are only released, no destructor is executed anymore
+	mIsShuttingDown = true;
+
 	for ( auto& it : mMemory ) {
 		/*
 		if( it.second.mObject ) {
@@ -109,7 +113,7 @@ const Runtime::Reference& Memory::newObject(Runtime::Object* obj)
 
 void Memory::remove(const Runtime::Reference& ref)
 {
-	if ( !ref.isValid() ) {
+	if ( !ref.isValid() || mIsShuttingDown ) {
 		// cannot delete address 0
 		return;
 	}
diff --git a/Projects/Core/Core/VirtualMachine/Memory.h b/Projects/Core/Core/VirtualMachine/Memory.h
index 79e9b79..cedd16a 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.h
+++ b/Projects/Core/Core/VirtualMachine/Memory.h
@@ -65,6 +65,7 @@ private:
 	const Runtime::Reference& reserveAddress();
 
 private:
+	bool mIsShuttingDown;
 	MemoryMap mMemory;
 	Runtime::MemoryId mNextAddress;
 };
-- 
2.43.0


From 80b1f62dc2e5c4773cfd9a2a0aed710a5a45de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:33 +0000
Subject: [PATCH 002/137] fix: leave the scope of a for loop on every way out

A for loop only removed its scope when its condition became false. After
break, return or an exception the scope of the loop stayed active, so its
variables lived on and later declarations were put into the wrong scope.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 73 +++++++++++++---------
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..75dc6c3 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -833,6 +833,48 @@ void TreeInterpreter::process(Statements* statements)
 	}
 }
 
+void TreeInterpreter::processFor(ForStatement* node)
+{
+	// execute initialization statement
+	visit(node->mInitialization);
+
+	if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+		return;
+	}
+
+	Runtime::Object condition;
+	for  ( ; ; ) {
+		if ( node->mCondition ) {
+			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
+
+			// validate loop condition
+			if ( !isTrue(condition) ) {
+				break;
+			}
+		}
+
+		// execute statement
+		visit(node->mStatement);
+
+		// check (and reset) control flow
+		switch ( mControlFlow ) {
+			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
+			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
+			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
+			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
+			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
+			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
+		}
+
+		// execute arbitrary iteration node type
+		visit(node->mIteration);
+
+		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
+			return;
+		}
+	}
+}
+
 void TreeInterpreter::pushScope(IScope* scope)
 {
 	bool allowDelete = !scope;
@@ -1020,36 +1062,7 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	// push new scope for loop variable
 	pushScope();
 
-	// execute initialization statement
-	visit(node->mInitialization);
-
-	Runtime::Object condition;
-	for  ( ; ; ) {
-		if ( node->mCondition ) {
-			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
-
-			// validate loop condition
-			if ( !isTrue(condition) ) {
-				break;
-			}
-		}
-
-		// execute statement
-		visit(node->mStatement);
-
-		// check (and reset) control flow
-		switch ( mControlFlow ) {
-			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
-			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
-			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
-			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
-		}
-
-		// execute arbitrary iteration node type
-		visit(node->mIteration);
-	}
+	processFor(node);
 
 	// pop scope to remove loop variable
 	popScope();
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index a27ec9f..9f5438b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -53,6 +53,7 @@ public: // Execution
 
 private:
 	void process(Statements* statements);
+	void processFor(ForStatement* node);
 
 	inline void visit(Node* node);
 
-- 
2.43.0


From 9f86afff3461bdd8a2853fe6a7d5205b7272de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:16 +0000
Subject: [PATCH 003/137] fix: leave expression and foreach scopes when an
 exception passes

The scope of the left side of a member access and the scopes of a foreach
loop stayed on the stack when the called method threw. An exception thrown
by an iterator also skipped a try block around the foreach loop.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 52 +++++++++++++---------
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 75dc6c3..fadd702 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -233,6 +233,23 @@ void TreeInterpreter::evaluateCopyExpression(CopyExpression* exp, Runtime::Objec
 	*result = obj;
 }
 
+void TreeInterpreter::evaluateInScope(IScope* scope, Node* exp, Runtime::Object* result)
+{
+	pushScope(scope);
+
+	try {
+		evaluate(exp, result);
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		// the scope must not outlive a change of our control flow
+		popScope();
+
+		throw;
+	}
+
+	popScope();
+}
+
 void TreeInterpreter::evaluateIsExpression(IsExpression* exp, Runtime::Object* result)
 {
 	Runtime::Object tmp;
@@ -359,12 +376,8 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	Runtime::Object left;
 	evaluate(exp->mLHS, &left);
 
-	pushScope(&left);
-
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
-
-	popScope();
+	evaluateInScope(&left, exp->mRHS, &right);
 
 	*result = right;
 }
@@ -1078,15 +1091,11 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		Runtime::Object collection;
 		tryControl(evaluate(node->mCollectionExpression, &collection));
 
-		pushScope(&collection);
-
-			evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
-
-		popScope();
+		tryControl(evaluateInScope(&collection, node->mGetIteratorExpression, &iterator));
 	}
 	else {
 		// an iterator has been provided instead of a collection
-		evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+		tryControl(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 	}
 
 	const TypeDeclaration* typeDeclaration = node->mTypeDeclaration;
@@ -1096,11 +1105,7 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		// {
 		Runtime::Object condition;
 
-		pushScope(&iterator);
-
-			evaluateMethodExpression(node->mHasNextExpression, &condition);
-
-		popScope();
+		tryControl(evaluateInScope(&iterator, node->mHasNextExpression, &condition));
 
 		if ( !isTrue(condition) ) {	// do we have more items to iterate over?
 			break;
@@ -1117,17 +1122,20 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 			// }
 
 			// iterate over next item
-			pushScope(&iterator);
-
-				evaluateMethodExpression(node->mNextExpression, loopVariable);
-
-			popScope();
+			try {
+				evaluateInScope(&iterator, node->mNextExpression, loopVariable);
+			}
+			catch ( Runtime::ControlFlow::E &e ) {
+				mControlFlow = e;
+			}
 
 			// set mutability after initializing
 			loopVariable->setMutability(typeDeclaration->mIsConst ? Mutability::Const : Mutability::Modify);
 
 			// execute statement
-			visit(node->mStatement);
+			if ( mControlFlow == Runtime::ControlFlow::Normal ) {
+				visit(node->mStatement);
+			}
 
 		popScope();		// pop scope and remove loop variable
 
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 9f5438b..4a0775e 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -97,6 +97,7 @@ private:
 	void evaluateBinaryExpression(BinaryExpression* exp, Runtime::Object* result);
 	void evaluateBooleanBinaryExpression(BooleanBinaryExpression* exp, Runtime::Object* result);
 	void evaluateCopyExpression(CopyExpression* exp, Runtime::Object* result);
+	void evaluateInScope(IScope* scope, Node* exp, Runtime::Object* result);
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
 	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
-- 
2.43.0


From 7a058a78516f2abf37aa9835a6d312e2bf2fb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:00 +0000
Subject: [PATCH 004/137] fix: evaluate arguments of a chained call in the
 scope of the caller

In a call like a.b().c(x) the argument x was looked up in the object
returned by b(), so a local variable of the caller was not found.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 16 +++++++++++++---
 Projects/Core/Core/AST/TreeInterpreter.h   |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index fadd702..dafb297 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -282,7 +282,7 @@ void TreeInterpreter::evaluateLiteral(LiteralExpression* exp, Runtime::Object* r
 	}
 }
 
-void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result)
+void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result, IScope* scope)
 {
 	std::list<Runtime::Object> objectList;	// this is a hack to prevent that the provided object parameters run out of scope
 	ParameterList params;
@@ -297,7 +297,10 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 		params.emplace_back(Parameter::CreateRuntime(param->QualifiedOuterface(), param->getValue(), param->getReference()));
 	}
 
-	IScope* scope = getScope();
+	// parameters belong to our current scope while the method itself may belong to another one
+	if ( !scope ) {
+		scope = getScope();
+	}
 
 	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
 	if ( !methodSymbol ) {
@@ -377,7 +380,14 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	evaluate(exp->mLHS, &left);
 
 	Runtime::Object right;
-	evaluateInScope(&left, exp->mRHS, &right);
+
+	auto* method = dynamic_cast<MethodExpression*>(exp->mRHS);
+	if ( method ) {
+		evaluateMethodExpression(method, &right, &left);
+	}
+	else {
+		evaluateInScope(&left, exp->mRHS, &right);
+	}
 
 	*result = right;
 }
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 4a0775e..6dbafba 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -100,7 +100,7 @@ private:
 	void evaluateInScope(IScope* scope, Node* exp, Runtime::Object* result);
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
-	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
+	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result, IScope* scope = nullptr);
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
 	void evaluateStringEvalExpression(StringEvalExpression* exp, Runtime::Object* result, IScope* scope);
-- 
2.43.0


From 23178e890f41aa43e6895e02c7b939d94bd4d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:37 +0000
Subject: [PATCH 005/137] fix: unwind properly on exit and hand over its status

The exit statement left its method without removing its frame and skipped
the finally blocks of that method, although those of its callers were
executed. The status given to exit was dropped.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp           | 2 +-
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 4 ++--
 Projects/slang/main.cpp                              | 9 +++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index dafb297..12a489d 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1071,7 +1071,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 	mThread->exception(data, node->token().position());
 
-	throw Runtime::ControlFlow::ExitProgram;
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
 }
 
 void TreeInterpreter::visitExpression(Expression* expression)
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..409649a 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -439,8 +439,8 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 	auto* thread = Controller::Instance().threads()->createThread();
 
 	auto controlflow = thread->execute(nullptr, main, params, result);
-	if ( controlflow == Runtime::ControlFlow::Throw ) {
-		throw Runtime::ControlFlow::Throw;
+	if ( controlflow == Runtime::ControlFlow::ExitProgram || controlflow == Runtime::ControlFlow::Throw ) {
+		throw controlflow;
 	}
 }
 
diff --git a/Projects/slang/main.cpp b/Projects/slang/main.cpp
index 85158bf..4bb386c 100644
--- a/Projects/slang/main.cpp
+++ b/Projects/slang/main.cpp
@@ -245,12 +245,13 @@ int main( int argc, const char* argv[] )
 		return 0;
 	}
 	catch ( Runtime::ControlFlow::E &e ) {
-		Utils::Common::printStackTrace();
-
 		if ( e == Runtime::ControlFlow::ExitProgram ) {
-			return 0;
+			return Controller::Instance().thread( 0 )->exception().getData()->getValue().toInt();
 		}
-		else if ( e == Runtime::ControlFlow::Throw ) {
+
+		Utils::Common::printStackTrace();
+
+		if ( e == Runtime::ControlFlow::Throw ) {
 			OSerror( "Exception thrown in " << Controller::Instance().thread( 0 )->exception().getPosition().toString() << std::endl
 			         << Controller::Instance().thread( 0 )->exception().getData()->ToString() );
 		}
-- 
2.43.0


From 7b8b91858b174e40752c1bfd7921f72e69d3134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:52 +0000
Subject: [PATCH 006/137] fix: keep the pending exception while a nested one is
 handled

There is only one slot for the current exception. A try statement that
handled an exception inside of a finally block, a catch block or a
destructor overwrote the exception that was still on its way, so the wrong
value was rethrown or the wrong catch block was chosen.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 15 +++++++++++++--
 Projects/slang/main.cpp                    |  7 +++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 12a489d..1081b88 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1345,6 +1345,9 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 
 void TreeInterpreter::visitTry(TryStatement* node)
 {
+	// remember the exception that is currently being handled (if there is one)
+	const auto currentException = mThread->exception();
+
 	// execute try-block
 	visitStatements(node->mTryBlock);
 
@@ -1356,7 +1359,8 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		}
 
 		// get exception data
-		Runtime::Object* exception = mThread->exception().getData();
+		const auto exceptionData = mThread->exception();
+		Runtime::Object* exception = exceptionData.getData();
 
 		// determine correct catch-block (if a correct one exists)
 		for ( auto& stmt : node->mCatchStatements ) {
@@ -1395,8 +1399,9 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		}
 	}
 
-	// store current control flow and re-set it after finally block has been executed
+	// store current control flow (and its exception) and re-set it after finally block has been executed
 	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;
+	const auto tmpException = mThread->exception();
 
 	// execute finally-block if present
 	if ( node->mFinallyBlock ) {
@@ -1409,6 +1414,12 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	// reset control flow to previous state if not set differently by finally statement
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
+		mThread->exception(tmpException);
+	}
+
+	// an exception that has been handled here must not replace the one that was raised before
+	if ( mControlFlow != Runtime::ControlFlow::ExitProgram && mControlFlow != Runtime::ControlFlow::Throw ) {
+		mThread->exception(currentException);
 	}
 }
 
diff --git a/Projects/slang/main.cpp b/Projects/slang/main.cpp
index 4bb386c..4d6bd07 100644
--- a/Projects/slang/main.cpp
+++ b/Projects/slang/main.cpp
@@ -252,8 +252,11 @@ int main( int argc, const char* argv[] )
 		Utils::Common::printStackTrace();
 
 		if ( e == Runtime::ControlFlow::Throw ) {
-			OSerror( "Exception thrown in " << Controller::Instance().thread( 0 )->exception().getPosition().toString() << std::endl
-			         << Controller::Instance().thread( 0 )->exception().getData()->ToString() );
+			const auto exception = Controller::Instance().thread( 0 )->exception();
+
+			// a throw statement without an expression does not necessarily have any data
+			OSerror( "Exception thrown in " << exception.getPosition().toString() << std::endl
+			         << ( exception.getData() ? exception.getData()->ToString() : "" ) );
 		}
 		else {
 			OSerror( "abnormal program termination!" );
-- 
2.43.0


From ad9f8c8941cf45758fc6c5c1e658b34b053fdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:52 +0000
Subject: [PATCH 007/137] fix: release thrown objects once they have been
 handled

The data of an exception was never freed, so the destructor of a thrown
object was never executed.
---
 Projects/Core/Core/Runtime/ExceptionData.cpp | 3 +--
 Projects/Core/Core/Runtime/ExceptionData.h   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/Runtime/ExceptionData.cpp b/Projects/Core/Core/Runtime/ExceptionData.cpp
index 26f90c3..e5a8879 100644
--- a/Projects/Core/Core/Runtime/ExceptionData.cpp
+++ b/Projects/Core/Core/Runtime/ExceptionData.cpp
@@ -15,7 +15,6 @@ namespace Runtime {
 
 
 ExceptionData::ExceptionData()
-: mData( nullptr )
 {
 }
 
@@ -28,7 +27,7 @@ ExceptionData::ExceptionData(Object* data, Common::Position position, std::strin
 
 Object* ExceptionData::getData() const
 {
-	return mData;
+	return mData.get();
 }
 
 const Common::Position& ExceptionData::getPosition() const
diff --git a/Projects/Core/Core/Runtime/ExceptionData.h b/Projects/Core/Core/Runtime/ExceptionData.h
index df5bef6..872b5c0 100644
--- a/Projects/Core/Core/Runtime/ExceptionData.h
+++ b/Projects/Core/Core/Runtime/ExceptionData.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <memory>
 
 // Project includes
 #include <Core/Common/Position.h>
@@ -31,7 +32,7 @@ public:
 	const std::string& getStackTrace() const;
 
 private:
-	Object *mData;
+	std::shared_ptr<Object> mData;
 	Common::Position mPosition;
 	std::string mStackTrace;
 };
-- 
2.43.0


From 10c1795a4d1f7303373fc1a431609e9791e6795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:20 +0000
Subject: [PATCH 008/137] fix: stop evaluating an expression when a constructor
 throws

The exception was only noted and the surrounding expression carried on,
which could replace it by another one or lose it.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 1081b88..0952373 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -371,7 +371,13 @@ void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object*
 	*result = *mRepository->createReference( exp->getResultType(), ANONYMOUS_OBJECT, PrototypeConstraints(), Repository::InitilizationType::Final );
 
 	// execute new object's constructor
-	mControlFlow = result->Constructor(params);
+	auto controlflow = result->Constructor(params);
+
+	switch ( controlflow ) {
+		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
+		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
+		default: break;
+	}
 }
 
 void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result)
-- 
2.43.0


From 91e6709a6849a0df911798d44bcd6a111321894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:46 +0000
Subject: [PATCH 009/137] fix: do not pass the previous reference as a default
 parameter

A parameter that got its default value was bound to the reference of the
argument before it.
---
 Projects/Core/Core/Common/Method.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..f349d94 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -295,10 +295,9 @@ ParameterList Method::mergeParameters(const ParameterList& params) const
 
 	auto paramIt = params.begin();
 
-	Runtime::Reference ref;
-
 	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
 		// initialize parameter with default value
+		Runtime::Reference ref;
 		auto value = sigIt->value();
 
 		if ( paramIt != params.end() ) {
-- 
2.43.0


From e391c17e32055f7f718a5d04d36b28144e7e3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:46 +0000
Subject: [PATCH 010/137] fix: report integer division by zero instead of
 crashing

---
 .../Core/Core/Runtime/BuildInTypes/Int16Type.cpp   | 14 ++++++++++++--
 .../Core/Core/Runtime/BuildInTypes/Int32Type.cpp   | 14 ++++++++++++--
 .../Core/Core/Runtime/BuildInTypes/Int64Type.cpp   | 14 ++++++++++++--
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..f8b1ef1 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,7 +150,12 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int16_t>( mValue.toInt() ) / divisor;
 		return;
 	}
 
@@ -265,7 +270,12 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int16_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int16_t>( mValue.toInt() ) % divisor;
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..b12bd50 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -150,7 +150,12 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int32_t>( mValue.toInt() ) / divisor;
 		return;
 	}
 
@@ -265,7 +270,12 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int32_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int32_t>( mValue.toInt() ) % divisor;
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..7f0904e 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -150,7 +150,12 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int64_t>( mValue.toInt() ) / divisor;
 		return;
 	}
 
@@ -265,7 +270,12 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
-		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
+		const auto divisor = static_cast<int64_t>( other->getValue().toInt() );
+		if ( divisor == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int64_t>( mValue.toInt() ) % divisor;
 		return;
 	}
 
-- 
2.43.0


From a037ebb0fb52f048f69c84a7623710bfec0707c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:53 +0000
Subject: [PATCH 011/137] fix: stop evaluating an expression when a nested
 assignment throws

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 0952373..84fe906 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -109,7 +109,7 @@ void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Ru
 
 	Runtime::Object right;
 	// evaluate right expression
-	tryControl(evaluate(exp->mRHS, &right));
+	evaluate(exp->mRHS, &right);
 
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
-- 
2.43.0


From 1d02b7be24e1011d77ce7bf3db66ac068d60c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:35 +0000
Subject: [PATCH 012/137] fix: pass on exceptions thrown by a cast operator

---
 Projects/Core/Core/Object.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e0fe925..b66bf44 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -360,7 +360,13 @@ void Object::operator_assign(const Object *other)
 
 	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, false, Visibility::Public);
 	if ( value_operator ) {
-		Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+		const auto controlflow = Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+
+		switch ( controlflow ) {
+			case ControlFlow::ExitProgram: throw ControlFlow::ExitProgram;	// promote control flow
+			case ControlFlow::Throw:       throw ControlFlow::Throw;		// promote control flow
+			default: break;
+		}
 		return;
 	}
 
-- 
2.43.0


From cb6330285c8b70dd3ae9bbb6b4e4c64adf67430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:23 +0000
Subject: [PATCH 013/137] fix: release the members of a base class together
 with the object

---
 Projects/Core/Core/Object.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index b66bf44..47cfc3e 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -54,6 +54,12 @@ Object::~Object()
 	if ( this != mThis ) {
 		Controller::Instance().memory()->remove(mReference);
 	}
+
+	// our base belongs to nobody but us, so its members have to be released together with it
+	auto base = mSymbols.find(IDENTIFIER_BASE);
+	if ( base != mSymbols.end() ) {
+		delete base->second;
+	}
 }
 
 Object& Object::operator= (const Object& other)
-- 
2.43.0


From ff968a95bbb22a80a83aac3e2045582bc63b186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:54 +0000
Subject: [PATCH 014/137] fix: let parameters and local variables hide members
 of the same name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 20 +++++++++++++++++++-
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8003b5a..22f08a4 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -198,6 +198,24 @@ const TokenList& TreeGenerator::getTokens() const
 	return mStackFrame->getTokens();
 }
 
+/*
+ * returns true if the given name denotes a parameter or a local variable of the current method
+ */
+bool TreeGenerator::isLocal(const std::string& name, const IScope* base) const
+{
+	for ( const IScope* scope = base; scope; scope = scope->getEnclosingScope() ) {
+		if ( scope->resolve(name, true, Visibility::Private) ) {
+			return true;
+		}
+
+		if ( scope == mMethod ) {
+			break;
+		}
+	}
+
+	return false;
+}
+
 /*
  * returns the number of errors that occurred during AST generation
  */
@@ -2464,7 +2482,7 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
 
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis ) {
+    if ( mThis && !isLocal(token->content(), base) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index f5c0fa4..2fae488 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -148,6 +148,7 @@ private: // Execution
 	static MethodScope* getMethodScope(IScope* scope) ;
 
 	inline IScope* getScope() const;
+	bool isLocal(const std::string& name, const IScope* base) const;
 	inline void popScope();
 	inline void pushScope(IScope* scope = nullptr, bool allowBreakAndContinue = false);
 	// }
-- 
2.43.0


From 40ea0edc75ee74f870d38bc4f28a23af41310fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:41 +0000
Subject: [PATCH 015/137] fix: release the variable named in a delete statement

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 +++++-
 Projects/Core/Core/Object.h                | 4 +---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 84fe906..f0e661f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1067,7 +1067,11 @@ void TreeInterpreter::visitDelete(DeleteStatement* node)
 	Runtime::Object obj;
 	tryControl(evaluate(node->mExpression, &obj));
 
-	obj = Runtime::Object();
+	// release the reference that is held by the variable itself, not only our copy of it
+	auto* symbol = dynamic_cast<SymbolExpression*>( node->mExpression );
+	if ( symbol ) {
+		resolveLValue(getScope(), symbol, false, Visibility::Designtime).assignReference(Runtime::Reference());
+	}
 }
 
 void TreeInterpreter::visitExit(ExitStatement* node)
diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index 037e09d..19d436b 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -69,6 +69,7 @@ public:	// Setup
 	void setBluePrint(Designtime::BluePrintObject* blueprint);
 
 public:	// Reference
+	void assignReference(const Reference& ref);
 	const Reference& getReference() const;
 	void setReference(const Reference& reference);
 
@@ -140,9 +141,6 @@ protected:
 	Object* mThis;
 	std::string mTypename;
 	AtomicValue mValue;
-
-private:
-	void assignReference(const Reference& ref);
 };
 
 
-- 
2.43.0


From 2a4b5715aa1fb0e598f5047474bd6074e2528c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:08 +0000
Subject: [PATCH 016/137] fix: do not look for members of a null reference in
 other scopes

---
 Projects/Core/Core/Object.cpp | 16 ++++++++++++++++
 Projects/Core/Core/Object.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 47cfc3e..735d9fe 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -345,6 +345,14 @@ bool Object::isInstanceOf(const std::string& type) const
 	return false;
 }
 
+/*
+ * a reference without an object has neither members nor methods, and the scope it has been declared in must not be mistaken for them
+ */
+bool Object::isNullReference() const
+{
+	return !mIsAtomicType && !mReference.isValid() && mMethods.empty() && mSymbols.empty();
+}
+
 bool Object::isValid() const
 {
 	if ( mIsAtomicType ) {
@@ -500,6 +508,10 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		return mThis->resolve(name, onlyCurrentScope, visibility);
 	}
 
+	if ( isNullReference() ) {
+		return nullptr;
+	}
+
 	// (1) look only in current scope
 	Symbol *result = MethodScope::resolve(name, true, visibility);
 
@@ -525,6 +537,10 @@ Slang::MethodSymbol* Object::resolveMethod(const std::string& name, const Parame
 		return mThis->resolveMethod(name, params, onlyCurrentScope, visibility);
 	}
 
+	if ( isNullReference() ) {
+		return nullptr;
+	}
+
 	// (1) look in current scope
 	Slang::MethodSymbol *result = MethodScope::resolveMethod(name, params, true, visibility);
 
diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index 19d436b..f35729d 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -128,6 +128,7 @@ protected:
 
 protected:
 	void garbageCollector();
+	bool isNullReference() const;
 
 protected:
 	Designtime::BluePrintObject* mBluePrint;
-- 
2.43.0


From f0a42301461a4949b261278c54b767252d7ec6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:25 +0000
Subject: [PATCH 017/137] fix: raise an exception when a chained call meets a
 null reference

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index f0e661f..c3e9911 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -298,12 +298,13 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 	}
 
 	// parameters belong to our current scope while the method itself may belong to another one
-	if ( !scope ) {
+	const bool isChained = scope != nullptr;
+	if ( !isChained ) {
 		scope = getScope();
 	}
 
 	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
-	if ( !methodSymbol ) {
+	if ( !methodSymbol && !isChained ) {
 		methodSymbol = resolveMethod(getEnclosingMethodScope(scope), exp->mSymbolExpression, params, Visibility::Private);
 	}
 	if ( !methodSymbol ) {
-- 
2.43.0


From 4c98e4a58f8f641b3586ecccb6bcbf39fc441610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:10 +0000
Subject: [PATCH 018/137] fix: clear a variable when it is assigned a null
 reference

---
 Projects/Core/Core/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 735d9fe..fde2cca 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -111,7 +111,7 @@ void Object::assign(const Object& other)
 		mTypename = other.mTypename;
 
 		mIsReference = other.mIsReference;
-		if ( mIsReference && other.mIsReference ) {
+		if ( mIsReference || (!mIsAtomicType && mReference.isValid()) ) {
 			assignReference(other.mReference);
 		}
 		else {
-- 
2.43.0


From a9b24c072da1a4b1632188e35470fc528ee2be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:03 +0000
Subject: [PATCH 019/137] fix: release an exception object whose constructor
 throws

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index c3e9911..7c39a0a 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -4,6 +4,7 @@
 
 // Library includes
 #include <cstring>
+#include <memory>
 
 // Project includes
 #include <Core/Common/Exceptions.h>
@@ -1341,11 +1342,11 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 {
 	// check if we are throwing new exception or if we're just rethrowing our previous one
 	if ( node->mExpression ) {
-		Runtime::Object* data = mRepository->createInstance(ANONYMOUS_OBJECT, ANONYMOUS_OBJECT, PrototypeConstraints());
-		tryControl(evaluate(node->mExpression, data));
+		std::unique_ptr<Runtime::Object> data(mRepository->createInstance(ANONYMOUS_OBJECT, ANONYMOUS_OBJECT, PrototypeConstraints()));
+		tryControl(evaluate(node->mExpression, data.get()));
 
 		// "throw" a new expression
-		mThread->exception(data, node->token().position());
+		mThread->exception(data.release(), node->token().position());
 	}
 
 	mControlFlow = Runtime::ControlFlow::Throw;
-- 
2.43.0


From 38c7a8c4a0db1e534e73bcd99199ecb0500b77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:56 +0000
Subject: [PATCH 020/137] fix: reject tokens that do not belong to a call's
 argument list

The argument list skipped everything up to the next comma after an
argument. Stray tokens were ignored, and without a later comma the
parser did not terminate.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 22f08a4..90fa9cd 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1603,14 +1603,12 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 			expression(tmp)
 		);
 
-		if ( std::distance(tmp, closed) <= 0 ) {
+		if ( tmp == closed ) {
 			break;
 		}
-		tmp = findNext(tmp, Token::Type::COMMA);
-		if ( std::distance(tmp, closed) < 0 ) {
-			break;
-		}
-		tmp++;
+
+		expect(Token::Type::COMMA, tmp);
+		++tmp;
 	}
 
 	token = ++closed;
-- 
2.43.0


From 0795c565eed4b907150cba499ed4fd4d628eb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:11 +0000
Subject: [PATCH 021/137] fix: evaluate the unary plus of numeric values

The type rules accept it for all numeric types, but every use stopped
the program with an invalid operation.
---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 32 ++-----------------
 1 file changed, 3 insertions(+), 29 deletions(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..4219e81 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -1119,35 +1119,9 @@ void operator_unary_plus( Object* lvalue )
 
 		lvalue->assign( tmp );
 	}
-	else if ( target == DoubleType::TYPENAME ) {
-		DoubleType tmp( lvalue->getValue().toDouble() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == FloatType::TYPENAME ) {
-		FloatType tmp( lvalue->getValue().toFloat() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == Int16Type::TYPENAME ) {
-		Int16Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == Int32Type::TYPENAME ) {
-		Int32Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
-	}
-	else if ( target == Int64Type::TYPENAME ) {
-		Int64Type tmp( lvalue->getValue().toInt() );
-		tmp.operator_unary_plus();
-
-		lvalue->assign( tmp );
+	else if ( target == DoubleType::TYPENAME || target == FloatType::TYPENAME ||
+			  target == Int16Type::TYPENAME || target == Int32Type::TYPENAME || target == Int64Type::TYPENAME ) {
+		// numeric values are not changed by an unary plus
 	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
-- 
2.43.0


From 329c7619ebd8a8f85998dd59e3d57ae9d4ef1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:10 +0000
Subject: [PATCH 022/137] fix: read '++ ==' and '-- ==' as two operators

Assignments were merged before the operators, so 'x++ == y' became
'x + += = y' and was rejected.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 32858d3..33fa384 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -497,8 +497,8 @@ void Tokenizer::process()
 
 	addToken(Token(Token::Type::ENDOFFILE));	// add end of file token
 
-	mergeAssignments();				// replace assignment tokens with compare tokens (if present)
 	mergeOperators();				// merge '+' '+' into '++'
+	mergeAssignments();				// replace assignment tokens with compare tokens (if present)
 	//replaceConstDataTypes();		// combines CONST_INTEGER '.' CONST_INTEGER <data type> into a CONST_FLOAT or CONST_DOUBLE
 	replaceConstDataTypesPatternMatching();		// combines CONST_INTEGER '.' CONST_INTEGER <data type> into a CONST_FLOAT or CONST_DOUBLE
 	replaceOperators();				// combine 'operator' identifiers with the next following token i.e. 'operator' '+' => 'operator+'
-- 
2.43.0


From 4b3e5b6c940fe85b7b3a474553bdfd8a5f8edd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:52 +0000
Subject: [PATCH 023/137] fix: resolve the target of an assignment after its
 value

Evaluating the value may release the object that owns the target, and
the assignment then wrote into freed memory.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 7c39a0a..9e0fef8 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -106,12 +106,13 @@ void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
 
 void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Runtime::Object* result)
 {
-	Runtime::Object& lvalue = resolveLValue(getScope(), exp->mLHS, false, Visibility::Designtime);
-
 	Runtime::Object right;
 	// evaluate right expression
 	evaluate(exp->mRHS, &right);
 
+	// resolve our lvalue after the evaluation, which may release the object that owns it
+	Runtime::Object& lvalue = resolveLValue(getScope(), exp->mLHS, false, Visibility::Designtime);
+
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
 
-- 
2.43.0


From 4b57d42a20c3849ff8d931d915a8729bea8a2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:16 +0000
Subject: [PATCH 024/137] fix: keep an object alive while one of its methods is
 running

A method that dropped the last reference to its own object went on with
freed memory. The caller now holds the object until the method is done,
and such references do not delete an object again whose destructor is
already running.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp   | 9 ++++++++-
 Projects/Core/Core/VirtualMachine/Memory.cpp | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 9e0fef8..a59df8b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -340,7 +340,14 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 		}
 	}
 	else {
-		mControlFlow = execute(dynamic_cast<Runtime::Object*>(method->getEnclosingScope()), method, params, result);
+		auto* self = dynamic_cast<Runtime::Object*>(method->getEnclosingScope());
+
+		Runtime::Object owner;	// the object must not be released as long as one of its methods is running
+		if ( self && self->getReference().isValid() ) {
+			owner = *self;
+		}
+
+		mControlFlow = execute(self, method, params, result);
 	}
 
 	switch ( mControlFlow ) {
diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index 0502d61..c9fe76d 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -76,6 +76,9 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 
 	// delete it if it's valid ...
 	if ( it->second.mObject ) {
+		// references that come and go while the destructor is running must not delete the object again
+		it->second.mCount++;
+
 		it->second.mObject->Destructor();
 
 		delete it->second.mObject;
-- 
2.43.0


From e8d9fc73fd1f078375344c44fb9f4a450f0cc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:22 +0000
Subject: [PATCH 025/137] fix: let this refer to the whole object in inherited
 methods

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++++-
 Projects/Core/Core/Object.cpp              | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index a59df8b..8b3e7df 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -505,7 +505,14 @@ void TreeInterpreter::evaluateSymbolExpression(SymbolExpression *exp, Runtime::O
 		throw Runtime::Exceptions::RuntimeException("invalid lvalue symbol type");
 	}
 
-	*result = *dynamic_cast<Runtime::Object*>(lvalue);
+	auto* object = dynamic_cast<Runtime::Object*>(lvalue);
+	*result = *object;
+
+	if ( exp->mName == IDENTIFIER_THIS && object->getReference().isValid() ) {
+		// inside of an inherited method our owner is only the base part of the object
+		*result = *Controller::Instance().memory()->get(object->getReference());
+		result->setQualifiedOuterface(object->QualifiedTypename());
+	}
 }
 
 void TreeInterpreter::evaluateTernaryExpression(TernaryExpression* exp, Runtime::Object* result)
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index fde2cca..c3a043d 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -587,6 +587,12 @@ void Object::setReference(const Reference& reference)
 {
 	mIsReference = true;
 	mReference = reference;
+
+	// our base is a part of us and not an object of its own
+	auto base = mSymbols.find(IDENTIFIER_BASE);
+	if ( base != mSymbols.end() ) {
+		dynamic_cast<Object*>(base->second)->setReference(reference);
+	}
 }
 
 void Object::setValue(const AtomicValue& value)
-- 
2.43.0


From 7f4e787258d44cc461ce5dc6258782120ceb93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:30 +0000
Subject: [PATCH 026/137] fix: call the operators of objects that are results
 of expressions

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 44 ++++++++++++++++++++++++
 Projects/Core/Core/AST/TreeGenerator.h   |  2 ++
 2 files changed, 46 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 90fa9cd..3bb6063 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -328,6 +328,9 @@ Node* TreeGenerator::parseCondition(TokenIterator& start)
 
 			condition = process_method(exp, (*start), methodParams);
 		}
+		else if ( !exp && hasObjectOperator(lhs, operation, rhs) ) {
+			condition = processObjectOperator(condition, operation, rhs);
+		}
 		else {
 			if ( op == Token::Type::COMPARE_EQUAL_CONTENT || op == Token::Type::COMPARE_UNEQUAL_CONTENT ) {
 				// content comparison requested but lhs type does not support this operator
@@ -370,6 +373,11 @@ Node* TreeGenerator::parseExpression(TokenIterator& start)
 
 		auto* exp = dynamic_cast<SymbolExpression*>(expr);
 
+		if ( !exp && hasObjectOperator(lhs, operation, rhs) ) {
+			expr = processObjectOperator(expr, operation, rhs);
+			continue;
+		}
+
 		if ( !exp || exp->isAtomicType() ) {
 			expr = new BinaryExpressionOwner(expr, operation, right, type);
 			continue;
@@ -418,6 +426,11 @@ Node* TreeGenerator::parseFactor(TokenIterator &start)
 
 		auto* exp = dynamic_cast<SymbolExpression*>(factor);
 
+		if ( !exp && hasObjectOperator(lhs, operation, rhs) ) {
+			factor = processObjectOperator(factor, operation, rhs);
+			continue;
+		}
+
 		if ( !exp || exp->isAtomicType() ) {
 			factor = new BinaryExpressionOwner(factor, operation, right, type);
 			continue;
@@ -771,6 +784,37 @@ Node* TreeGenerator::processPostfixNotOperator(TokenIterator& start, Node* baseE
 	return new UnaryExpression(Token(Token::Type::OPERATOR_VALIDATE), baseExp, UnaryExpression::ValueType::RValue);
 }
 
+bool TreeGenerator::hasObjectOperator(const Expression* lhs, const Token& operation, const Expression* rhs) const
+{
+	Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(lhs->getResultType());
+	if ( !blueprint ) {
+		return false;
+	}
+
+	ParameterList params;
+	params.emplace_back(Parameter::CreateDesigntime(ANONYMOUS_OBJECT, Common::TypeDeclaration(rhs->getResultType())));
+
+	return blueprint->resolveMethod("operator" + operation.content(), params, false) != nullptr;
+}
+
+/*
+ * calls the operator method of an object that is not a symbol but the result of another expression
+ */
+Node* TreeGenerator::processObjectOperator(Node* baseExp, const Token& operation, Expression* rhs)
+{
+	auto* lhs = dynamic_cast<Expression*>(baseExp);
+
+	auto* symbol = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
+	symbol->mSurroundingScope = mRepository->findBluePrintObject(lhs->getResultType());
+
+	ExpressionList params;
+	params.emplace_back(rhs);
+
+	MethodExpression* method = process_method(symbol, operation, params);
+
+	return new ScopeExpression(lhs, method, method->getResultType());
+}
+
 Node* TreeGenerator::processPostfixObjectOperator(const std::string& objectType, TokenIterator& start, Expression* baseExp)
 {
 	Designtime::BluePrintObject* scope = mRepository->findBluePrintObject(objectType);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 2fae488..21bc3b8 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -128,6 +128,7 @@ private: // Execution
 	Node* processIsOperator(TokenIterator& start, Node* baseExp) const;
 	static Node* processPostfixIncDecOperator(TokenIterator& start, Node* baseExp);
 	static Node* processPostfixNotOperator(TokenIterator& start, Node* baseExp);
+	Node* processObjectOperator(Node* baseExp, const Token& operation, Expression* rhs);
 	Node* processPostfixObjectOperator(const std::string& objectType, TokenIterator& start, Expression* baseExp);
 	Node* processPostfixRangeOperator(TokenIterator& start, Node* baseExp);
 	Node* processPostfixScopeOperator(TokenIterator& start, Node* baseExp);
@@ -148,6 +149,7 @@ private: // Execution
 	static MethodScope* getMethodScope(IScope* scope) ;
 
 	inline IScope* getScope() const;
+	bool hasObjectOperator(const Expression* lhs, const Token& operation, const Expression* rhs) const;
 	bool isLocal(const std::string& name, const IScope* base) const;
 	inline void popScope();
 	inline void pushScope(IScope* scope = nullptr, bool allowBreakAndContinue = false);
-- 
2.43.0


From ee0cf2e262b4951e5eef535e95700f2ad38b685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:37 +0000
Subject: [PATCH 027/137] fix: find static members and methods from instance
 methods

---
 Projects/Core/Core/Object.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index c3a043d..af52c2c 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -523,7 +523,12 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		}
 	}
 
-	// (3) if we still haven't found something also look in other scopes
+	// (3) static members belong to our class
+	if ( !result && mBluePrint ) {
+		result = dynamic_cast<Object*>(mBluePrint->resolve(name, true, visibility));
+	}
+
+	// (4) if we still haven't found something also look in other scopes
 	if ( !result && !onlyCurrentScope ) {
 		result = MethodScope::resolve(name, false, visibility);
 	}
@@ -554,7 +559,15 @@ Slang::MethodSymbol* Object::resolveMethod(const std::string& name, const Parame
 		}
 	}
 
-	// (3) if we still haven't found something also look in other scopes
+	// (3) static methods belong to our class
+	if ( !result && mBluePrint ) {
+		Slang::MethodSymbol *tmp = mBluePrint->resolveMethod(name, params, true, visibility);
+		if ( tmp && tmp->isStatic() ) {
+			result = tmp;
+		}
+	}
+
+	// (4) if we still haven't found something also look in other scopes
 	if ( !result || !result->isFinalMethod() ) {
 		if ( !onlyCurrentScope ) {
 			Slang::MethodSymbol *tmp = MethodScope::resolveMethod(name, params, false, visibility);
-- 
2.43.0


From fbab0fb5fcf10c9475e750b65ab875fd84ab43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:45 +0000
Subject: [PATCH 028/137] fix: apply ++, [] and compound assignment to the last
 part of a member path

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 31 +++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 3bb6063..d4d216d 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1053,8 +1053,17 @@ Expression* TreeGenerator::process_assignment_expression(TokenIterator& token, S
 
 			SymbolExpression* sym = new DesigntimeSymbolExpression(lhs->mName, lhs->getResultType(), PrototypeConstraints(), false);
 			sym->mSurroundingScope = lhs->mSurroundingScope;
-			sym->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
-			sym->mSymbolExpression->mSurroundingScope = blueprint;
+
+			SymbolExpression* last = sym;
+			for ( SymbolExpression* part = lhs->mSymbolExpression; part; part = part->mSymbolExpression ) {
+				last->mSymbolExpression = new DesigntimeSymbolExpression(part->mName, part->getResultType(), PrototypeConstraints(), false);
+				last->mSymbolExpression->mSurroundingScope = part->mSurroundingScope;
+
+				last = last->mSymbolExpression;
+			}
+
+			last->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
+			last->mSymbolExpression->mSurroundingScope = blueprint;
 
 			ExpressionList params;
 			params.emplace_back(rhs);
@@ -1559,8 +1568,13 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 		throw Designtime::Exceptions::SyntaxError("'" + symbol->getResultType() + "' is not a valid type", token->position());
 	}
 
-	symbol->mSymbolExpression = new DesigntimeSymbolExpression("operator" + token->content(), _void, PrototypeConstraints(), false);
-	symbol->mSymbolExpression->mSurroundingScope = type;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new DesigntimeSymbolExpression("operator" + token->content(), _void, PrototypeConstraints(), false);
+	inner->mSymbolExpression->mSurroundingScope = type;
 
 	++token;
 
@@ -1854,8 +1868,13 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 		throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
 	}
 
-	symbol->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
-	symbol->mSymbolExpression->mSurroundingScope = obj;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
+	inner->mSymbolExpression->mSurroundingScope = obj;
 
 	const Token opToken(Token::Category::Operator, Token::Type::BRACKET_OPEN, "[", token->position(), false);
 	ExpressionList params;
-- 
2.43.0


From 098d7793761de87d1f4fde123b21523a513a2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:53 +0000
Subject: [PATCH 029/137] fix: allow abstract methods to be implemented by a
 grandchild

---
 Projects/Core/Core/Object.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index af52c2c..0fac374 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -208,7 +208,13 @@ void Object::defineMethod(const std::string& name, Common::Method* method)
 	auto* old = dynamic_cast<Common::Method*>(resolveMethod(method->getName(), method->provideSignature(), true, Visibility::Designtime));
 	if ( old && old->isAbstractMethod() ) {
 		auto* base = dynamic_cast<Object*>(resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
-		base->undefineMethod(old);
+
+		// the abstract method can belong to any of our base objects
+		while ( base ) {
+			base->undefineMethod(old);
+
+			base = dynamic_cast<Object*>(base->resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
+		}
 
 		delete old;
 	}
-- 
2.43.0


From 4a9eaa056d0ea8bb582dc03138a7ef5fcb04df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:00 +0000
Subject: [PATCH 030/137] fix: allow assigning any object of the declared type
 to a variable

---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 4219e81..fcaa068 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -88,7 +88,8 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 			return;
 		}
 
-		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) ) {
+		// the declared type of our lvalue decides what can be assigned, not the type of the object it refers to at the moment
+		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) || rvalue->isInstanceOf( lvalue->QualifiedOuterface() ) ) {
 			lvalue->assign( *rvalue );
 			return;
 		}
-- 
2.43.0


From f9f9cd18a90187fa817571ded6387823320f3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:45 +0000
Subject: [PATCH 031/137] fix: let static methods use static members without
 naming the class

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d4d216d..d7ec2e6 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2543,7 +2543,8 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
 
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis && !isLocal(token->content(), base) ) {
+    // static methods don't have an object they belong to
+    if ( mThis && !mMethod->isStatic() && !isLocal(token->content(), base) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
-- 
2.43.0


From 588a2296edd31429896fcf24fded07a18ea4cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:02 +0000
Subject: [PATCH 032/137] fix: run the bool conversion operator an object
 defines

---
 Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp b/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp
index 340f934..48e6c66 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp
@@ -65,7 +65,16 @@ BoolType::BoolType( const Object& other )
 		mValue = other.getValue().toBool();
 	}
 	else {
-		mValue = other.isValid();
+		ParameterList params;
+		params.emplace_back(Parameter::CreateRuntime(TYPENAME, mValue));
+
+		if ( other.isValid() && other.resolveMethod("=operator", params, false, Visibility::Public) ) {
+			// the object defines its own conversion
+			Object::operator_assign( &other );
+		}
+		else {
+			mValue = other.isValid();
+		}
 	}
 }
 
-- 
2.43.0


From 20492fa83798c4197f371274f9c0fa16240f2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 033/137] fix: keep fixed type arguments of generic members
 inside generic classes

A member Box<int> of a generic class became Box<Object>, and a member
with exchanged type arguments was rejected.
---
 Projects/Core/Core/Common/PrototypeConstraint.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/Common/PrototypeConstraint.cpp b/Projects/Core/Core/Common/PrototypeConstraint.cpp
index 90d50ad..3f73b0c 100644
--- a/Projects/Core/Core/Common/PrototypeConstraint.cpp
+++ b/Projects/Core/Core/Common/PrototypeConstraint.cpp
@@ -90,14 +90,12 @@ PrototypeConstraints PrototypeConstraints::buildRuntimeConstraints(const Prototy
 	auto thisIt = this->begin();
 
 	for ( ; thisIt != this->end(); ++thisIt ) {
-		PrototypeConstraint constraint = other.lookupConstraint(thisIt->mDesignType);
+		// types that are no prototype parameters are kept as they are
+		const std::string& type = other.lookupType(thisIt->mDesignType);
 
-		if ( constraint.hasRuntimeType() ) {
-			result.emplace_back(constraint);
-		}
-		else {
-			result.emplace_back(PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, _object, VALUE_NONE));
-		}
+		result.emplace_back(
+			PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, type.empty() ? _object : type, VALUE_NONE)
+		);
 	}
 
 	return result;
-- 
2.43.0


From dc22fb5f677499c08c79d26cdcdad3153d6c31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:53 +0000
Subject: [PATCH 034/137] fix: let catch blocks match exceptions of generic
 types

catch ( Box<int> e ) compared the exception with the bare class name and
never matched.
---
 Projects/Core/Core/AST/TreeGenerator.cpp   | 4 +++-
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d7ec2e6..f423ae7 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2115,7 +2115,9 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 				++tmp;
 
 				// remove caught exception from list of not-caught exceptions
-				mThrownExceptions.erase(typeDeclaration->mType);
+				mThrownExceptions.erase(
+					Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration->mType, typeDeclaration->mConstraints)
+				);
 			}
 			else {
 				// this is a catch block without an exception type (= a "catch all"-block), so we have to clear all exceptions
diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 8b3e7df..7c299cb 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1392,7 +1392,9 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		// determine correct catch-block (if a correct one exists)
 		for ( auto& stmt : node->mCatchStatements ) {
 			// check if we have a catch-block with a given type that matches the thrown exception type
-			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
+			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(
+				Designtime::Parser::buildRuntimeConstraintTypename(stmt->mTypeDeclaration->mType, stmt->mTypeDeclaration->mConstraints)
+			)) ) {
 				// exception type does not match
 				continue;
 			}
-- 
2.43.0


From 1a8efc2ed5033e610f8a0ab194a5a888c15b0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:00 +0000
Subject: [PATCH 035/137] fix: prepare generic types that are only named in
 method signatures

A generic class whose method returned another instance of a generic type
was rejected unless that instance was used elsewhere before.
---
 .../Core/Core/VirtualMachine/Repository.cpp     | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 980e1c7..95e38a3 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -81,6 +81,23 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 	// add new blueprint to repository
 	addBluePrint(newBlue);
 
+	// prepare prototype types that are used in our methods' signatures
+	for ( auto method : blueprint->provideMethods() ) {
+		if ( method->isPrototype() ) {
+			prepareType(
+				Common::TypeDeclaration(method->QualifiedTypename(), method->getPrototypeConstraints().buildRuntimeConstraints(constraints))
+			);
+		}
+
+		for ( const auto& param : method->provideSignature() ) {
+			if ( !param.typeConstraints().empty() ) {
+				prepareType(
+					Common::TypeDeclaration(param.type(), param.typeConstraints().buildRuntimeConstraints(constraints))
+				);
+			}
+		}
+	}
+
 	// add new blueprint to parent scope
 	IScope* parent = blueprint->getEnclosingScope();
 	if ( parent ) {
-- 
2.43.0


From 2c6a6ddcd20e672b60f9393cbc3d37b9db577444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:07 +0000
Subject: [PATCH 036/137] fix: parse operator methods that return a generic
 type

The closing bracket of the return type was merged with the operator
keyword.
---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 33fa384..ce3d250 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -887,6 +887,7 @@ void Tokenizer::replaceOperators()
 	// try to combine all operator tokens
 	while ( token != mTokens.end() ) {
 		if ( last != mTokens.end() && (last->category() == Token::Category::Assignment || last->category() == Token::Category::Operator) &&
+				  last->type() != Token::Type::COMPARE_GREATER &&	// this ends the constraints of a prototype return type
 				  token->type() == Token::Type::RESERVED_WORD && token->content() == RESERVED_WORD_OPERATOR ) {
 			// we found an operator
 
-- 
2.43.0


From 5058fff6f6ed456028686baaa6051ab44aa739ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:01 +0000
Subject: [PATCH 037/137] fix: generate code of generic types after all types
 they depend on are set up

Generic classes whose signatures name each other with permuted type
arguments were rejected.
---
 .../Core/Core/VirtualMachine/Repository.cpp   | 39 +++++++++++++++----
 .../Core/Core/VirtualMachine/Repository.h     |  3 ++
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 95e38a3..9177d3f 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -81,6 +81,38 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 	// add new blueprint to repository
 	addBluePrint(newBlue);
 
+	// the AST of prototypes is generated as soon as all prototypes they depend on are initialized
+	const bool isOutermost = mPendingPrototypes.empty();
+	mPendingPrototypes.push_back(newBlue);
+
+	try {
+		initPrototype(blueprint, newBlue, constraints);
+	}
+	catch ( ... ) {
+		mPendingPrototypes.clear();
+		throw;
+	}
+
+	if ( isOutermost ) {
+		std::list<Designtime::BluePrintObject*> prototypes;
+		prototypes.swap(mPendingPrototypes);
+
+		if ( Controller::Instance().phase() > Controller::Phase::Preparation ) {
+			for ( auto* prototype : prototypes ) {
+				AST::TreeGenerator generator( this );
+				generator.process(prototype);
+			}
+		}
+	}
+
+	return newBlue;
+}
+
+/*
+ * initializes a blueprint that has been created from a prototype
+ */
+void Repository::initPrototype(Designtime::BluePrintObject* blueprint, Designtime::BluePrintObject* newBlue, const PrototypeConstraints& constraints)
+{
 	// prepare prototype types that are used in our methods' signatures
 	for ( auto method : blueprint->provideMethods() ) {
 		if ( method->isPrototype() ) {
@@ -106,13 +138,6 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 
 	// initialize newly created blueprint
 	initBluePrintObject(newBlue);
-
-	if ( Controller::Instance().phase() > Controller::Phase::Preparation ) {
-		AST::TreeGenerator generator( this );
-		generator.process(newBlue);
-	}
-
-	return newBlue;
 }
 
 /*
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index f3435e9..a1f8499 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <list>
 #include <map>
 #include <string>
 
@@ -72,10 +73,12 @@ private:
 	Runtime::Object* createUserType(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 
 	void initBluePrintObject(Designtime::BluePrintObject* blueprint);
+	void initPrototype(Designtime::BluePrintObject* blueprint, Designtime::BluePrintObject* newBlue, const PrototypeConstraints& constraints);
 	void initTypeSystem(Designtime::BluePrintObject* blueprint);
 
 private:
 	BluePrintObjectMap mBluePrintObjects;
+	std::list<Designtime::BluePrintObject*> mPendingPrototypes;
 };
 
 
-- 
2.43.0


From c9da813a3bfb76946587d6f5181d405e4d04dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:56 +0000
Subject: [PATCH 038/137] fix: find enumerations of a class from its instance
 methods

---
 Projects/Core/Core/Object.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 0fac374..d68196f 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -529,9 +529,14 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		}
 	}
 
-	// (3) static members belong to our class
+	// (3) static members and nested enumerations belong to our class
 	if ( !result && mBluePrint ) {
-		result = dynamic_cast<Object*>(mBluePrint->resolve(name, true, visibility));
+		auto* symbol = mBluePrint->resolve(name, true, visibility);
+		auto* blueprint = dynamic_cast<Designtime::BluePrintObject*>(symbol);
+
+		if ( dynamic_cast<Object*>(symbol) || (blueprint && blueprint->isEnumeration()) ) {
+			result = symbol;
+		}
 	}
 
 	// (4) if we still haven't found something also look in other scopes
-- 
2.43.0


From 7b0efc0d985adb2b0b506919b2d07a056cce8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:37 +0000
Subject: [PATCH 039/137] fix: compare enumeration values with integers

The type check accepts <, <=, > and >= between an enumeration value and
an integer, but the comparison failed when it was executed.
---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index fcaa068..498d000 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -27,6 +27,17 @@ namespace Slang {
 namespace Runtime {
 
 
+/*
+ * values of an enumeration can be compared with each other and with integers
+ */
+static bool isComparableEnumeration( const Object* lvalue, const Object* rvalue )
+{
+	return lvalue->isEnumerationValue() &&
+		   (rvalue->QualifiedTypename() == Int32Type::TYPENAME ||
+		   (rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename()));
+}
+
+
 void operator_binary_assign( Object* lvalue, Object* rvalue )
 {
 	if ( !lvalue || !rvalue ) {
@@ -347,7 +358,7 @@ bool operator_binary_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() == rvalue->getValue().toInt();
 	}
 
@@ -404,7 +415,7 @@ bool operator_binary_greater( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_greater( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() > rvalue->getValue().toInt();
 	}
 
@@ -456,7 +467,7 @@ bool operator_binary_greater_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_greater_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() >= rvalue->getValue().toInt();
 	}
 
@@ -508,7 +519,7 @@ bool operator_binary_less( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_less( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() < rvalue->getValue().toInt();
 	}
 
@@ -560,7 +571,7 @@ bool operator_binary_less_equal( Object* lvalue, Object* rvalue )
 		VoidType tmp;
 		return tmp.operator_less_equal( rvalue );
 	}
-	if ( lvalue->isEnumerationValue() && rvalue->isEnumerationValue() && lvalue->QualifiedTypename() == rvalue->QualifiedTypename() ) {
+	if ( isComparableEnumeration( lvalue, rvalue ) ) {
 		return lvalue->getValue().toInt() <= rvalue->getValue().toInt();
 	}
 
-- 
2.43.0


From 83cf614590072a4f0cb996d2b045b039abfec366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:52 +0000
Subject: [PATCH 040/137] fix: reject arithmetic on enumeration values

The type table allowed + - * / % for two values of an enumeration although
no such operation exists. The program was accepted and stopped when it
reached the expression.
---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 9177d3f..b134aaa 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -690,11 +690,7 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 		define(Designtime::Int32Type::TYPENAME, Token::Type::COMPARE_UNEQUAL,       blueprint->QualifiedTypename(), _bool);
 
 		// arithmetic operators
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_ADDITION, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_DIVIDE,   blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_MODULO,   blueprint->QualifiedTypename(), _float);
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_MULTIPLY, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
-		define(blueprint->QualifiedTypename(), Token::Type::MATH_SUBTRACT, blueprint->QualifiedTypename(), blueprint->QualifiedTypename());
+		// no arithmetic operators available
 
 		// typecast operator
 		define(_int32, Token::Type::TYPECAST, blueprint->QualifiedTypename(), _int32);
-- 
2.43.0


From 769e4a5204e983c34fefe01341552900dee61a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:52 +0000
Subject: [PATCH 041/137] fix: support bit operators for int16 and int64

The type table allows & and | for these types, but executing them ended the
program with an invalid operation.
---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 498d000..4c7fc0e 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -136,12 +136,24 @@ void operator_binary_bitand( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitand( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitand( rvalue );
@@ -236,12 +248,24 @@ void operator_binary_bitor( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitor( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitor( rvalue );
-- 
2.43.0


From 00b53b162c36e4b68d0203f3b69fedec2e24ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:52 +0000
Subject: [PATCH 042/137] fix: reject ++ and -- on types without increment

Incrementing a bool, string or enumeration variable was accepted and ended
the program when it was executed.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index f423ae7..abc836b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1553,6 +1553,9 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	}
 
 	if ( lhs->isAtomicType() ) {
+		// only types with a sign can be incremented or decremented
+		resolveType(token, lhs->getResultType(), Token(Token::Type::MATH_ADDITION, token->content()), std::string(_unary_));
+
 		return new UnaryExpression((*token++), lhs, UnaryExpression::ValueType::LValue);
 	}
 
-- 
2.43.0


From f659e6d7acb1c71923fb449fee89f232c8866125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:52 +0000
Subject: [PATCH 043/137] fix: reject case values that cannot be compared with
 the switch value

Case values were not type checked, so a switch over a float with a string
case was accepted and stopped at run time.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index abc836b..8dc32f3 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1984,6 +1984,15 @@ Statement* TreeGenerator::process_switch(TokenIterator& token)
 
 			Node* caseExpression = expression(token);
 
+			// atomic values can only be compared with values of a comparable type
+			const std::string caseType = dynamic_cast<Expression*>(caseExpression)->getResultType();
+			const std::string switchType = dynamic_cast<Expression*>(switchExpression)->getResultType();
+			if ( caseType != switchType && (isAtomicType(caseType) || isAtomicType(switchType)) &&
+				 !mRepository->exists(switchType, Token::Type::COMPARE_EQUAL, caseType) &&
+				 !mRepository->exists(caseType, Token::Type::COMPARE_EQUAL, switchType) ) {
+				throw Common::Exceptions::TypeMismatch("cannot compare '" + switchType + "' with '" + caseType + "' in switch", token->position());
+			}
+
 			expect(Token::Type::COLON, token);
 			++token;
 
-- 
2.43.0


From a9de433574bb788bddf5beb6399c6bd93f81c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:52 +0000
Subject: [PATCH 044/137] fix: treat this as constant in const methods

Members could be changed in a const method by writing this.member, and
modifying methods could be called through this.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8dc32f3..6fd82bb 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2414,7 +2414,13 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			scope = blueprint;
 
-			symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
+			if ( name == IDENTIFIER_THIS ) {
+				// our own object is constant in const methods
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, mMethod->isConstMethod(), true, blueprint->isAtomicType());
+			}
+			else {
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
+			}
 			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
 		} break;
 		case Symbol::IType::NamespaceSymbol: {
-- 
2.43.0


From 3391b234d1796fe3880a1e9267aaf01d34ce46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:52 +0000
Subject: [PATCH 045/137] fix: allow const methods to modify other objects of
 their class

A const method was not allowed to call a modifying method of a modifiable
parameter or local variable if that object was of its own class.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 6fd82bb..2d9f24b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1729,8 +1729,9 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 		break;
 	}
 
-	// prevent calls to modifiable methods from const methods
-	if ( mMethod->isConstMethod() && mMethod->getEnclosingScope() == method->getEnclosingScope() && !method->isConstMethod() && method->getMethodType() == MethodType::Method ) {
+	// prevent calls to modifiable methods from const methods (unless they are called for another object)
+	const bool otherObject = symbol->mSymbolExpression && symbol->mName != IDENTIFIER_THIS && symbol->mName != IDENTIFIER_BASE;
+	if ( mMethod->isConstMethod() && mMethod->getEnclosingScope() == method->getEnclosingScope() && !method->isConstMethod() && method->getMethodType() == MethodType::Method && !otherObject ) {
 		throw Common::Exceptions::ConstCorrectnessViolated("only calls to const methods are allowed in const method '" + mMethod->getFullScopeName() + "'", token.position());
 	}
 
-- 
2.43.0


From dcf84c4eef873ec9822beded3e9e128d57195854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:52 +0000
Subject: [PATCH 046/137] fix: reject delete of constant variables

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 2d9f24b..52e40e7 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1231,7 +1231,11 @@ Statement* TreeGenerator::process_delete(TokenIterator& token)
 {
 	const Token start = (*token);
 
-	Node* exp = expression(token);
+	auto* exp = dynamic_cast<Expression*>(expression(token));
+
+	if ( exp && exp->isConst() ) {
+		throw Common::Exceptions::ConstCorrectnessViolated("tried to delete const symbol", start.position());
+	}
 
 	expect(Token::Type::SEMICOLON, token);
 	++token;
-- 
2.43.0


From 942555ae4db0b5c0e554a3cfaa081aa9ca70a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:00 +0000
Subject: [PATCH 047/137] fix: keep private members out of reach of derived
 classes

A method of a derived class could name private members and methods of its base
class. The methods were called, reading a member failed only at run time.
SequenceStar relied on a private member of Sequence, which is protected now.
---
 Projects/Core/Core/Scope.cpp                 | 6 ++++--
 Projects/Library/libBehaviourTree/Control.os | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/Scope.cpp b/Projects/Core/Core/Scope.cpp
index 19244b4..1c0b3bb 100644
--- a/Projects/Core/Core/Scope.cpp
+++ b/Projects/Core/Core/Scope.cpp
@@ -338,7 +338,8 @@ Symbol* MethodScope::resolve(const std::string& name, bool onlyCurrentScope, Vis
 			Symbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, visibility); break;
+				// private members of a base class are not accessible
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, visibility < Visibility::Protected ? Visibility::Protected : visibility); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolve(name, true, visibility); break;
 				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, visibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
@@ -381,7 +382,8 @@ MethodSymbol* MethodScope::resolveMethod(const std::string& name, const Paramete
 			MethodSymbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, visibility); break;
+				// private methods of a base class are not accessible
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, visibility < Visibility::Protected ? Visibility::Protected : visibility); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolveMethod(name, params, true, visibility); break;
 				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, visibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
diff --git a/Projects/Library/libBehaviourTree/Control.os b/Projects/Library/libBehaviourTree/Control.os
index 9cfdce6..059bfbf 100644
--- a/Projects/Library/libBehaviourTree/Control.os
+++ b/Projects/Library/libBehaviourTree/Control.os
@@ -128,7 +128,7 @@ public object Sequence extends Control {
         return NodeStatus.Success;
     }
 
-    private int Index = 0;
+    protected int Index = 0;
 }
 
 public object ReactiveSequence extends Sequence {
-- 
2.43.0


From f3edc4f6a316192042428002ab08c10b1205de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:00 +0000
Subject: [PATCH 048/137] fix: access private members of derived objects from
 their class

A method that reads a private member of another object of its class failed when
that object belonged to a derived class.
---
 Projects/Core/Core/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index d68196f..cf431e3 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -525,7 +525,7 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	if ( !result ) {
 		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
 		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
-			result = base->resolve(name, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);
+			result = base->resolve(name, onlyCurrentScope, visibility == Visibility::Private ? Visibility::Protected : visibility);
 		}
 	}
 
-- 
2.43.0


From ce851a1c4a8f854153b6fc8e6ac7789b7930fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:00 +0000
Subject: [PATCH 049/137] fix: check the visibility of every part of a member
 path

A path that started at a member of the own class reached private and protected
members of other classes. Private static members could not be named through the
name of their own class.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 52e40e7..33ffd5b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2466,10 +2466,12 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 		else if ( name == IDENTIFIER_THIS ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
 		}
-		else if ( mThis && dynamic_cast<Runtime::Object*>(result)
-			   && mThis == dynamic_cast<Runtime::Object*>(result)->getBluePrint() ) {
+		else if ( mThis && mThis == dynamic_cast<Designtime::BluePrintObject*>(scope) ) {
 			visibility = Visibility::Private;		// this allows us full access to our owners class' members/methods
 		}
+		else {
+			visibility = Visibility::Public;		// only public members/methods of other classes are accessible
+		}
 
 		symbol->mSymbolExpression = resolve(++token, scope, true, visibility);
 
-- 
2.43.0


From 46c500931587617fe8e429ceb4e6cb1806b5a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:19 +0000
Subject: [PATCH 050/137] fix: check the visibility of the overload that is
 called

A private method could be called from anywhere when its class had a public
method of the same name.
---
 Projects/Core/Core/AST/Expression.h      |  2 ++
 Projects/Core/Core/AST/TreeGenerator.cpp | 10 ++++++----
 Projects/Core/Core/AST/TreeGenerator.h   |  2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/Expression.h b/Projects/Core/Core/AST/Expression.h
index a942401..f9b40a7 100644
--- a/Projects/Core/Core/AST/Expression.h
+++ b/Projects/Core/Core/AST/Expression.h
@@ -451,6 +451,7 @@ public:
 	std::string mName;
 	IScope* mSurroundingScope;
 	SymbolExpression* mSymbolExpression;
+	Visibility::E mVisibility;	// visibility a symbol needs in order to be accessible
 
 protected:
 	explicit SymbolExpression(std::string name, const std::string& resultType, bool isAtomicType)
@@ -458,6 +459,7 @@ protected:
 	  mName(std::move(name)),
 	  mSurroundingScope(nullptr),
 	  mSymbolExpression(nullptr),
+	  mVisibility(Visibility::Private),
 	  mSymbolExpressionType(SymbolExpressionType::DesigntimeSymbolExpression)
 	{
 		mIsAtomicType = isAtomicType;
diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 33ffd5b..d32d0b9 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1695,7 +1695,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 		));
 	}
 
-	auto* method = dynamic_cast<Common::Method*>(resolveMethod(symbol, params, Visibility::Private));
+	auto* method = dynamic_cast<Common::Method*>(resolveMethod(symbol, params));
 	if ( !method ) {
 		// provide a list of similar methods, so the user can check if just one of the parameter types is used incorrectly
 		auto methods = provideSimilarMethods( symbol );
@@ -2391,7 +2391,8 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 	std::string type;
 
 	// retrieve symbol for token from base scope
-	Symbol* result = base->resolve(name, onlyCurrentScope, !onlyCurrentScope ? Visibility::Private : visibility);
+	const Visibility::E lookupVisibility = !onlyCurrentScope ? Visibility::Private : visibility;
+	Symbol* result = base->resolve(name, onlyCurrentScope, lookupVisibility);
 	if ( !result ) {
 		return nullptr;
 	}
@@ -2483,11 +2484,12 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 		}
 	}
 	symbol->mSurroundingScope = base;
+	symbol->mVisibility = lookupVisibility;
 
 	return symbol;
 }
 
-MethodSymbol* TreeGenerator::resolveMethod(const SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility)
+MethodSymbol* TreeGenerator::resolveMethod(const SymbolExpression* symbol, const ParameterList& params)
 {
 	if ( !symbol ) {
 		throw Common::Exceptions::InvalidSymbol("invalid symbol provided");
@@ -2512,7 +2514,7 @@ MethodSymbol* TreeGenerator::resolveMethod(const SymbolExpression* symbol, const
 		throw Designtime::Exceptions::DesigntimeException("invalid scope");
 	}
 
-	return scope->resolveMethod(inner->mName, params, onlyCurrentScope, visibility);
+	return scope->resolveMethod(inner->mName, params, onlyCurrentScope, inner->mVisibility);
 }
 
 std::string TreeGenerator::resolveType(TokenIterator& token, Node* left, const Token& operation, Node* right) const
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 21bc3b8..2b26c78 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -139,7 +139,7 @@ private: // Execution
 	SymbolExpression* resolve(TokenIterator& token, IScope* base, bool onlyCurrentScope, Visibility::E visibility) const;
 	SymbolExpression* resolveWithExceptions(TokenIterator& token, IScope* base) const;
 	SymbolExpression* resolveWithThis(TokenIterator& token, IScope* base) const;
-	static MethodSymbol* resolveMethod(const SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility);
+	static MethodSymbol* resolveMethod(const SymbolExpression* symbol, const ParameterList& params);
 	std::string resolveType(TokenIterator& token, Node* left, const Token& operation, Node* right) const;
 	std::string resolveType(const TokenIterator& token, const std::string& left, const Token& operation, const std::string& right) const;
 
-- 
2.43.0


From 443a61f38fc7f25816a892bf97a04b287da16e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:54 +0000
Subject: [PATCH 051/137] fix: allow calls of private methods on results of the
 own class

A class could call a private method of one of its objects when a variable held
it, but not when it was the result of an expression.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d32d0b9..c3b4d2e 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -909,7 +909,8 @@ Node* TreeGenerator::processPostfixScopeOperator(TokenIterator& start, Node* bas
 		throw Designtime::Exceptions::SyntaxError("invalid type '" + infixPostfix->getResultType() + "' detected!", start->position());
 	}
 
-	SymbolExpression* symbolExpression = resolve(start, scope, true, Visibility::Public);
+	// full access to members/methods is limited to objects of our own class
+	SymbolExpression* symbolExpression = resolve(start, scope, true, mThis == scope ? Visibility::Private : Visibility::Public);
 	if ( !symbolExpression ) {
 		throw Designtime::Exceptions::SyntaxError("invalid symbol '" + start->content() + "' for type '" + infixPostfix->getResultType() + "' detected!", start->position());
 	}
-- 
2.43.0


From 533244bb12f963e8e6de7429299c30be747c7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:51 +0000
Subject: [PATCH 052/137] fix: keep the control flow of a try block followed by
 a finally block

A method whose try block returned a value was rejected for a missing return
statement when a finally block followed.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c3b4d2e..8a30174 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2160,9 +2160,16 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 
 			++tmp;
 
+			const auto controlFlow = mControlFlow;
+
 			// parse finally-block
 			finallyBlock = process_scope(tmp);
 
+			if ( mControlFlow == Runtime::ControlFlow::Normal ) {
+				// our finally-block doesn't change the control flow of the preceding blocks
+				mControlFlow = controlFlow;
+			}
+
 			// set token to end of finally-block
 			token = tmp;
 		}
-- 
2.43.0


From 0771d6928843ba416cb3558c6ae60a405833bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:51 +0000
Subject: [PATCH 053/137] fix: do not treat exceptions of catch and finally
 blocks as caught

A throw in a catch block was ignored when another catch block followed, and a
throw in a finally block when there was no catch block. The method could throw
without being marked with throws.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8a30174..c91cbee 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2102,6 +2102,10 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 	// process try-block
 	Statements* tryBlock = process_scope(token);
 
+	// exceptions thrown inside the try-block; those thrown by catch- or finally-blocks are not caught by this statement
+	std::set<std::string> uncaughtExceptions;
+	uncaughtExceptions.swap(mThrownExceptions);
+
 	auto tmp = lookahead(token);
 	auto localEnd = getTokens().end();
 
@@ -2133,13 +2137,13 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 				++tmp;
 
 				// remove caught exception from list of not-caught exceptions
-				mThrownExceptions.erase(
+				uncaughtExceptions.erase(
 					Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration->mType, typeDeclaration->mConstraints)
 				);
 			}
 			else {
 				// this is a catch block without an exception type (= a "catch all"-block), so we have to clear all exceptions
-				mThrownExceptions.clear();
+				uncaughtExceptions.clear();
 			}
 
 			// TODO: prevent duplicate catch-blocks
@@ -2182,10 +2186,11 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 
 	if ( catchStatements.empty() ) {
 		// this is a try-block without catch statements (= a "no throw" try-block), so we have to clear all exceptions
-		mThrownExceptions.clear();
+		uncaughtExceptions.clear();
 	}
 
 	// merge local thrown exceptions list with global list
+	mThrownExceptions.insert(uncaughtExceptions.begin(), uncaughtExceptions.end());
 	mThrownExceptions.insert(thrownExceptions.begin(), thrownExceptions.end());
 
 	expect(Token::Type::BRACKET_CURLY_CLOSE, token);
-- 
2.43.0


From 5599874ba59d1d61147b79789764da21790eb674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:51 +0000
Subject: [PATCH 054/137] fix: accept a handler for the base class of a thrown
 exception

A method that caught all exceptions of a derived class by their base class had
to be marked with throws nevertheless.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c91cbee..b0f2b05 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2136,10 +2136,19 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 				expect(Token::Type::PARENTHESIS_CLOSE, tmp);
 				++tmp;
 
-				// remove caught exception from list of not-caught exceptions
-				uncaughtExceptions.erase(
-					Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration->mType, typeDeclaration->mConstraints)
-				);
+				const auto caughtType = Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration->mType, typeDeclaration->mConstraints);
+
+				// remove caught exceptions (and the ones derived from them) from list of not-caught exceptions
+				for ( auto it = uncaughtExceptions.begin(); it != uncaughtExceptions.end(); ) {
+					Designtime::BluePrintObject* blueprint = mRepository->findBluePrintObject(*it);
+
+					if ( (*it) == caughtType || (blueprint && blueprint->isOfType(caughtType)) ) {
+						it = uncaughtExceptions.erase(it);
+					}
+					else {
+						++it;
+					}
+				}
 			}
 			else {
 				// this is a catch block without an exception type (= a "catch all"-block), so we have to clear all exceptions
-- 
2.43.0


From 7fa51bf7613300261a84e58e66a3335bded7abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:52 +0000
Subject: [PATCH 055/137] fix: reject parameters of unknown type

A parameter of a method or function could name a type that does not exist.
The program was accepted.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index b0f2b05..a9e7547 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -255,6 +255,10 @@ void TreeGenerator::initialize(Common::Method* method)
 			continue;
 		}
 
+		if ( !mRepository->findBluePrintObject(param.type()) ) {
+			throw Common::Exceptions::UnknownIdentifier("unknown type '" + param.type() + "' of parameter '" + param.name() + "' in '" + mMethod->getFullScopeName() + "'");
+		}
+
 		Runtime::Object* object = mRepository->createInstance(param.type(), param.name(), param.typeConstraints());
 		object->setIsReference(param.access() == AccessMode::ByReference);
 		object->setMutability(param.mutability());
-- 
2.43.0


From b782ff0c1e4abd71305fb326223f303d160f3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:52 +0000
Subject: [PATCH 056/137] fix: allow static methods to call methods of objects
 of their class

A static method could not call a non-static method of its own class even
through a variable, for example on an object it had just created.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index a9e7547..c464787 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1750,7 +1750,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 	}
 
 	// prevent calls to non-static methods from static methods
-	if ( mMethod->getEnclosingScope() == method->getEnclosingScope() && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method ) {
+	if ( mMethod->getEnclosingScope() == method->getEnclosingScope() && mMethod->isStatic() && !method->isStatic() && method->getMethodType() == MethodType::Method && !otherObject ) {
 		throw Common::Exceptions::StaticException("non-static method \"" + method->ToString() + "\" called from static method \"" + mMethod->getFullScopeName() + "\"", token.position());
 	}
 
-- 
2.43.0


From 1d2a6e1be0fa034d0cee60d051bc3b549d1225a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:00 +0000
Subject: [PATCH 057/137] fix: allow const and static methods to call methods
 of results

Calls such as other.next().update() were checked as if they were calls of
the method's own object when both have the same class.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 10 +++++-----
 Projects/Core/Core/AST/TreeGenerator.h   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c464787..fb49be5 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -920,7 +920,7 @@ Node* TreeGenerator::processPostfixScopeOperator(TokenIterator& start, Node* bas
 	}
 
 	if ( start->type() == Token::Type::PARENTHESIS_OPEN ) {
-		MethodExpression* method = process_method(symbolExpression, start);
+		MethodExpression* method = process_method(symbolExpression, start, true);
 
 		return new ScopeExpression(infixPostfix, method, method->getResultType());
 	}
@@ -1655,7 +1655,7 @@ Statement* TreeGenerator::process_keyword(TokenIterator& token)
  * syntax:
  * <type> <identifier>(<parameter list>);
  */
-MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenIterator& token)
+MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenIterator& token, bool isChained)
 {
 	const Token start = (*token);
 
@@ -1683,10 +1683,10 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 
 	token = ++closed;
 
-	return process_method(symbol, start, params);
+	return process_method(symbol, start, params, isChained);
 }
 
-MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions)
+MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions, bool isChained)
 {
 	ParameterList params;
 	for ( const auto& expr : expressions ) {
@@ -1739,7 +1739,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 	}
 
 	// prevent calls to modifiable methods from const methods (unless they are called for another object)
-	const bool otherObject = symbol->mSymbolExpression && symbol->mName != IDENTIFIER_THIS && symbol->mName != IDENTIFIER_BASE;
+	const bool otherObject = isChained || (symbol->mSymbolExpression && symbol->mName != IDENTIFIER_THIS && symbol->mName != IDENTIFIER_BASE);
 	if ( mMethod->isConstMethod() && mMethod->getEnclosingScope() == method->getEnclosingScope() && !method->isConstMethod() && method->getMethodType() == MethodType::Method && !otherObject ) {
 		throw Common::Exceptions::ConstCorrectnessViolated("only calls to const methods are allowed in const method '" + mMethod->getFullScopeName() + "'", token.position());
 	}
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 2b26c78..e936318 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -94,8 +94,8 @@ private: // Execution
 	Statement* process_if(TokenIterator& token);
 	Expression* process_incdecrement(TokenIterator& token, Expression* lhs);
 	Statement* process_keyword(TokenIterator& token);
-	MethodExpression* process_method(SymbolExpression* symbol, TokenIterator& token);
-	MethodExpression* process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions);
+	MethodExpression* process_method(SymbolExpression* symbol, TokenIterator& token, bool isChained = false);
+	MethodExpression* process_method(SymbolExpression* symbol, const Token& token, const ExpressionList& expressions, bool isChained = false);
 	Expression* process_new(TokenIterator& token);
 	Statement* process_print(TokenIterator& token);
 	Statement* process_return(TokenIterator& token);
-- 
2.43.0


From dfa63e6fab709639a132478ecda7f3d738086d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:12 +0000
Subject: [PATCH 058/137] fix: do not load the script again if a module imports
 it

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 409649a..530be17 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -230,6 +230,9 @@ Script* VirtualMachine::createScriptFromFile(const std::string& filename)
 	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
 	mScriptFile = Utils::Tools::Files::GetFullname(filename);
 
+	// our script is already loaded, importing it again is not necessary
+	mImportedLibraries.insert( mScriptFile );
+
 	return createScript(content);
 }
 
-- 
2.43.0


From 29cf0542e408716d4f3806ae301bcd38a7c47427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:12 +0000
Subject: [PATCH 059/137] fix: resolve imports of a script relative to the
 script first

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 530be17..18b258b 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -168,8 +168,14 @@ Script* VirtualMachine::createScript(const std::string& content)
 	// load all library references
 	auto libraryImports = analyser.getLibraryReferences();
 	for ( const auto& file : libraryImports ) {
+		// (1) first try to resolve relative to the script
+		if ( !mScriptFile.empty() && loadLibrary( buildFilename( Utils::Tools::Files::ExtractPathname( mScriptFile ), file ), mScriptFile ) ) {
+			continue;
+		}
+
 		bool imported{ false };
 
+		// (2) then try to resolve via the library folders
 		for ( const auto& folder : mLibraryFolders ) {
 			if ( loadLibrary( buildFilename( folder, file ), mScriptFile ) ) {
 				imported = true;
-- 
2.43.0


From 8e9aafc05d0acec8cf9a5ea2e6f80746e197bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:44 +0000
Subject: [PATCH 060/137] fix: do not search modules under an incomplete path
 if their folder does not exist

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 8 ++++----
 Projects/Utils/Tools/Files.cpp                       | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 18b258b..9fe5292 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -483,23 +483,23 @@ namespace {
 		// (1) look for a ".slang" file (new standard)
 		auto file = path + ".slang";
 		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
+			return Utils::Tools::Files::GetFullname( file );
 		}
 
 		// (2) look for a ".os" file (deprecated)
 		file = path + ".os";
 		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
+			return Utils::Tools::Files::GetFullname( file );
 		}
 
 		// (3) look for an "All.slang" file (new standard)
 		file = Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".slang";
 		if ( Utils::Tools::Files::exists( file ) ) {
-			return file;
+			return Utils::Tools::Files::GetFullname( file );
 		}
 
 		// (4) look for an "All.os" file as a last resort (deprecated)
-		return Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os";
+		return Utils::Tools::Files::GetFullname( Utils::Tools::Files::BuildPath( path, std::string( "/All" ) ) + ".os" );
 	}
 
 }
diff --git a/Projects/Utils/Tools/Files.cpp b/Projects/Utils/Tools/Files.cpp
index 57e2e6e..59c1fc9 100644
--- a/Projects/Utils/Tools/Files.cpp
+++ b/Projects/Utils/Tools/Files.cpp
@@ -103,8 +103,10 @@ std::string GetFullname(const std::string& filename)
 #else
 
 	char full_path[PATH_MAX];
-	const char* result = realpath(filename.c_str(), full_path);
-	(void)result;
+	if ( !realpath(filename.c_str(), full_path) ) {
+		// the content of our buffer is not specified if the file does not exist
+		return filename;
+	}
 
 	return std::string(full_path);
 
-- 
2.43.0


From 58c0a1373d0661af20dec46960378ea1887e8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:49 +0000
Subject: [PATCH 061/137] fix: report incomplete for statements instead of
 reading past the end of the method

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index fb49be5..1cd10d6 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1319,6 +1319,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		initialization = process_statement(token);
 	}
 
+	expect(Token::Type::SEMICOLON, token);
 	++token;
 	// }
 
@@ -1333,6 +1334,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		}
 	}
 
+	expect(Token::Type::SEMICOLON, token);
 	++token;
 	// }
 
@@ -1343,6 +1345,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		iteration = process_statement(token, true);
 	}
 
+	expect(Token::Type::PARENTHESIS_CLOSE, token);
 	++token;
 	// }
 
-- 
2.43.0


From 7ab6e1641273eccde3f47de68195c04c573d03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:49 +0000
Subject: [PATCH 062/137] fix: report incomplete declarations at the end of a
 class or namespace

---
 Projects/Core/Core/Designtime/Analyser.cpp      | 7 +++++--
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 4b448d0..c7561cc 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -613,8 +613,11 @@ const StringList& Analyser::getExtensionReferences() const
  */
 void Analyser::generate(const TokenList& tokens)
 {
-	auto token = tokens.cbegin();
-	auto localEnd = tokens.cend();
+	TokenList terminated(tokens);
+	terminated.emplace_back(Token(Token::Type::ENDOFFILE));		// prevents us from reading past the end of an incomplete declaration
+
+	auto token = terminated.cbegin();
+	auto localEnd = terminated.cend();
 
 	while ( token != localEnd && token->type() != Token::Type::ENDOFFILE ) {
 		if ( Parser::isObjectDeclaration(token) ) {
diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 144c088..75a7533 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -286,6 +286,9 @@ TokenList Parser::collectScopeTokens(TokenIterator& token)
 
 	// look for the corresponding closing curly bracket
 	while ( (++token)->type() != Token::Type::BRACKET_CURLY_CLOSE || scope > 0 ) {
+		if ( token->type() == Token::Type::ENDOFFILE ) {
+			break;
+		}
 		if ( token->type() == Token::Type::BRACKET_CURLY_OPEN ) {
 			++scope;
 		}
-- 
2.43.0


From 820e213f9e1166813e4a20cb75b0d2d1371d5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:49 +0000
Subject: [PATCH 063/137] fix: do not read past the end of a block if its last
 statement is incomplete

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 1cd10d6..05fbd2d 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -132,12 +132,15 @@ Statements* TreeGenerator::generate(const TokenList& tokens, bool allowBreakAndC
 
 	Statements* statements{ nullptr };
 
+	TokenList terminated(tokens);
+	terminated.emplace_back(Token(Token::Type::ENDOFFILE));		// prevents us from reading past the end of an incomplete statement
+
 	pushScope(nullptr, allowBreakAndContinue);
-		pushTokens(tokens);
+		pushTokens(terminated);
 			auto start = getTokens().begin();
 			auto end   = getTokens().end();
 
-			const Common::Position position(start != end ? start->position() : Common::Position());
+			const Common::Position position(start->position());
 
 			statements = process(start, end);
 
-- 
2.43.0


From 73722ee6484f88a3b2ccc2220ed8e3e8fdaaa1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:20 +0000
Subject: [PATCH 064/137] fix: do not allow assignments to types

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 05fbd2d..a551843 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1034,6 +1034,13 @@ Expression* TreeGenerator::process_assignment_expression(TokenIterator& token, S
 		inner = inner->mSymbolExpression;
 	}
 
+	if ( inner->mName != IDENTIFIER_THIS ) {
+		auto* type = dynamic_cast<Designtime::BluePrintObject*>(inner->mSurroundingScope->resolve(inner->mName, inner != lhs, Visibility::Private));
+		if ( type && type == mRepository->findBluePrintObject(type->QualifiedTypename()) ) {
+			throw Designtime::Exceptions::SyntaxError("cannot assign to type '" + type->QualifiedTypename() + "'", op->position());
+		}
+	}
+
 	if ( op->type() != Token::Type::ASSIGN ) {
 		Token operation;
 
-- 
2.43.0


From 664942f80c5646f89c015ce83cd7d71331f5bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:20 +0000
Subject: [PATCH 065/137] fix: do not mix up the name of a new class with an
 existing one of an outer namespace

---
 Projects/Core/Core/Designtime/Analyser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index c7561cc..99cf714 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -133,7 +133,10 @@ bool Analyser::createBluePrint(TokenIterator& token)
 		throw Exceptions::SyntaxError("object expected", token->position());
 	}
 	// look for the type declaration
-	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
+	const Common::TypeDeclaration declaration = Parser::parseTypeDeclaration(token, mScope);
+	Common::TypeDeclaration type = resolveType(declaration, token);
+	// the name of a new object must not get mixed up with an object of the same name in this or an outer scope
+	type.mName = declaration.mName;
 	// collect inheritance (if present)
 	Ancestors inheritance = collectInheritance(token);
 
-- 
2.43.0


From bf1819194fcc9d352a1a5385b62cabd89269007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:09 +0000
Subject: [PATCH 066/137] fix: report unknown types of global variables

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 24 +++++++++++++++++++++++-
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index a551843..17cd6dd 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -631,7 +631,8 @@ void TreeGenerator::process(const MethodScope* scope)
 				processNamespace(dynamic_cast<Common::Namespace*>(it->second));
 				break;
 			case Symbol::IType::ObjectSymbol:
-				break;	// ignore runtime symbols
+				processVariable(dynamic_cast<Runtime::Object*>(it->second));
+				break;
 		}
 	}
 
@@ -713,6 +714,27 @@ void TreeGenerator::processNamespace(const Common::Namespace* space)
 /*
  * loop through all tokens and redirect to the corresponding method
  */
+/*
+ * verifies that the type of a global variable exists
+ */
+void TreeGenerator::processVariable(const Runtime::Object* object)
+{
+	if ( mRepository->findBluePrintObject(object->QualifiedTypename()) ) {
+		return;
+	}
+
+	const Common::Exceptions::UnknownIdentifier e("unknown type '" + object->QualifiedTypename() + "' of variable '" + object->getName() + "'");
+	if ( !mCollectErrors ) {
+		throw e;
+	}
+
+	// increment error count
+	mErrorCount++;
+
+	// write error to log device
+	OSerror( e.what() );
+}
+
 Statements* TreeGenerator::process(TokenIterator& token, TokenIterator end)
 {
 	if ( token == end ) {
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index e936318..7713d88 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -67,6 +67,7 @@ private: // Generator
 	void processBluePrint(const Designtime::BluePrintObject* object);
 	void processMethod(Common::Method* method);
 	void processNamespace(const Common::Namespace* space);
+	void processVariable(const Runtime::Object* object);
 
 	Statements* generateAST(const Common::Method* method);
 
-- 
2.43.0


From 926275454384b47ee08937b9e0b56c492d21fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:41 +0000
Subject: [PATCH 067/137] fix: report malformed type arguments instead of
 reading past the end of the tokens

---
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 75a7533..6c0efc4 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -196,6 +196,8 @@ PrototypeConstraints Parser::collectDesigntimePrototypeConstraints(TokenIterator
 	unsigned int index = 0;
 
 	while ( token->type() != Token::Type::COMPARE_GREATER ) {
+		expect(Token::Type::IDENTIFIER, token);
+
 		auto designType = token->content();
 		auto runType    = token->content();	// hack to prevent runtime type to be empty
 
@@ -249,6 +251,8 @@ PrototypeConstraints Parser::collectRuntimePrototypeConstraints(TokenIterator& t
 	unsigned int index = 0;
 
 	while ( token->type() != Token::Type::COMPARE_GREATER ) {
+		expect(Token::Type::IDENTIFIER, token);
+
 		auto runType = token->content();
 
 		++token;
-- 
2.43.0


From 283abf941f2c41ec754045c861990aaa49b0207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:16 +0000
Subject: [PATCH 068/137] fix: report a missing operator between two values

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 17cd6dd..644d69c 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1507,6 +1507,10 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 		) {
 		//OSinfo("C-style typecasts will soon be deprecated");
 
+		if ( !dynamic_cast<DesigntimeSymbolExpression*>(symbol) ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected token '" + op->content() + "' found", op->position());
+		}
+
 		mRepository->prepareType(Common::TypeDeclaration(symbol->getResultType(), dynamic_cast<DesigntimeSymbolExpression*>(symbol)->mConstraints));
 
 		std::string type = symbol->getResultType();
-- 
2.43.0


From 805c1c122c4e817adfd4ef1521aeefe5e6ec336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 069/137] fix: keep start and end of multi line comments apart

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index ce3d250..7ad12af 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -430,6 +430,8 @@ void Tokenizer::process()
 			isMultiLineComment = true;
 			// remove last inserted token
 			mTokens.pop_back();
+			// the '*' must not be part of the comment's end
+			currentChar = 0;
 		}
 
 		if ( !isMultiLineComment && !isSingleLineComment ) {
@@ -475,6 +477,8 @@ void Tokenizer::process()
 		// multi line comments '*/'
 		if ( isMultiLineComment && previousChar == '*' && currentChar == '/' ) {
 			isMultiLineComment = false;
+			// the '/' must not be part of another comment's start
+			currentChar = 0;
 		}
 
 		// counting lines and columns
-- 
2.43.0


From dd3164c953b4311799c6f691a7efe9268f1a376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 070/137] fix: let '#' comments end the token they follow

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 7ad12af..c098f88 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -418,6 +418,13 @@ void Tokenizer::process()
 		// preprocessor directives as single line comments '#'
 		if ( !isMultiLineComment && !isSingleLineComment && !isString && currentChar == '#' ) {
 			isSingleLineComment = true;
+
+			// a comment ends the current token
+			if ( !token.empty() ) {
+				addToken(token, pos);
+
+				token.clear();
+			}
 		}
 		// single line comments '//'
 		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '/' ) {
-- 
2.43.0


From f6ccca281623b01a3b7418162c94c0b34d921c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 071/137] fix: let string literals end the token they follow

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index c098f88..bbc7ae1 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -451,6 +451,13 @@ void Tokenizer::process()
 			}
 			else {
 				if ( currentChar == '"' ) {
+					// a string literal ends the current token
+					if ( !isString && !token.empty() ) {
+						addToken(token, pos);
+
+						token.clear();
+					}
+
 					isString = !isString;
 				}
 				else if ( isString && currentChar == '\\' ) {
-- 
2.43.0


From e5112d0cad0e644c6014dab21e75d88007acc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:33 +0000
Subject: [PATCH 072/137] fix: do not ignore unterminated strings, comments and
 the last word of a file

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index bbc7ae1..9143c91 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -509,7 +509,15 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( previousChar != 0 ) {
+	if ( isMultiLineComment ) {
+		throw Designtime::Exceptions::SyntaxError("unterminated comment", pos);
+	}
+
+	if ( isString ) {
+		// let our sanity checker detect the unbalanced quotes
+		addToken(Token(Token::Category::None, Token::Type::QUOTATION_DOUBLE, "\"", pos));
+	}
+	else if ( !token.empty() ) {
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From 0970bc83108a4fc13665b817d3a899798ded5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:58 +0000
Subject: [PATCH 073/137] fix: reject names that directly follow a number

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 9143c91..6d597e4 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -876,7 +876,7 @@ void Tokenizer::replaceConstDataTypesPatternMatching()
 						patternIt->resetContentTo( "" );
 						opToken->resetTypeTo( Token::Type::CONST_FLOAT );
 					}
-					else if ( patternIt->content() == "i" ) {
+					else {
 						throw Designtime::Exceptions::SyntaxError( "invalid number format", patternIt->position() );
 					}
 				}
-- 
2.43.0


From 284f0bbd51713c0407b7dc5a3c35f008e102a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:45 +0000
Subject: [PATCH 074/137] fix: give the modulo assignment its own name

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 6d597e4..8354b80 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -638,7 +638,7 @@ void Tokenizer::mergeAssignments()
 			// remove last added token ...
 			tmp.pop_back();
 			// ... and add ASSIGN_MULTI instead
-			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "*=", token->position() );
+			tmp.emplace_back( Token::Category::Assignment, Token::Type::ASSIGN_MODULO, "%=", token->position() );
 		}
 		else if ( (lastType == Token::Type::MATH_MULTIPLY) && (currentType == Token::Type::ASSIGN) ) {
 			// *=
-- 
2.43.0


From d2f1a4f9991420b9537243fc90fa47adb9ea9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:06 +0000
Subject: [PATCH 075/137] fix: narrow the initial value of an int to its type

A member, global or default parameter of type int kept a 64 bit value when
its initialiser did not fit, unlike a local variable or an assignment.
---
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 6c0efc4..e8ed913 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -584,7 +584,7 @@ Runtime::AtomicValue Parser::parseValueInitialization(TokenIterator& token, cons
 				value = static_cast<int16_t>( Utils::Tools::stringToInt(sign + token->content()) );
 			}
 			else if ( type == _int32 ) {
-				value = Utils::Tools::stringToInt( sign + token->content() );
+				value = static_cast<int32_t>( Utils::Tools::stringToInt( sign + token->content() ) );
 			}
 			else if ( type == _int64 ) {
 				value = static_cast<int64_t>( Utils::Tools::stringToInt(sign + token->content()) );
-- 
2.43.0


From 982f79da2c38591edd656215dfc4f05189d977f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:40 +0000
Subject: [PATCH 076/137] fix: resolve names in a derived class in its own
 namespace

A class derived from one of another namespace looked names up in the
namespace of its base class before its own.
---
 Projects/Core/Core/Object.cpp | 34 +++++++++++++++++++++++++---------
 Projects/Core/Core/Object.h   |  3 +++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index cf431e3..d9b07f7 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -518,14 +518,35 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		return nullptr;
 	}
 
+	// (1) look in ourself and our ancestors
+	Symbol *result = resolveMember(name, !onlyCurrentScope, visibility);
+
+	// (2) if we still haven't found something also look in other scopes
+	if ( !result && !onlyCurrentScope ) {
+		result = MethodScope::resolve(name, false, visibility);
+	}
+
+	return result;
+}
+
+Symbol* Object::resolveMember(const std::string& name, bool inherited, Visibility::E visibility) const
+{
+	if ( mThis != this ) {
+		return mThis->resolveMember(name, inherited, visibility);
+	}
+
+	if ( isNullReference() ) {
+		return nullptr;
+	}
+
 	// (1) look only in current scope
 	Symbol *result = MethodScope::resolve(name, true, visibility);
 
-	// (2) check inheritance
-	if ( !result ) {
+	// (2) check inheritance (the scopes around our ancestors are not ours)
+	if ( !result && inherited ) {
 		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
-		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
-			result = base->resolve(name, onlyCurrentScope, visibility == Visibility::Private ? Visibility::Protected : visibility);
+		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol ) {
+			result = base->resolveMember(name, inherited, visibility == Visibility::Private ? Visibility::Protected : visibility);
 		}
 	}
 
@@ -539,11 +560,6 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		}
 	}
 
-	// (4) if we still haven't found something also look in other scopes
-	if ( !result && !onlyCurrentScope ) {
-		result = MethodScope::resolve(name, false, visibility);
-	}
-
 	return result;
 }
 
diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index f35729d..83db81f 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -123,6 +123,9 @@ public:	// Operators
 	virtual void operator_unary_not();
 	virtual void operator_unary_plus();
 
+protected:
+	Symbol* resolveMember(const std::string& name, bool inherited, Visibility::E visibility) const;
+
 protected:
 	typedef std::map<Designtime::Ancestor, Object*> Inheritance;
 
-- 
2.43.0


From 6e809035d1ea721529c73b457211b9684c1129ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:40 +0000
Subject: [PATCH 077/137] fix: resolve qualified types in declarations relative
 to the namespace

Members, parameters, return types and base classes took a qualified type
for an absolute one, while statements resolve it from the inside out.
---
 Projects/Core/Core/Designtime/Analyser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 99cf714..93f3db1 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -16,6 +16,7 @@
 #include <Core/VirtualMachine/Controller.h>
 #include <Logger/Logger.h>
 #include <Tools/Files.h>
+#include <Tools/Strings.h>
 #include <Utils.h>
 #include "SanityChecker.h"
 
@@ -753,12 +754,25 @@ void Analyser::processTokens(const TokenList& tokens)
 
 std::string Analyser::resolveType(const std::string& type, const TokenIterator& token) const
 {
+	// the first part of a qualified type denotes a namespace or an object
+	std::string parent;
+	std::string child;
+	Utils::Tools::split(type, parent, child);
+
 	// look up type in scope
 	IScope* scope = mScope;
 
 	while ( scope ) {
-		Symbol* symbol = scope->resolve(type, false, Visibility::Private);
-		if ( symbol ) {
+		Symbol* symbol = scope->resolve(parent, false, Visibility::Private);
+		if ( symbol && !child.empty() ) {
+			switch ( symbol->getSymbolType() ) {
+				case Symbol::IType::BluePrintObjectSymbol: return dynamic_cast<BluePrintObject*>(symbol)->QualifiedTypename() + RESERVED_WORD_SCOPE_OPERATOR + child;
+				case Symbol::IType::NamespaceSymbol: return dynamic_cast<Common::Namespace*>(symbol)->QualifiedTypename() + RESERVED_WORD_SCOPE_OPERATOR + child;
+				case Symbol::IType::MethodSymbol:
+				case Symbol::IType::ObjectSymbol: return type;
+			}
+		}
+		else if ( symbol ) {
 			switch ( symbol->getSymbolType() ) {
 				case Symbol::IType::BluePrintObjectSymbol: return dynamic_cast<BluePrintObject*>(symbol)->QualifiedTypename();
 				case Symbol::IType::MethodSymbol:
-- 
2.43.0


From 3125886fe3d046a1282d56724b5fd2afe0acf893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:33 +0000
Subject: [PATCH 078/137] fix: let puts take a string

---
 Projects/Extensions/LIBC/stdio/puts.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/stdio/puts.h b/Projects/Extensions/LIBC/stdio/puts.h
index 1a134e0..5bc154c 100644
--- a/Projects/Extensions/LIBC/stdio/puts.h
+++ b/Projects/Extensions/LIBC/stdio/puts.h
@@ -15,6 +15,7 @@
 
 // Project includes
 #include <Core/Designtime/BuildInTypes/Int32Type.h>
+#include <Core/Designtime/BuildInTypes/StringType.h>
 #include <Core/Extensions/ExtensionMethod.h>
 #include <Core/Runtime/BuildInTypes/Int32Type.h>
 #include "stdio.hpp"
@@ -37,7 +38,7 @@ public:
 	: ExtensionMethod(0, "puts", Designtime::Int32Type::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("str", Designtime::Int32Type::TYPENAME, 0));
+		params.push_back(Parameter::CreateDesigntime("str", Designtime::StringType::TYPENAME));
 
 		setSignature(params);
 	}
-- 
2.43.0


From aa3b6920ab0cdc90e1e3531a2e1f4653d93aa9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:33 +0000
Subject: [PATCH 079/137] fix: keep the string given to putenv alive

---
 Projects/Extensions/System/PutEnv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/PutEnv.h b/Projects/Extensions/System/PutEnv.h
index 460accd..2cd0890 100644
--- a/Projects/Extensions/System/PutEnv.h
+++ b/Projects/Extensions/System/PutEnv.h
@@ -5,6 +5,7 @@
 
 // Library includes
 #include <cstdlib>
+#include <cstring>
 
 // Project includes
 #include <Core/Designtime/BuildInTypes/StringType.h>
@@ -41,7 +42,8 @@ public:
 
 		std::string param_name = (*it++).value().toStdString();
 
-		*result = Runtime::Int32Type(putenv(const_cast<char*>(param_name.c_str())));
+		// the given string becomes part of the environment, so it has to outlive this call
+		*result = Runtime::Int32Type(putenv(strdup(param_name.c_str())));
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From e17566f0b20621f093f2de9dc03041ab050d3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 080/137] fix: remove the last item of a collection instead of
 the one behind it

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 3 ++-
 Projects/Library/System/Collections/List.os             | 2 +-
 Projects/Library/System/Collections/Stack.os            | 2 +-
 Projects/Library/System/Collections/Vector.os           | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 8b94aa0..7dfc9d9 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -161,10 +161,11 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
+			mLast = item;
 			delete item.next;
 		}
 
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index d093366..1d3c93e 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -159,7 +159,7 @@ public object List<T> implements ICollection {
 		}
 		else {					// generic handling
 			CollectionItem<T> item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index cd84331..baa7c81 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -152,7 +152,7 @@ public object Stack<T> implements ICollection {
 		}
 		else {
 			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
+			for ( int i = 0; i < mSize - 2; i++ ) {
 				item = item.next;
 			}
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 88a10f4..f9dc538 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -191,7 +191,7 @@ public object Vector<T> implements ICollection {
 		}
 		else {                                  // generic handling
 			var item = mFirst;
-			for ( int idx = 0; idx < mSize - 1; idx++ ) {
+			for ( int idx = 0; idx < mSize - 2; idx++ ) {
 				item = item.next;
 			}
 
-- 
2.43.0


From 745c7a9ccf34ffb0cf7f43aa93555088a73481f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 081/137] fix: raise an exception when erasing behind the last
 item

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 2 +-
 Projects/Library/System/Collections/List.os             | 2 +-
 Projects/Library/System/Collections/Set.os              | 2 +-
 Projects/Library/System/Collections/Stack.os            | 2 +-
 Projects/Library/System/Collections/Vector.os           | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 7dfc9d9..f8fb711 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -62,7 +62,7 @@ public object DoubleLinkedList<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index 1d3c93e..d6da84b 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -59,7 +59,7 @@ public object List<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index d052a14..8b543d7 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -60,7 +60,7 @@ public object Set<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index baa7c81..183fadd 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -59,7 +59,7 @@ public object Stack<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index f9dc538..fa745e1 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -59,7 +59,7 @@ public object Vector<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") beyond end of list" );
 		}
 
-- 
2.43.0


From 7daddae214cea25cf31ec1df7fd2d493c85cd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 082/137] fix: keep the last item of a linked list up to date

---
 Projects/Library/System/Collections/DoubleLinkedList.os | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index f8fb711..24202ed 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -158,6 +158,7 @@ public object DoubleLinkedList<T> implements ICollection {
 
 		if ( mSize == 1 ) {
 			delete mFirst;
+			delete mLast;
 		}
 		else {
 			var item = mFirst;
@@ -178,6 +179,9 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
+		if ( !mFirst ) {
+			delete mLast;
+		}
 
 		mSize--;
 	}
@@ -205,6 +209,10 @@ public object DoubleLinkedList<T> implements ICollection {
 		//mFirst.previous = item;	// this leaves a mem leak... ;-(
 		mFirst = item;
 
+		if ( mSize == 0 ) {
+			mLast = item;
+		}
+
 		mSize++;
 	}
 
-- 
2.43.0


From 39db5052282efd7fb3bd7acd54c406498fe90529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 083/137] fix: reject duplicates in a set and keep its last
 item up to date

---
 Projects/Library/System/Collections/Set.os | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 8b543d7..952fa03 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -167,15 +167,17 @@ public object Set<T> implements ICollection {
 			}
 
 			if ( !mAllowDuplicates ) {
-				if ( previous.next ) {
-					if ( item == previous.next ) {
-						throw new Exception( "duplicate item" );
-					}
+				if ( (T previous.value) == (T value) ) {
+					throw new Exception( "duplicate item" );
 				}
 			}
 
 			item.next = previous.next;
 			previous.next = item;
+
+			if ( !item.next ) {
+				mLast = item;
+			}
 		}
 
 		mSize++;
-- 
2.43.0


From 89aeb7aaeb6a1cb5495421df34bd60b14f78c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 084/137] fix: count the items in front of a key in a map

---
 Projects/Library/System/Collections/Map.os | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 881e2e2..295d114 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -84,6 +84,8 @@ public object Map<K, V> implements ICollection {
 			if ( ( Pair<K, V> p ) == key ) {
 				return count;
 			}
+
+			count++;
 		}
 
 		return -1;
-- 
2.43.0


From 90a341103862b3c93a08dabeb2c02ba1ddd6a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 085/137] fix: return the first and last value of a map

---
 Projects/Library/System/Collections/Map.os | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 295d114..7b4c17e 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -44,7 +44,7 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V first() const throws {
-		return V mItems.first();
+		return ( Pair<K, V> mItems.first() ).second;
 	}
 
 	public V get( K key const ) const throws {
@@ -96,7 +96,7 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V last() const throws {
-		return V mItems.last();
+		return ( Pair<K, V> mItems.last() ).second;
 	}
 
 	public void put( K key, V value ) modify throws {
-- 
2.43.0


From 816c5c55dc9b748586ea992201b41f285a6578d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:44 +0000
Subject: [PATCH 086/137] fix: do not share the items of a collection with its
 copies

---
 .../Library/System/Collections/DoubleLinkedList.os    |  8 +++++---
 Projects/Library/System/Collections/List.os           |  8 +++++---
 Projects/Library/System/Collections/Map.os            |  4 +++-
 Projects/Library/System/Collections/Queue.os          |  2 +-
 Projects/Library/System/Collections/Set.os            | 11 ++++++-----
 Projects/Library/System/Collections/Stack.os          |  8 +++++---
 Projects/Library/System/Collections/Vector.os         |  8 +++++---
 7 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 24202ed..97f3154 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -22,9 +22,11 @@ public object DoubleLinkedList<T> implements ICollection {
 	public DoubleLinkedList<T> Copy() const {
 		var result = new DoubleLinkedList<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
-		result.mSize = mSize;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			result.push_back( item.value );
+			item = item.next;
+		}
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index d6da84b..0a99089 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -19,9 +19,11 @@ public object List<T> implements ICollection {
 	public List<T> Copy() const {
 		var result = new List<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
-		result.mSize = mSize;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			result.push_back( item.value );
+			item = item.next;
+		}
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 7b4c17e..05bf2e2 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -20,7 +20,9 @@ public object Map<K, V> implements ICollection {
 	public Map<K, V> Copy() const {
 		var result = new Map<K, V>();
 
-		result.mItems = mItems;
+		foreach ( Object p : mItems ) {
+			result.insert( ( Pair<K, V> p ).first, ( Pair<K, V> p ).second );
+		}
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Queue.os b/Projects/Library/System/Collections/Queue.os
index 13c4dcd..f6c1c4d 100644
--- a/Projects/Library/System/Collections/Queue.os
+++ b/Projects/Library/System/Collections/Queue.os
@@ -19,7 +19,7 @@ public object Queue<T> implements ICollection {
 	public Queue<T> Copy() const {
 		var result = new Queue<T>();
 
-		result.mItems = mItems;
+		result.mItems = copy mItems;
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index 952fa03..a9e7ac9 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -17,12 +17,13 @@ public object Set<T> implements ICollection {
 	}
 
 	public Set<T> Copy() const {
-		var result = new Set<T>();
+		var result = new Set<T>( mAllowDuplicates );
 
-		result.mAllowDuplicates = mAllowDuplicates;
-		result.mFirst = mFirst;
-		result.mLast = mLast;
-		result.mSize = mSize;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			result.insert( item.value );
+			item = item.next;
+		}
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index 183fadd..e59ce15 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -19,9 +19,11 @@ public object Stack<T> implements ICollection {
 	public Stack<T> Copy() const {
 		var result = new Stack<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
-		result.mSize = mSize;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			result.push( item.value );
+			item = item.next;
+		}
 
 		return result;
 	}
diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index fa745e1..05c06c1 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -19,9 +19,11 @@ public object Vector<T> implements ICollection {
 	public Vector<T> Copy() const {
 		var result = new Vector<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
-		result.mSize = mSize;
+		var item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			result.push_back( item.value );
+			item = item.next;
+		}
 
 		return result;
 	}
-- 
2.43.0


From 85e4ccc6ba6365d1e8142761395543df6bdbee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:49 +0000
Subject: [PATCH 087/137] fix: let ranges count downwards and be empty

---
 Projects/Library/System/Collections/Range.os | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/Collections/Range.os b/Projects/Library/System/Collections/Range.os
index 9a8d55f..06f592f 100644
--- a/Projects/Library/System/Collections/Range.os
+++ b/Projects/Library/System/Collections/Range.os
@@ -36,7 +36,7 @@ public object Range implements ICollection, IIterable {
 	}
 
 	public int at( int index ) const throws {
-		if ( index < 0 || index * mStep > mEnd - mStart ) {
+		if ( index < 0 || index >= size() ) {
 			throw new OutOfBoundsException( "index (" + index + ") is out of bounds" );
 		}
 
@@ -79,6 +79,11 @@ public object Range implements ICollection, IIterable {
 	}
 
 	public int size() const {
+		// the end lies in the opposite direction of our steps
+		if ( ( mEnd - mStart ) * mStep < 0 ) {
+			return 0;
+		}
+
 		return ( mEnd - mStart ) / mStep + 1;
 	}
 
-- 
2.43.0


From 2c3ab9b305107f76f73732fa0ee62867acecf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 088/137] fix: let strncat append the first characters

---
 Projects/Extensions/LIBC/cstring/strncat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strncat.h b/Projects/Extensions/LIBC/cstring/strncat.h
index 5832058..b2b8abb 100644
--- a/Projects/Extensions/LIBC/cstring/strncat.h
+++ b/Projects/Extensions/LIBC/cstring/strncat.h
@@ -46,7 +46,7 @@ public:
 		auto param_source      = (*it++).value().toStdString();
 		auto param_num         = (*it++).value().toInt();
 
-		*result = Runtime::StringType( param_destination + param_source.substr( param_num ) );
+		*result = Runtime::StringType( param_destination + param_source.substr( 0, param_num ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From d4263248906a4e6e8c1189bbe84e3564e3023c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 089/137] fix: let strstr search for a string

---
 Projects/Extensions/LIBC/cstring/strstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index b4922b5..b111755 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -30,7 +30,7 @@ public:
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME, 0 ) );
-		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::Int32Type::TYPENAME, 0 ) );
+		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::StringType::TYPENAME, 0 ) );
 
 		setSignature( params );
 	}
-- 
2.43.0


From af6758000a789663152f64b7e3d3dccc8ad22212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 090/137] fix: return an empty string when a character is not
 found

---
 Projects/Extensions/LIBC/cstring/strchr.h  | 4 +++-
 Projects/Extensions/LIBC/cstring/strpbrk.h | 4 +++-
 Projects/Extensions/LIBC/cstring/strrchr.h | 4 +++-
 Projects/Extensions/LIBC/cstring/strstr.h  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index 114af6d..c955ca9 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -45,7 +45,9 @@ public:
 		auto param_str = (*it++).value().toStdString();
 		auto param_ch  = (*it++).value().toInt();
 
-		*result = Runtime::StringType( std::string( strchr( param_str.c_str(), param_ch ) ) );
+		const char* found = strchr( param_str.c_str(), param_ch );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/cstring/strpbrk.h b/Projects/Extensions/LIBC/cstring/strpbrk.h
index a935519..da57d6f 100644
--- a/Projects/Extensions/LIBC/cstring/strpbrk.h
+++ b/Projects/Extensions/LIBC/cstring/strpbrk.h
@@ -44,7 +44,9 @@ public:
 		auto param_dest     = (*it++).value().toStdString();
 		auto param_breakset = (*it++).value().toStdString();
 
-		*result = Runtime::StringType( std::string( strpbrk( param_dest.c_str(), param_breakset.c_str() ) ) );
+		const char* found = strpbrk( param_dest.c_str(), param_breakset.c_str() );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index 8fce434..b9c8e19 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -45,7 +45,9 @@ public:
 		auto param_str = (*it++).value().toStdString();
 		auto param_ch  = (*it++).value().toInt();
 
-		*result = Runtime::StringType( std::string( strrchr( param_str.c_str(), param_ch ) ) );
+		const char* found = strrchr( param_str.c_str(), param_ch );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index b111755..0bddb41 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -45,7 +45,9 @@ public:
 		auto param_str    = (*it++).value().toStdString();
 		auto param_substr = (*it++).value().toStdString();
 
-		*result = Runtime::StringType( std::string( strstr( param_str.c_str(), param_substr.c_str() ) ) );
+		const char* found = strstr( param_str.c_str(), param_substr.c_str() );
+
+		*result = Runtime::StringType( std::string( found ? found : "" ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From e1ab73cb12dd16da1ba437e06d6f14702d32e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 091/137] fix: no string ends with a longer one

---
 Projects/Library/System/String.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 0fd9697..bcb6acd 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -91,6 +91,10 @@ public object String implements IIterable {
 	 * Returns true if the held string ends with the given string
 	 */
 	public bool EndsWith( string str ) const {
+		if ( strlen( str ) > strlen( mValue ) ) {
+			return false;
+		}
+
 		return str == substr( mValue, strlen( mValue ) - strlen( str ) );
 	}
 
-- 
2.43.0


From 20aaec63c00aed4eed4571b5b61f7a0e43e98b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 092/137] fix: do not replace what has been inserted by
 replacing

---
 Projects/Library/System/String.os | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index bcb6acd..3c58745 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -158,10 +158,23 @@ public object String implements IIterable {
 	public bool ReplaceAll( string oldStr, string newStr ) modify {
 		bool hasFound = false;
 
-		while ( Replace( oldStr, newStr ) ) {
+		if ( !strlen( oldStr ) ) {
+			return hasFound;
+		}
+
+		int position = strfind( mValue, oldStr, 0 );
+
+		while ( position >= 0 ) {
 			hasFound = true;
+
+			// continue behind the new string
+			mValue = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );
+			position = strfind( mValue, oldStr, position + strlen( newStr ) );
 		}
 
+		// update members
+		mSize = strlen( mValue );
+
 		return hasFound;
 	}
 
-- 
2.43.0


From aa183cc23a959ac0abfdc06a72ab3922404db12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 093/137] fix: update the length of a string that is appended
 to

---
 Projects/Library/System/String.os | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 3c58745..1225bcd 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -387,6 +387,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( string other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -396,6 +397,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( bool other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -405,6 +407,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( double other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -414,6 +417,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( float other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -423,6 +427,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( int other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -432,6 +437,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( String other const ) modify {
 		mValue += other.mValue;
+		mSize = strlen( mValue );
 
 		return this;
 	}
-- 
2.43.0


From 6192e6a854ed2af636ce83819bfced0fe930fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:24 +0000
Subject: [PATCH 094/137] fix: end the iteration over a string with its last
 character

---
 Projects/Library/System/CharacterIterator.os | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/System/CharacterIterator.os b/Projects/Library/System/CharacterIterator.os
index 32058e2..e7f3fba 100644
--- a/Projects/Library/System/CharacterIterator.os
+++ b/Projects/Library/System/CharacterIterator.os
@@ -47,7 +47,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * returns true if the iteration did not reach the end of the held string value
 	 */
 	public bool hasNext() const {
-		return mCurrentIndex < mLength;
+		return mCurrentIndex + 1 < mLength;
 	}
 
 	/*
@@ -55,7 +55,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * throws OutOfBoundsException
 	 */
 	public string next() modify throws {
-		if ( mCurrentIndex + 1 > mLength ) {
+		if ( mCurrentIndex + 1 >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + 1 + ") out of bounds" );
 		}
 
-- 
2.43.0


From 7c2988fdd858a171197d3a4763244d55516c4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:19 +0000
Subject: [PATCH 095/137] fix: order versions by their pre-release labels

---
 Projects/Library/libSemVer/SemVer.os | 48 +++++++++++++++++++++++++--
 Projects/Utils/SemVer/Version.cpp    | 49 +++++++++++++++++++++++++++-
 2 files changed, 94 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/libSemVer/SemVer.os b/Projects/Library/libSemVer/SemVer.os
index d6a1154..247d8ff 100644
--- a/Projects/Library/libSemVer/SemVer.os
+++ b/Projects/Library/libSemVer/SemVer.os
@@ -89,7 +89,7 @@ private object SemVer const
 						return BuildNumber < other.BuildNumber;
 					}
 					else if ( Label && other.Label ) {
-						return Label < other.Label;
+						return compareLabels( Label, other.Label ) < 0;
 					}
 
 					return Label && !other.Label;
@@ -115,7 +115,7 @@ private object SemVer const
 						return BuildNumber > other.BuildNumber;
 					}
 					else if ( Label && other.Label ) {
-						return Label > other.Label;
+						return compareLabels( Label, other.Label ) > 0;
 					}
 
 					return !Label && other.Label;
@@ -141,6 +141,50 @@ private object SemVer const
 		    && BuildNumber == other.BuildNumber;
 	}
 
+	/*
+	 * compares two labels identifier by identifier: numeric identifiers compare as numbers and precede all others
+	 */
+	private int compareLabels( string left, string right ) const {
+		while ( left != "" && right != "" ) {
+			string l = nextIdentifier( left );
+			string r = nextIdentifier( right );
+
+			left = substr( left, strlen( l ) + ( ( strlen( l ) < strlen( left ) ) ? 1 : 0 ) );
+			right = substr( right, strlen( r ) + ( ( strlen( r ) < strlen( right ) ) ? 1 : 0 ) );
+
+			if ( l == r ) {
+				continue;
+			}
+
+			if ( isNumeric( l ) != isNumeric( r ) ) {
+				return isNumeric( l ) ? -1 : 1;
+			}
+			if ( isNumeric( l ) && strlen( l ) != strlen( r ) ) {
+				return strlen( l ) - strlen( r );
+			}
+
+			return ( l < r ) ? -1 : 1;
+		}
+
+		return strlen( left ) - strlen( right );
+	}
+
+	private string nextIdentifier( string label ) const {
+		var dot = strfind( label, "." );
+
+		return ( dot == -1 ) ? label : substr( label, 0, dot );
+	}
+
+	private bool isNumeric( string identifier ) const {
+		for ( int i = 0; i < strlen( identifier ); i++ ) {
+			if ( strfind( "0123456789", strpos( identifier, i ) ) == -1 ) {
+				return false;
+			}
+		}
+
+		return identifier != "";
+	}
+
 	/*
 	 * string cast operator
 	 */
diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..89472d4 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -3,6 +3,8 @@
 #include "Version.h"
 
 // Library includes
+#include <algorithm>
+#include <cctype>
 
 // Project includes
 #include <Tools/Strings.h>
@@ -10,6 +12,46 @@
 // Namespace declarations
 
 
+namespace {
+
+bool isNumeric( const std::string& identifier )
+{
+	return !identifier.empty()
+	    && std::all_of( identifier.begin(), identifier.end(), []( unsigned char c ) { return std::isdigit( c ); } );
+}
+
+/*
+ * compares two labels identifier by identifier: numeric identifiers compare as numbers and precede all others
+ */
+int compareLabels( std::string left, std::string right )
+{
+	while ( !left.empty() && !right.empty() ) {
+		std::string l;
+		std::string r;
+
+		Utils::Tools::splitBy( left, '.', l, left );
+		Utils::Tools::splitBy( right, '.', r, right );
+
+		if ( l == r ) {
+			continue;
+		}
+
+		if ( isNumeric( l ) != isNumeric( r ) ) {
+			return isNumeric( l ) ? -1 : 1;
+		}
+		if ( isNumeric( l ) && l.size() != r.size() ) {
+			return l.size() < r.size() ? -1 : 1;
+		}
+
+		return l.compare( r );
+	}
+
+	return static_cast<int>( right.empty() ) - static_cast<int>( left.empty() );
+}
+
+}
+
+
 SemanticVersionNumber::SemanticVersionNumber( const std::string& version )
 {
 	parse( version );
@@ -69,7 +111,12 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
-				return !mLabel.empty();
+				if ( mLabel.empty() || other.mLabel.empty() ) {
+					return !mLabel.empty();
+				}
+
+				// Semantic Versioning Specification rule #11
+				return compareLabels( mLabel, other.mLabel ) < 0;
 			}
 
 			return mBugfix < other.mBugfix;
-- 
2.43.0


From 169c4b0cd0b320bea2c35f2a67fcdf89ce1c8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:19 +0000
Subject: [PATCH 096/137] fix: keep version labels that read like false

---
 Projects/Library/libSemVer/SemVer.os | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/libSemVer/SemVer.os b/Projects/Library/libSemVer/SemVer.os
index 247d8ff..355cfe1 100644
--- a/Projects/Library/libSemVer/SemVer.os
+++ b/Projects/Library/libSemVer/SemVer.os
@@ -88,11 +88,11 @@ private object SemVer const
 					if ( Label == other.Label ) {
 						return BuildNumber < other.BuildNumber;
 					}
-					else if ( Label && other.Label ) {
+					else if ( Label != "" && other.Label != "" ) {
 						return compareLabels( Label, other.Label ) < 0;
 					}
 
-					return Label && !other.Label;
+					return other.Label == "";
 				}
 
 				return Bugfix < other.Bugfix;
@@ -114,11 +114,11 @@ private object SemVer const
 					if ( Label == other.Label ) {
 						return BuildNumber > other.BuildNumber;
 					}
-					else if ( Label && other.Label ) {
+					else if ( Label != "" && other.Label != "" ) {
 						return compareLabels( Label, other.Label ) > 0;
 					}
 
-					return !Label && other.Label;
+					return Label == "";
 				}
 
 				return Bugfix > other.Bugfix;
@@ -192,7 +192,7 @@ private object SemVer const
 		return cast<string>( Major )
 			+ "." + cast<string>( Minor )
 			+ "." + cast<string>( Bugfix )
-			+ ( Label ? "-" + Label : "" )
-			+ ( BuildNumber ? "+" + BuildNumber : "" );
+			+ ( ( Label != "" ) ? "-" + Label : "" )
+			+ ( ( BuildNumber != "" ) ? "+" + BuildNumber : "" );
 	}
 }
-- 
2.43.0


From 359c159856b20af37345893f297e1b67aa812e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:46 +0000
Subject: [PATCH 097/137] fix: forget a file handle once it is closed

---
 Projects/Extensions/LIBC/stdio/fclose.h  | 1 +
 Projects/Extensions/LIBC/stdio/fopen.h   | 2 +-
 Projects/Extensions/LIBC/stdio/tmpfile.h | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fclose.h b/Projects/Extensions/LIBC/stdio/fclose.h
index 0395365..af248f9 100644
--- a/Projects/Extensions/LIBC/stdio/fclose.h
+++ b/Projects/Extensions/LIBC/stdio/fclose.h
@@ -47,6 +47,7 @@ public:
 		}
 
 		int fileResult = fclose(stdio_t::FileHandles[param_handle]);
+		stdio_t::FileHandles.erase(param_handle);
 		if ( fileResult == -1 ) {
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
diff --git a/Projects/Extensions/LIBC/stdio/fopen.h b/Projects/Extensions/LIBC/stdio/fopen.h
index e83874d..61f35ef 100644
--- a/Projects/Extensions/LIBC/stdio/fopen.h
+++ b/Projects/Extensions/LIBC/stdio/fopen.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = fopen(param_filename.c_str(), param_accessmode.c_str());
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::FileHandles.empty() ? 1 : stdio_t::FileHandles.rbegin()->first + 1;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index a4c112c..ecd2320 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = tmpfile();
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::FileHandles.empty() ? 1 : stdio_t::FileHandles.rbegin()->first + 1;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
-- 
2.43.0


From a6ff2a708a422c0869ff49aade7311c9b3e27a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:46 +0000
Subject: [PATCH 098/137] fix: report the use of a file that could not be
 opened instead of crashing

---
 Projects/Extensions/LIBC/stdio/stdio.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/stdio/stdio.cpp b/Projects/Extensions/LIBC/stdio/stdio.cpp
index 7e8210e..5bdf4b8 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.cpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.cpp
@@ -69,7 +69,6 @@ void stdio_t::initialize( ExtensionNamespace* scope )
 	scope->define( "SEEK_END", new Runtime::Int32Type( "SEEK_END", SEEK_END ) );
 
 	// nothing to do here
-	FileHandles[ 0 ]      = nullptr;
 	FileHandles[ STDIN ]  = stdin;
 	FileHandles[ STDOUT ] = stdout;
 	FileHandles[ STDERR ] = stderr;
-- 
2.43.0


From f06d0a9bfd822cbdd6a9538f15267fa603d64136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:46 +0000
Subject: [PATCH 099/137] fix: return false for a file that cannot be opened

---
 Projects/Library/System/IO/File.os | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index e5c8088..4d750a6 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -94,11 +94,16 @@ public namespace System.IO {
 			mFilename   = filename;
 			mHandle     = fopen( mFilename, mAccessMode );
 
+			if ( !mHandle ) {
+				cleanup();
+				return false;
+			}
+
 			fseek( mHandle, 0, SEEK_END );
 			mSize = ftell( mHandle );
 			fseek( mHandle, 0, SEEK_SET );
 
-			return mHandle != 0;
+			return true;
 		}
 
 		public bool readBool() const {
-- 
2.43.0


From 6f301a1b88a46825c3ac9895879a7910cbda3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:46 +0000
Subject: [PATCH 100/137] fix: return true when a value has been written to a
 file

---
 Projects/Library/System/IO/File.os | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index 4d750a6..7251724 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -139,23 +139,23 @@ public namespace System.IO {
 		}
 
 		public bool write( bool value ) {
-			return fwriteb( mHandle, value ) == 0;
+			return fwriteb( mHandle, value ) > 0;
 		}
 
 		public bool write( double value ) {
-			return fwrited( mHandle, value ) == 0;
+			return fwrited( mHandle, value ) > 0;
 		}
 
 		public bool write( float value ) {
-			return fwritef( mHandle, value ) == 0;
+			return fwritef( mHandle, value ) > 0;
 		}
 
 		public bool write( int value ) {
-			return fwritei( mHandle, value ) == 0;
+			return fwritei( mHandle, value ) > 0;
 		}
 
 		public bool write( string value ) {
-			return fwrites( mHandle, value ) == 0;
+			return fwrites( mHandle, value ) > 0;
 		}
 
 		private string mAccessMode;
-- 
2.43.0


From 45fd9e99ebda13fdcfad49b255da6cb97f134d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:20:46 +0000
Subject: [PATCH 101/137] fix: let fgets return a whole line

---
 Projects/Extensions/LIBC/stdio/fgets.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fgets.h b/Projects/Extensions/LIBC/stdio/fgets.h
index 8b963a2..3d31f49 100644
--- a/Projects/Extensions/LIBC/stdio/fgets.h
+++ b/Projects/Extensions/LIBC/stdio/fgets.h
@@ -53,21 +53,27 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
-		int32_t remainingSize{0};
-		while ( remainingSize < param_size ) {
-			auto readSize = param_size - remainingSize;
+		std::string value;
+
+		// read until the end of the line, as long as there is room for more than the trailing zero
+		while ( static_cast<int32_t>( value.size() ) + 1 < param_size && ( value.empty() || value.back() != '\n' ) ) {
+			auto readSize = param_size - static_cast<int32_t>( value.size() );
+
 			if ( readSize > READ_SIZE ) {
 				readSize = READ_SIZE;
 			}
 
 			char stream[READ_SIZE];
-			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) != nullptr ) {
-				*result = Runtime::StringType( std::string( stream ) );
+
+			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) == nullptr ) {
+				break;
 			}
 
-			remainingSize += readSize;
+			value += stream;
 		}
 
+		*result = Runtime::StringType( value );
+
 		return Runtime::ControlFlow::Normal;
 	}
 };
-- 
2.43.0


From 368f5fe9926a286305cf59aad9853374bf59b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:16 +0000
Subject: [PATCH 102/137] fix: notice failed downloads of the package manager

A failed download left an empty file and counted as a success.
A failed update thereby lost the index that was there before.
---
 .../slang-pkg/Application/Application.cpp     | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 7792961..4635ee5 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -623,26 +623,36 @@ bool download( const std::string& url, const std::string& target, bool allowClea
     /* set URL to get here */
     curl_easy_setopt( curl_handle, CURLOPT_URL, url.c_str() );
 
+    /* treat HTTP errors as failed downloads */
+    curl_easy_setopt( curl_handle, CURLOPT_FAILONERROR, 1L );
+
     /* send all data to this function  */
     curl_easy_setopt( curl_handle, CURLOPT_WRITEFUNCTION, write_data );
 
-    /* open the file */
-    pagefile = fopen( target.c_str(), "wb" );
+    /* open a temporary file, the target is only replaced by complete downloads */
+    auto partial = target + ".part";
+
+    pagefile = fopen( partial.c_str(), "wb" );
     if ( pagefile ) {
         /* write the page body to this file handle */
         curl_easy_setopt( curl_handle, CURLOPT_WRITEDATA, pagefile );
 
         /* get it! */
-        curl_easy_perform( curl_handle );
+        result = curl_easy_perform( curl_handle ) == CURLE_OK;
 
         /* close the header file */
         fclose( pagefile );
 
-        if ( allowCleanup ) {
-            mDownloadedFiles.push_back( target );
+        if ( result ) {
+            result = rename( partial.c_str(), target.c_str() ) == 0;
+        }
+        else {
+            unlink( partial.c_str() );
         }
 
-        result = true;
+        if ( result && allowCleanup ) {
+            mDownloadedFiles.push_back( target );
+        }
     }
 
     /* cleanup curl stuff */
-- 
2.43.0


From 641515e54583e0605f9bba884c5e31a651ce7722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:16 +0000
Subject: [PATCH 103/137] fix: install nothing if a module or a dependency
 cannot be found

The modules that could be found were installed without the missing ones.
---
 .../slang-pkg/Application/Application.cpp     | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 4635ee5..32416cb 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -57,7 +57,7 @@ namespace {
     void list();
     void loadConfig();
     void loadRestrictions();
-    void prepareModuleInstallation( const std::string& repo, const Module& installModule );
+    bool prepareModuleInstallation( const std::string& repo, const Module& installModule );
     bool prepareRemoteRepository();
     void processRestrictions( const StringList& params );
     void purge( const StringList& params );
@@ -796,6 +796,7 @@ void install( const StringList& params )
 
     std::cout << "Preparing dependencies..." << std::endl;
 
+    bool allowInstall = true;
     bool forceVersion = mSettings.Force;
 
     for ( const auto& param : params ) {
@@ -817,11 +818,11 @@ void install( const StringList& params )
             forceVersion = true;
         }
 
-        prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) );
+        if ( !prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) ) ) {
+            allowInstall = false;
+        }
     }
 
-    bool allowInstall = true;
-
     // add all other requested modules to missing modules to prevent multiple installations of the same modules
     for ( const auto& param : params ) {
         std::string moduleName;
@@ -1045,7 +1046,7 @@ void loadRestrictions()
     }
 }
 
-void prepareModuleInstallation( const std::string& repo, const Module& installModule )
+bool prepareModuleInstallation( const std::string& repo, const Module& installModule )
 {
 #ifdef SLANG_DEBUG
     std::cout << "Preparing module \"" << installModule.mShortName << " (" << installModule.mVersion.toString() << ")\" from \"" << repo << "\"..." << std::endl;
@@ -1063,12 +1064,12 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
     bool result = download( url, moduleConfig );
     if ( !result ) {
         std::cerr << "!!! Download of module information for \"" << installModule.mShortName << "\" failed" << std::endl;
-        return;
+        return false;
     }
 
     if ( mSettings.SkipDependencies ) {
         // skipping dependencies as requested
-        return;
+        return true;
     }
 
     auto module = collectModuleData( path, filename );
@@ -1101,9 +1102,13 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
 
             mMissingDependencies.addModule( dependent );
 
-            prepareModuleInstallation( repo, dependent );
+            if ( !prepareModuleInstallation( repo, dependent ) ) {
+                return false;
+            }
         }
     }
+
+    return true;
 }
 
 bool prepareRemoteRepository()
-- 
2.43.0


From 766fffd68dce5a78c08a2a19d5015ce808813302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:40 +0000
Subject: [PATCH 104/137] fix: use the module index right after it has been
 downloaded

The first install of a new library did not know any module.
---
 Projects/slang-pkg/Application/Application.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 32416cb..30554fb 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -705,6 +705,7 @@ void info( const StringList& params )
         collectLocalModuleData();
         if ( !prepareRemoteRepository() ) {
             update();
+            prepareRemoteRepository();
         }
 
         std::string moduleName;
@@ -792,6 +793,7 @@ void install( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+        prepareRemoteRepository();
     }
 
     std::cout << "Preparing dependencies..." << std::endl;
@@ -1438,6 +1440,7 @@ void upgrade( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+        prepareRemoteRepository();
     }
 
     Modules outdatedModules;
-- 
2.43.0


From 50cd309031753d2355c793e5886142079b0fbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:40 +0000
Subject: [PATCH 105/137] fix: keep a refused module out of the following
 installations of an upgrade

Upgrading several modules installed those that a restriction forbids
together with the next allowed one.
---
 Projects/slang-pkg/Application/Application.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 30554fb..2cdcf79 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -462,6 +462,9 @@ void collectLocalModuleData()
 
     struct dirent* dirEntry = readdir( dir );
 
+    // read the current state even if it has been collected before
+    mLocalRepository = Repository( "local" );
+
     // add Slang version as virtually installed module to force correct dependencies
     // {
     Module slang;
@@ -796,6 +799,9 @@ void install( const StringList& params )
         prepareRemoteRepository();
     }
 
+    // forget what previous installations of an upgrade needed
+    mMissingDependencies = Repository( "missing" );
+
     std::cout << "Preparing dependencies..." << std::endl;
 
     bool allowInstall = true;
-- 
2.43.0


From aa5c7bcc9378a3100376f4897ddd6b979cf93ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:40 +0000
Subject: [PATCH 106/137] fix: apply module restrictions to dependencies

Only the modules named on the command line were checked.
---
 Projects/slang-pkg/Application/Application.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 2cdcf79..b7775b8 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -853,12 +853,14 @@ void install( const StringList& params )
 
         Module missingModule( moduleName, version, source );
 
+        mMissingDependencies.addModule( missingModule );
+    }
+
+    for ( const auto& missingModule : mMissingDependencies.getModules() ) {
         if ( !checkRestrictions( missingModule ) ) {
             allowInstall = false;
             std::cout << "!!! Module " << missingModule.mShortName << "( " << missingModule.mVersion.toString() << " ) cannot be installed due to current module restrictions" << std::endl;
         }
-
-        mMissingDependencies.addModule( missingModule );
     }
 
     if ( allowInstall ) {
-- 
2.43.0


From d41cdc3b7e1a80d1e9fa758ad582b53ad55643fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:34 +0000
Subject: [PATCH 107/137] fix: install dependencies in a version that all
 dependents accept

The version depended on the order of the modules, an installed module was
never too old, and modules that need each other were followed endlessly.
---
 .../slang-pkg/Application/Application.cpp     | 46 ++++++++-----------
 Projects/slang-pkg/Common/Repository.cpp      |  6 +++
 Projects/slang-pkg/Common/Repository.h        |  1 +
 3 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index b7775b8..6e06d23 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -807,6 +807,7 @@ void install( const StringList& params )
     bool allowInstall = true;
     bool forceVersion = mSettings.Force;
 
+    // add all requested modules to missing modules to prevent multiple installations of the same modules
     for ( const auto& param : params ) {
         std::string moduleName;
         std::string source;
@@ -826,34 +827,15 @@ void install( const StringList& params )
             forceVersion = true;
         }
 
-        if ( !prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) ) ) {
-            allowInstall = false;
-        }
+        mMissingDependencies.addModule( Module( moduleName, version, source ) );
     }
 
-    // add all other requested modules to missing modules to prevent multiple installations of the same modules
-    for ( const auto& param : params ) {
-        std::string moduleName;
-        std::string source;
-        std::string version;
-
-        Utils::Tools::splitBy( param, VERSION_SEPARATOR, moduleName, version );
-
-        if ( version.empty() ) {
-            Module tmpModule;
+    auto requested = mMissingDependencies.getModules();
 
-            if ( mRemoteRepository.getModule( moduleName, tmpModule ) ) {
-                source = tmpModule.mSource;
-                version = tmpModule.mVersion.toString();
-            }
-        }
-        else {
-            forceVersion = true;
+    for ( const auto& requestedModule : requested ) {
+        if ( !prepareModuleInstallation( mRemoteRepository.getURL(), requestedModule ) ) {
+            allowInstall = false;
         }
-
-        Module missingModule( moduleName, version, source );
-
-        mMissingDependencies.addModule( missingModule );
     }
 
     for ( const auto& missingModule : mMissingDependencies.getModules() ) {
@@ -1096,9 +1078,19 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
     for ( const auto& dependency : module.mDependencies ) {
         bool found = false;
 
+        Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
+
         // look up dependency in already installed modules
         for ( const auto& module : localModules ) {
-            if ( module.mShortName == dependency.Module ) {
+            if ( module.mShortName == dependency.Module && !( module.mVersion < dependent.mVersion ) ) {
+                found = true;
+                break;
+            }
+        }
+
+        // look up dependency in modules that are going to be installed anyway
+        for ( const auto& module : mMissingDependencies.getModules() ) {
+            if ( module.mShortName == dependency.Module && !( module.mVersion < dependent.mVersion ) ) {
                 found = true;
                 break;
             }
@@ -1108,9 +1100,7 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
             // dependent module is not yet installed
             std::cout << "Need to install dependent module \"" << dependency.Module << "\"" << std::endl;
 
-            Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
-
-            mMissingDependencies.addModule( dependent );
+            mMissingDependencies.replaceModule( dependent );
 
             if ( !prepareModuleInstallation( repo, dependent ) ) {
                 return false;
diff --git a/Projects/slang-pkg/Common/Repository.cpp b/Projects/slang-pkg/Common/Repository.cpp
index b0dbd62..503b042 100644
--- a/Projects/slang-pkg/Common/Repository.cpp
+++ b/Projects/slang-pkg/Common/Repository.cpp
@@ -69,3 +69,9 @@ bool Repository::processIndex( const Json::Value& value )
 
 	return true;
 }
+
+void Repository::replaceModule( const Module& module )
+{
+	mModules.erase( module );
+	mModules.insert( module );
+}
diff --git a/Projects/slang-pkg/Common/Repository.h b/Projects/slang-pkg/Common/Repository.h
index bfae7bf..6253cea 100644
--- a/Projects/slang-pkg/Common/Repository.h
+++ b/Projects/slang-pkg/Common/Repository.h
@@ -36,6 +36,7 @@ public:
 	void addModule( const Module& module );
 	bool contains( const Module& module ) const;
 	bool getModule( const std::string& shortName, Module& module ) const;
+	void replaceModule( const Module& module );
 
 	bool processIndex( const Json::Value& value );
 
-- 
2.43.0


From 6f1ee08e5e92326945c78280c48288921599a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:00 +0000
Subject: [PATCH 108/137] fix: install the current version of a dependency
 without minimum version

The package manager tried to download version 0.0.0.
---
 Projects/slang-pkg/Application/Application.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 6e06d23..1032572 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -1100,6 +1100,11 @@ bool prepareModuleInstallation( const std::string& repo, const Module& installMo
             // dependent module is not yet installed
             std::cout << "Need to install dependent module \"" << dependency.Module << "\"" << std::endl;
 
+            if ( dependency.MinVersion.empty() ) {
+                // use the current version if the dependency does not ask for a specific one
+                mRemoteRepository.getModule( dependency.Module, dependent );
+            }
+
             mMissingDependencies.replaceModule( dependent );
 
             if ( !prepareModuleInstallation( repo, dependent ) ) {
-- 
2.43.0


From 8fc7940fb82cf6d1e891a8b4a202587a9e11426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:00 +0000
Subject: [PATCH 109/137] fix: quote folder names in the commands of the
 package manager

Removing a module from a library whose path contains a space deleted
other folders.
---
 Projects/slang-pkg/Application/Application.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 1032572..2d1e542 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -446,7 +446,7 @@ void cleanCache()
 #endif
 
     for ( StringList::const_iterator it = mDownloadedFiles.begin(); it != mDownloadedFiles.end(); ++it ) {
-        execute( "rm " + ( *it ) );
+        execute( "rm \"" + ( *it ) + "\"" );
     }
 }
 
@@ -569,23 +569,23 @@ void createLocalLibrary()
     // .slang folder for all repository configs etc.
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_FOLDER ) ) {
         // create folder for library config
-        execute( "mkdir " + mSettings.CurrentFolder + CONFIG_FOLDER );
+        execute( "mkdir \"" + mSettings.CurrentFolder + CONFIG_FOLDER + "\"" );
     }
 
     // .slang/apps/ folder to copy symlinks to
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_APPS ) ) {
         // create folder for library config
-        execute( "mkdir " + mSettings.CurrentFolder + CONFIG_APPS );
+        execute( "mkdir \"" + mSettings.CurrentFolder + CONFIG_APPS + "\"" );
     }
 
     // .slang/cache/modules" folder
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_CACHE_MODULES ) ) {
-        execute( "mkdir -p " + mSettings.CurrentFolder + CONFIG_CACHE_MODULES );
+        execute( "mkdir -p \"" + mSettings.CurrentFolder + CONFIG_CACHE_MODULES + "\"" );
     }
 
     // .slang/cache/repositories" folder
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES ) ) {
-        execute( "mkdir -p " + mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES );
+        execute( "mkdir -p \"" + mSettings.CurrentFolder + CONFIG_CACHE_REPOSITORIES + "\"" );
     }
 
     if ( !Utils::Tools::Files::exists( mSettings.CurrentFolder + CONFIG_FILE ) ) {
@@ -912,7 +912,7 @@ void installModule( const std::string& repo, const std::string& module )
         return;
     }
 
-    execute( "tar xf " + module_archive + " -C " + mSettings.LibraryFolder );
+    execute( "tar xf \"" + module_archive + "\" -C \"" + mSettings.LibraryFolder + "\"" );
 
     for ( const std::string& file : tmpModule.mTarget.InstalledFiles ) {
         execute( CONFIG_SCRIPTS + "addLink.sh \"" + mSettings.LibraryFolder + "/" + module + "/" + file + "\" \"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\"" );
@@ -1289,7 +1289,7 @@ void remove( const StringList& params )
                 std::cout << "Removing module \"" << localIt.mShortName << "\" from \"" << localIt.mTarget.Directory << "\"..." << std::endl;
 
                 execute( CONFIG_SCRIPTS + "removeLinks.sh \"" + mSettings.LibraryFolder + "/" + CONFIG_APPS + "\" \"" + mSettings.LibraryFolder + "/" + localIt.mShortName + "\"" );
-                execute( "rm -r " + localIt.mTarget.Directory );
+                execute( "rm -r \"" + localIt.mTarget.Directory + "\"" );
             }
         }
 
-- 
2.43.0


From a3c04604ffce33195f12c3ac8cd1807d4010223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:18 +0000
Subject: [PATCH 110/137] fix: let the debugger run methods without statements

Calling a method with an empty body crashed slang-dbg.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 7c299cb..7697408 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -634,15 +634,14 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 	initialize(&scope, method->mergeParameters(params));
 
 	// notify debugger
-	//DEBUGGER( notifyEnter( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyEnter( &scope, method->getRootNode()->token() ) );
+	const Token& token = method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken;
+	DEBUGGER( notifyEnter( &scope, token ) );
 
 	// interpret scope tokens
 	process(method->getRootNode());
 
 	// notify debugger
-	//DEBUGGER( notifyExit( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyExit( &scope, method->getRootNode()->token() ) );
+	DEBUGGER( notifyExit( &scope, token ) );
 
 	// only set return value if we are a non-void method
 	if ( result && method->QualifiedTypename() != _void ) {
-- 
2.43.0


From 2eea23c7e085e1e27699afb3e902177fa32f529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:18 +0000
Subject: [PATCH 111/137] fix: let breakpoints stop once at every statement

Breakpoints at method calls were never reached, those at the first
statement of a block were reached twice.
---
 Projects/Core/Core/AST/Statement.h         |  1 +
 Projects/Core/Core/AST/TreeGenerator.cpp   |  3 +++
 Projects/Core/Core/AST/TreeInterpreter.cpp | 12 ++++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/Statement.h b/Projects/Core/Core/AST/Statement.h
index 47e2f7c..9a88af0 100644
--- a/Projects/Core/Core/AST/Statement.h
+++ b/Projects/Core/Core/AST/Statement.h
@@ -97,6 +97,7 @@ public:
 
 public:
 	Nodes mNodes;
+	TokenList mTokens;	// first token of each node
 };
 
 
diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 644d69c..d944101 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -751,9 +751,12 @@ Statements* TreeGenerator::process(TokenIterator& token, TokenIterator end)
 			reachedControlFlowChanges++;
 		}
 
+		const Token start(*token);
+
 		Node* node = process_statement(token);
 		if ( node ) {
 			statements->mNodes.push_back(node);
+			statements->mTokens.push_back(start);
 
 			if ( dynamic_cast<ControlFlowStatement*>(node) ) {
 				reachedControlFlowChanges++;
diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 7697408..e53d887 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -869,11 +869,17 @@ void TreeInterpreter::process(Statements* statements)
 		return;
 	}
 
-	for ( Statements::Nodes::const_iterator it = statements->mNodes.begin(); it != statements->mNodes.end(); ++it ) {
+	auto token = statements->mTokens.cbegin();
+
+	for ( Statements::Nodes::const_iterator it = statements->mNodes.begin(); it != statements->mNodes.end(); ++it, ++token ) {
 		if ( mControlFlow != Runtime::ControlFlow::Normal ) {
 			break;		// control flow has been broken, time to stop processing
 		}
 
+		if ( (*it)->getNodeType() != Node::NodeType::Statement ) {
+			DEBUGGER( notify(getScope(), (*token)) );		// notify debugger, statements do this by themselves
+		}
+
 		visit((*it));
 	}
 }
@@ -1233,7 +1239,9 @@ void TreeInterpreter::visitReturn(ReturnStatement* node)
 
 void TreeInterpreter::visitStatement(Statement *node)
 {
-	DEBUGGER( notify(getScope(), node->token()) );		// notify debugger
+	if ( node->getStatementType() != Statement::StatementType::Statements ) {
+		DEBUGGER( notify(getScope(), node->token()) );		// notify debugger, blocks do this for each of their statements
+	}
 
 	switch ( node->getStatementType() ) {
 		case Statement::StatementType::AssertStatement:
-- 
2.43.0


From ce096b651adf1d3d00f0f9b63e3ef6667f8e7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:18 +0000
Subject: [PATCH 112/137] fix: stop at breakpoints that are reached before a
 step is done

After the commands into and out all breakpoints were ignored until the
next call or the next return.
---
 Projects/Core/Debugger/Debugger.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index e9e49da..6a2ca0b 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -109,16 +109,16 @@ void Debugger::notify(IScope* scope, const Token& token)
 		case NextAction::StepOver:
 			stop = true;
 			break;
-		case NextAction::WaitForBreakPoint:
-			if ( breakIt != mBreakPoints.end() ) {
-				stop = true;
-				breakpoint = *breakIt;
-			}
-			break;
 		default:
 			break;
 	}
 
+	// a breakpoint stops no matter which step we are waiting for
+	if ( breakIt != mBreakPoints.end() ) {
+		stop = true;
+		breakpoint = *breakIt;
+	}
+
 	if ( stop ) {
 		mReceiver->notify(scope, breakpoint);
 	}
-- 
2.43.0


From caba31bde7021dd9b6b73d303f5ce138f567a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 113/137] fix: step over method calls

The command next stopped at the first statement of a called method.
---
 Projects/Core/Debugger/Debugger.cpp | 10 +++++++++-
 Projects/Core/Debugger/Debugger.h   |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index 6a2ca0b..c73581a 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -21,8 +21,10 @@ Token Debugger::immediateBreakToken = Token();
 Debugger::Debugger()
 : mBreakOnExceptionCatch(false),
   mBreakOnExceptionThrow(false),
+  mDepth(0),
   mNextAction(NextAction::WaitForBreakPoint),
   mReceiver(nullptr),
+  mStepDepth(0),
   mUseDebugger(false)
 {
 }
@@ -73,6 +75,7 @@ const BreakPointCollection& Debugger::getBreakPoints() const
 void Debugger::init()
 {
 	mUseDebugger = true;
+	mDepth = 0;
 
 	resume();
 }
@@ -107,7 +110,7 @@ void Debugger::notify(IScope* scope, const Token& token)
 
 	switch ( mNextAction ) {
 		case NextAction::StepOver:
-			stop = true;
+			stop = mDepth <= mStepDepth;
 			break;
 		default:
 			break;
@@ -126,6 +129,8 @@ void Debugger::notify(IScope* scope, const Token& token)
 
 void Debugger::notifyEnter(IScope* scope, const Token& token)
 {
+	++mDepth;
+
 	if ( mReceiver && mNextAction == NextAction::StepInto ) {
 		mReceiver->notifyEnter(scope, BreakPoint( token.position() ) );
 	}
@@ -150,6 +155,8 @@ void Debugger::notifyExit(IScope* scope, const Token& token)
 	if ( mReceiver && mNextAction == NextAction::StepOut ) {
 		mReceiver->notifyExit(scope, BreakPoint( token.position() ) );
 	}
+
+	--mDepth;
 }
 
 bool Debugger::registerReceiver(IReceiver* receiver)
@@ -196,6 +203,7 @@ void Debugger::stepOut()
 void Debugger::stepOver()
 {
 	mNextAction = NextAction::StepOver;
+	mStepDepth = mDepth;
 }
 
 bool Debugger::unregisterReceiver(IReceiver* receiver)
diff --git a/Projects/Core/Debugger/Debugger.h b/Projects/Core/Debugger/Debugger.h
index 8a09656..741b829 100644
--- a/Projects/Core/Debugger/Debugger.h
+++ b/Projects/Core/Debugger/Debugger.h
@@ -81,8 +81,10 @@ private:
 	bool mBreakOnExceptionCatch;
 	bool mBreakOnExceptionThrow;
 	BreakPointCollection mBreakPoints;
+	int mDepth;
 	NextAction::E mNextAction;
 	IReceiver* mReceiver;
+	int mStepDepth;
 	bool mUseDebugger;
 };
 
-- 
2.43.0


From a8c5271fb7509f6084576158342e9100b70bb8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 114/137] fix: evaluate the conditions of breakpoints

Variables were not found, so that every conditional breakpoint stopped.
---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ba82d2f..f675620 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -684,9 +684,9 @@ bool LocalClient::modifySymbol( const StringList& tokens )
 
 int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 {
-    writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
-
     // Condition check
+    mScope = scope;
+
     const auto& condition = breakpoint.getCondition();
     Symbol* lhs = getSymbol( condition.lhs() );
     Symbol* rhs = getSymbol( condition.rhs() );
@@ -704,9 +704,12 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 
     if (  condition.isValid() && !condition.evaluate( lhs, rhs )  ) {
         mContinue = true;
+        mScope = nullptr;
         return 0;
     }
 
+    writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
+
     mSettings->autoStop( false );
 
     return handleBreakpoint( scope, breakpoint );
-- 
2.43.0


From f1b7ccf8ccd5de1aba99972dea58bc55b5fd350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 115/137] fix: end slang-dbg at the end of its input

The debugger printed its prompt endlessly.
---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index f675620..db7e592 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -924,6 +924,12 @@ std::string LocalClient::read()
 	std::string result;
 
 	getline( std::cin >> std::ws, result );
+
+	if (  std::cin.eof() && result.empty()  ) {
+		// there are no more commands
+		return "quit";
+	}
+
 	std::cin.clear();
 
 	return result;
-- 
2.43.0


From 23690b5ea5582a6a5b2b41d2d2528cdd4f0af319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 116/137] fix: let steps stop at lines with a conditional
 breakpoint

A step went on if the condition of a breakpoint at its end was false.
---
 Projects/Core/Debugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index c73581a..a77f108 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -117,7 +117,7 @@ void Debugger::notify(IScope* scope, const Token& token)
 	}
 
 	// a breakpoint stops no matter which step we are waiting for
-	if ( breakIt != mBreakPoints.end() ) {
+	if ( !stop && breakIt != mBreakPoints.end() ) {
 		stop = true;
 		breakpoint = *breakIt;
 	}
-- 
2.43.0


From ace7540b637d56e4f73fda81ee45782710fed0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 117/137] fix: unwind the stack when the debugger quits a
 running program

slang-dbg crashed when it was quit within a called method.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index e53d887..7f11e74 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -635,13 +635,21 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 
 	// notify debugger
 	const Token& token = method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken;
-	DEBUGGER( notifyEnter( &scope, token ) );
 
-	// interpret scope tokens
-	process(method->getRootNode());
+	try {
+		DEBUGGER( notifyEnter( &scope, token ) );
 
-	// notify debugger
-	DEBUGGER( notifyExit( &scope, token ) );
+		// interpret scope tokens
+		process(method->getRootNode());
+
+		// notify debugger
+		DEBUGGER( notifyExit( &scope, token ) );
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		// the program is quit by the debugger, our frame refers to a scope that is about to end
+		finalize();
+		throw;
+	}
 
 	// only set return value if we are a non-void method
 	if ( result && method->QualifiedTypename() != _void ) {
-- 
2.43.0


From c350e528342f13f6aafa9a701d5e28f61f8578a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 118/137] fix: let a step out of a method stop in the calling
 method

The command next stopped in another method that was called by the same
statement.
---
 Projects/Core/Debugger/Debugger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Debugger/Debugger.cpp b/Projects/Core/Debugger/Debugger.cpp
index a77f108..7ae0fee 100644
--- a/Projects/Core/Debugger/Debugger.cpp
+++ b/Projects/Core/Debugger/Debugger.cpp
@@ -157,6 +157,11 @@ void Debugger::notifyExit(IScope* scope, const Token& token)
 	}
 
 	--mDepth;
+
+	// a step that leaves its method goes on in the calling one
+	if ( mStepDepth > mDepth ) {
+		mStepDepth = mDepth;
+	}
 }
 
 bool Debugger::registerReceiver(IReceiver* receiver)
-- 
2.43.0


From dec351fc47ecabd22cee8cfaf7e35cad9bd9636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 119/137] fix: do not stop any more once slang-dbg has been
 quit

The methods that were left were reported as if they had returned.
---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index db7e592..f074dbb 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -282,6 +282,9 @@ std::string LocalClient::executeCommand( const StringList &tokens )
 			mRunning = false;
 
 			if (  mScope  ) {
+				// no more stops while the methods that are still running are left
+				mDebugger->resumeWithoutBreaks();
+
 				// hack to exit debugger during an active debugging session
 				throw Runtime::ControlFlow::ExitProgram;
 			}
-- 
2.43.0


From 6a6b77e6f28519e75a83e511243d9f9107558f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:19 +0000
Subject: [PATCH 120/137] fix: reject the selection of a frame while no program
 is running

slang-dbg crashed.
---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index f074dbb..e9e2c22 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -1049,7 +1049,7 @@ void LocalClient::saveConfig()
 
 void LocalClient::setCurrentFrame( FrameId frameId )
 {
-	if (  frameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
+	if (  !mScope || frameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
 		writeln( "invalid frame selected!" );
 		return;
 	}
-- 
2.43.0


From 6ed526a97dbf33c44bef179d89fe4fa1d2c20a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:47 +0000
Subject: [PATCH 121/137] fix: reject a second constructor with the same
 parameters

The second one silently replaced the first one.
---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 09dde6e..b8437f0 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -99,6 +99,10 @@ void BluePrintObject::defineMethod(const std::string& name, Common::Method* meth
 			throw Exceptions::SyntaxError( "Overriding method '" + method->getFullScopeName() + "' is not marked with " + std::string( MEMORY_LAYOUT_OVERRIDE ) );
 		}
 
+		if ( method->getMethodType() != MethodType::Method && oldMethod->getMemoryLayout() != MemoryLayout::Abstract ) {
+			throw Exceptions::SyntaxError( "Method '" + method->getFullScopeName() + "' has already been defined with the same signature" );
+		}
+
 		// compare methods
 		if ( oldMethod->isConst() != method->isConst() ) {
 			throw Exceptions::SyntaxError("Overriding method '" + method->getFullScopeName() + "' has different return value then base method'" );
-- 
2.43.0


From 8ed63c57c95c63487f89a3a3f288ae65da4c5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:25 +0000
Subject: [PATCH 122/137] fix: require commas between the parameters of a
 method

Any token was taken as a separator, so that a parameter list without a
closing parenthesis was never left.
---
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index e8ed913..5eb603d 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -519,6 +519,8 @@ ParameterList Parser::parseParameters(TokenIterator& token, IScope* scope)
 		if ( token->type() == Token::Type::PARENTHESIS_CLOSE ) {
 			break;
 		}
+
+		expect(Token::Type::COMMA, token);
 	}
 
 	expect(Token::Type::PARENTHESIS_CLOSE, token);
-- 
2.43.0


From 827ac2b5eb4f4cdd00023ed179b3a8a4ff9dcc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:37 +0000
Subject: [PATCH 123/137] fix: report a missing closing parenthesis of a call

The search ran past the end of the tokens and never returned.
---
 Projects/Core/Core/AST/TreeGenerator.cpp   | 2 +-
 Projects/Core/Core/Common/Utils.cpp        | 8 ++++++--
 Projects/Core/Core/Common/Utils.h          | 2 +-
 Projects/Core/Core/Runtime/Interpreter.cpp | 8 ++++----
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d944101..702d197 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1704,7 +1704,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 	auto tmp = token;
 
 	auto opened = findNext(tmp, Token::Type::PARENTHESIS_OPEN);
-	auto closed = findNextBalancedParenthesis(++opened);
+	auto closed = findNextBalancedParenthesis(++opened, getTokens().end());
 
 	ExpressionList params;
 
diff --git a/Projects/Core/Core/Common/Utils.cpp b/Projects/Core/Core/Common/Utils.cpp
index 2d1c0e9..1f57de8 100644
--- a/Projects/Core/Core/Common/Utils.cpp
+++ b/Projects/Core/Core/Common/Utils.cpp
@@ -94,13 +94,17 @@ TokenIterator findNextBalancedCurlyBracket(TokenIterator start, TokenIterator en
 	return start;
 }
 
-TokenIterator findNextBalancedParenthesis(TokenIterator start, int generateErrorAfter, Token::Type::E terminator)
+TokenIterator findNextBalancedParenthesis(TokenIterator start, TokenIterator end, int generateErrorAfter, Token::Type::E terminator)
 {
 	int count = 0;
 	auto tmp = start;
 	int openParenthesis = 0;
 
-	while ( start->type() != Token::Type::PARENTHESIS_CLOSE || openParenthesis ) {
+	while ( start == end || start->type() != Token::Type::PARENTHESIS_CLOSE || openParenthesis ) {
+		if ( start == end ) {
+			throw Designtime::Exceptions::SyntaxError("closed parenthesis expected, but none found", tmp->position());
+		}
+
 		if ( start->type() == Token::Type::PARENTHESIS_OPEN ) {
 			++openParenthesis;
 		}
diff --git a/Projects/Core/Core/Common/Utils.h b/Projects/Core/Core/Common/Utils.h
index 2d538c0..bf449c4 100644
--- a/Projects/Core/Core/Common/Utils.h
+++ b/Projects/Core/Core/Common/Utils.h
@@ -22,7 +22,7 @@ void expect(Token::Type::E expected, const TokenIterator& found);
 TokenIterator findNext(TokenIterator start, Token::Type::E type, Token::Type::E terminator = Token::Type::NIL);
 TokenIterator findNextBalancedBracket(TokenIterator start, int generateErrorAfter = 0, Token::Type::E terminator = Token::Type::NIL);
 TokenIterator findNextBalancedCurlyBracket(TokenIterator start, TokenIterator end, int generateErrorAfter = 0, Token::Type::E terminator = Token::Type::NIL);
-TokenIterator findNextBalancedParenthesis(TokenIterator start, int generateErrorAfter = 0, Token::Type::E terminator = Token::Type::NIL);
+TokenIterator findNextBalancedParenthesis(TokenIterator start, TokenIterator end, int generateErrorAfter = 0, Token::Type::E terminator = Token::Type::NIL);
 
 inline TokenIterator lookahead(TokenIterator token, int numLooks = 1)
 {
diff --git a/Projects/Core/Core/Runtime/Interpreter.cpp b/Projects/Core/Core/Runtime/Interpreter.cpp
index 6d609e4..5e8f290 100644
--- a/Projects/Core/Core/Runtime/Interpreter.cpp
+++ b/Projects/Core/Core/Runtime/Interpreter.cpp
@@ -93,7 +93,7 @@ void Interpreter::collectParameterList(TokenIterator& token, ParameterList& para
 	expect(Token::Type::PARENTHESIS_OPEN, token);
 
 	TokenIterator opened = token;
-	TokenIterator closed = findNextBalancedParenthesis(++opened);
+	TokenIterator closed = findNextBalancedParenthesis(++opened, getTokens().end());
 
 	token = closed;
 
@@ -1327,7 +1327,7 @@ void Interpreter::process_if(TokenIterator& token, Object *result)
 
 	TokenIterator condBegin = token;
 	// find next balanced '(' & ')' pair
-	TokenIterator condEnd = ++findNextBalancedParenthesis(condBegin);
+	TokenIterator condEnd = ++findNextBalancedParenthesis(condBegin, getTokens().end());
 
 	expect(Token::Type::BRACKET_CURLY_OPEN, condEnd);
 
@@ -1669,7 +1669,7 @@ void Interpreter::process_switch(TokenIterator& token, Object* result)
 	// find next open parenthesis '('
 	TokenIterator condBegin = token;
 	// find next balanced '(' & ')' pair
-	TokenIterator condEnd = ++findNextBalancedParenthesis(condBegin);
+	TokenIterator condEnd = ++findNextBalancedParenthesis(condBegin, getTokens().end());
 
 	// evaluate switch-expression
 	Object expr;
@@ -2137,7 +2137,7 @@ void Interpreter::process_while(TokenIterator& token, Object* result)
 	// find next open parenthesis '('
 	TokenIterator condBegin = token;
 	// find next balanced '(' & ')' pair
-	TokenIterator condEnd = findNextBalancedParenthesis(condBegin)++;
+	TokenIterator condEnd = findNextBalancedParenthesis(condBegin, getTokens().end())++;
 
 	expect(Token::Type::PARENTHESIS_CLOSE, condEnd);
 	++condEnd;
-- 
2.43.0


From 32aa7b950c66574bc8a1167e8fcc343886d60faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:34:35 +0000
Subject: [PATCH 124/137] fix: reject 'new' with the name of a variable

It crashed slang.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 702d197..8377c8f 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1824,9 +1824,12 @@ Expression* TreeGenerator::process_new(TokenIterator& token)
 			inner = inner->mSymbolExpression;
 		}
 		else {
-			const PrototypeConstraints constraints = dynamic_cast<DesigntimeSymbolExpression*>(inner)->mConstraints;
+			auto* designtime = dynamic_cast<DesigntimeSymbolExpression*>(inner);
+			if ( !designtime ) {
+				throw Designtime::Exceptions::SyntaxError("'" + inner->toString() + "' is not a type", token->position());
+			}
 
-			const Common::TypeDeclaration typeDeclaration(inner->getResultType(), constraints);
+			const Common::TypeDeclaration typeDeclaration(inner->getResultType(), designtime->mConstraints);
 			mRepository->prepareType(typeDeclaration);
 
 			type = Designtime::Parser::buildRuntimeConstraintTypename(
-- 
2.43.0


From 365dcfb560a5f9614c91bf8ae68f09fe77f5cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:56 +0000
Subject: [PATCH 125/137] fix: require parentheses after the type of 'new'

The parameter list was looked for in the rest of the method, and beyond
its end, which crashed slang.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8377c8f..d8e20de 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1701,9 +1701,11 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 {
 	const Token start = (*token);
 
+	expect(Token::Type::PARENTHESIS_OPEN, token);
+
 	auto tmp = token;
 
-	auto opened = findNext(tmp, Token::Type::PARENTHESIS_OPEN);
+	auto opened = tmp;
 	auto closed = findNextBalancedParenthesis(++opened, getTokens().end());
 
 	ExpressionList params;
-- 
2.43.0


From 93f98e42b410d247d3138ca7ca51688e2cd462bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:41:28 +0000
Subject: [PATCH 126/137] fix: allow generic types as parameters and results of
 functions

A parameter of type G<int> was rejected unless G<int> had already been
used by code generated earlier, so that the order of the declarations
mattered.
---
 Projects/Core/Core/Common/Method.cpp          | 13 +++++++++-
 Projects/Core/Core/Common/Method.h            |  4 ++++
 .../Core/Core/VirtualMachine/Repository.cpp   | 24 +++++++++++++++++++
 .../Core/Core/VirtualMachine/Repository.h     |  1 +
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index f349d94..8d5cb4e 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -37,7 +37,8 @@ Method::Method(const Method& other, bool shallowCopy)
   mIsInitialized(other.mIsInitialized),
   mReturnType(other.mReturnType),
   mRootNode(other.mRootNode),
-  mSignature(other.mSignature)
+  mSignature(other.mSignature),
+  mUsedPrototypes(other.mUsedPrototypes)
 {
 	mAlgorithm = other.mAlgorithm;
 	mCheckedExceptions = other.mCheckedExceptions;
@@ -138,6 +139,7 @@ Method& Method::operator= (const Method& other)
 		mScopeType = other.mScopeType;
 		mSignature = other.mSignature;
 		mTokens = other.mTokens;
+		mUsedPrototypes = other.mUsedPrototypes;
 		mVisibility = other.mVisibility;
 	}
 
@@ -170,6 +172,8 @@ void Method::initialize(const PrototypeConstraints& constraints)
 	auto type = constraints.lookupType(mReturnType.mName);
 
 	if ( !mReturnType.mConstraints.empty() ) {
+		mUsedPrototypes.emplace_back(type, mReturnType.mConstraints.buildRuntimeConstraints(constraints));
+
 		type += constraints.extractTypes(mReturnType.mConstraints);
 	}
 
@@ -187,6 +191,8 @@ void Method::initialize(const PrototypeConstraints& constraints)
 
 		// combine parameter type with
 		if ( !paramIt.typeConstraints().empty() ) {
+			mUsedPrototypes.emplace_back(type, paramIt.typeConstraints().buildRuntimeConstraints(constraints));
+
 			type += constraints.extractTypes(paramIt.typeConstraints());
 		}
 
@@ -322,6 +328,11 @@ const ParameterList& Method::provideSignature() const
 	return mSignature;
 }
 
+const std::list<TypeDeclaration>& Method::provideUsedPrototypes() const
+{
+	return mUsedPrototypes;
+}
+
 const std::string& Method::QualifiedTypename() const
 {
 	return mReturnType.mCombinedName;
diff --git a/Projects/Core/Core/Common/Method.h b/Projects/Core/Core/Common/Method.h
index f863101..5df716b 100644
--- a/Projects/Core/Core/Common/Method.h
+++ b/Projects/Core/Core/Common/Method.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <list>
 
 // Project includes
 #include <Core/Common/TypeDeclaration.h>
@@ -65,6 +66,8 @@ public: // Setup
 	void setParent(IScope* scope);
 	void setSignature(const ParameterList& params);
 
+	const std::list<TypeDeclaration>& provideUsedPrototypes() const;
+
 	const PrototypeConstraints& getPrototypeConstraints() const;
 	void setPrototypeConstraints(const PrototypeConstraints& constraints);
 
@@ -93,6 +96,7 @@ private:
 	AST::Statements* mRootNode;
 	ParameterList mSignature;
 	TokenList mTokens;
+	std::list<TypeDeclaration> mUsedPrototypes;	// prototypes that are used in our signature
 };
 
 
diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index b134aaa..9d3950b 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -563,6 +563,8 @@ void Repository::initializeBlueprints()
 	for ( auto& blueprint : mBluePrintObjects) {
 		initBluePrintObject(blueprint.second);
 	}
+
+	prepareSignatures(Controller::Instance().globalScope());
 }
 
 /*
@@ -637,6 +639,10 @@ void Repository::initBluePrintObject(Designtime::BluePrintObject* blueprint)
 		}
 
 		method->initialize();
+
+		for ( const auto& type : method->provideUsedPrototypes() ) {
+			prepareType(type);
+		}
 	}
 
 	if ( !blueprint->isPrepared() ) {
@@ -790,6 +796,24 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 	}
 }
 
+/*
+ * prepares all prototype types that are used in the signatures of functions
+ */
+void Repository::prepareSignatures(MethodScope* scope)
+{
+	for ( auto it = scope->beginMethods(); it != scope->endMethods(); ++it ) {
+		for ( const auto& type : dynamic_cast<Common::Method*>(*it)->provideUsedPrototypes() ) {
+			prepareType(type);
+		}
+	}
+
+	for ( auto it = scope->beginSymbols(); it != scope->endSymbols(); ++it ) {
+		if ( it->second->getSymbolType() == Symbol::IType::NamespaceSymbol ) {
+			prepareSignatures(dynamic_cast<Common::Namespace*>(it->second));
+		}
+	}
+}
+
 void Repository::prepareType(const Common::TypeDeclaration& type)
 {
 	// resolve type constraints
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index a1f8499..d39b9dd 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -62,6 +62,7 @@ public:
 	Designtime::BluePrintObject* findBluePrintObject(const std::string& type) const;
 	Designtime::BluePrintObject* findBluePrintObject(const Common::TypeDeclaration& typeDeclaration) const;
 
+	void prepareSignatures(MethodScope* scope);
 	void prepareType(const Common::TypeDeclaration& type);
 
 private:
-- 
2.43.0


From be8839be365fba109d00a72b8769f4f41a6a05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:42:05 +0000
Subject: [PATCH 127/137] fix: keep the type arguments of a qualified generic
 type

A variable declared as N.G<int> got the type N.G<Object>.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d8e20de..c47fa9c 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2273,7 +2273,14 @@ TypeDeclaration* TreeGenerator::process_type(TokenIterator& token, Initializatio
 	}
 
 	const std::string type = lhs->getResultType();
-	const PrototypeConstraints constraints = lhs->mConstraints;
+
+	// the constraints belong to the last part of a qualified name
+	auto* inner = lhs;
+	while ( auto* next = dynamic_cast<DesigntimeSymbolExpression*>(inner->mSymbolExpression) ) {
+		inner = next;
+	}
+
+	const PrototypeConstraints constraints = inner->mConstraints;
 
 	mRepository->prepareType(Common::TypeDeclaration(type, constraints));
 
-- 
2.43.0


From a14038cebac28ae5c5f15b3a71b83775191af4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:11:50 +0000
Subject: [PATCH 128/137] fix: accept break and continue as part of the only
 statement of a loop

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c47fa9c..e65e0c4 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1377,7 +1377,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 	// {
 	Node* iteration = nullptr;
 	if ( token->type() != Token::Type::PARENTHESIS_CLOSE ) {
-		iteration = process_statement(token, true);
+		iteration = process_statement(token);
 	}
 
 	expect(Token::Type::PARENTHESIS_CLOSE, token);
@@ -1974,7 +1974,14 @@ Node* TreeGenerator::process_statement(TokenIterator& token, bool allowBreakAndC
 			}
 		} break;
 		case Token::Type::KEYWORD:
-			node = process_keyword(token);
+			if ( allowBreakAndContinue ) {	// the only statement of a loop does not open a scope by itself
+				pushScope(nullptr, true);
+				node = process_keyword(token);
+				popScope();
+			}
+			else {
+				node = process_keyword(token);
+			}
 			break;
 		case Token::Type::PARENTHESIS_OPEN:
 			node = expression(token);
-- 
2.43.0


From 9d12c6480589914c1e384663254a99df3f1e93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:47 +0000
Subject: [PATCH 129/137] fix: find the else after an expression statement
 without braces

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index e65e0c4..b9959d7 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1584,8 +1584,20 @@ Statement* TreeGenerator::process_if(TokenIterator& token)
 	expect(Token::Type::PARENTHESIS_CLOSE, token);
 	++token;
 
+	const bool isScope = token->type() == Token::Type::BRACKET_CURLY_OPEN;
+
 	Node* ifBlock = process_statement(token);
 
+	// the semicolon at the end of an expression belongs to the statement in front of the 'else'
+	if ( !isScope && token != getTokens().end() && token->type() == Token::Type::SEMICOLON ) {
+		auto next = token;
+		++next;
+
+		if ( next != getTokens().end() && next->type() == Token::Type::KEYWORD && next->content() == KEYWORD_ELSE ) {
+			token = next;
+		}
+	}
+
 	Node* elseBlock = nullptr;
 	if ( token != getTokens().end() &&
 		 token->type() == Token::Type::KEYWORD && token->content() == KEYWORD_ELSE ) {
-- 
2.43.0


From 0d7211300166ca5bfcdf730f167680bfa8ac84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:15 +0000
Subject: [PATCH 130/137] fix: let trigonometric, hyperbolic and exponent
 functions take numbers

---
 Projects/Extensions/LIBC/math/acos.h  | 4 ++--
 Projects/Extensions/LIBC/math/acosh.h | 4 ++--
 Projects/Extensions/LIBC/math/asin.h  | 4 ++--
 Projects/Extensions/LIBC/math/asinh.h | 4 ++--
 Projects/Extensions/LIBC/math/atan.h  | 4 ++--
 Projects/Extensions/LIBC/math/atanh.h | 4 ++--
 Projects/Extensions/LIBC/math/cos.h   | 4 ++--
 Projects/Extensions/LIBC/math/cosh.h  | 4 ++--
 Projects/Extensions/LIBC/math/ilogb.h | 4 ++--
 Projects/Extensions/LIBC/math/logb.h  | 4 ++--
 Projects/Extensions/LIBC/math/sin.h   | 4 ++--
 Projects/Extensions/LIBC/math/sinh.h  | 4 ++--
 Projects/Extensions/LIBC/math/tan.h   | 4 ++--
 Projects/Extensions/LIBC/math/tanh.h  | 4 ++--
 14 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/Projects/Extensions/LIBC/math/acos.h b/Projects/Extensions/LIBC/math/acos.h
index 3c7ef1f..170d37d 100644
--- a/Projects/Extensions/LIBC/math/acos.h
+++ b/Projects/Extensions/LIBC/math/acos.h
@@ -33,7 +33,7 @@ public:
 	: ExtensionMethod(0, "acos", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -61,7 +61,7 @@ public:
 	: ExtensionMethod(0, "acosf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/acosh.h b/Projects/Extensions/LIBC/math/acosh.h
index a9b76d1..0b01ee5 100644
--- a/Projects/Extensions/LIBC/math/acosh.h
+++ b/Projects/Extensions/LIBC/math/acosh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "acosh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "acoshf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/asin.h b/Projects/Extensions/LIBC/math/asin.h
index ab77a96..6eeec28 100644
--- a/Projects/Extensions/LIBC/math/asin.h
+++ b/Projects/Extensions/LIBC/math/asin.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "asin", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "asinf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/asinh.h b/Projects/Extensions/LIBC/math/asinh.h
index 4899097..f6dcfe2 100644
--- a/Projects/Extensions/LIBC/math/asinh.h
+++ b/Projects/Extensions/LIBC/math/asinh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "asinh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "asinhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/atan.h b/Projects/Extensions/LIBC/math/atan.h
index f6ddd63..1492720 100644
--- a/Projects/Extensions/LIBC/math/atan.h
+++ b/Projects/Extensions/LIBC/math/atan.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "atan", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "atanf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/atanh.h b/Projects/Extensions/LIBC/math/atanh.h
index a3372cd..71ffffb 100644
--- a/Projects/Extensions/LIBC/math/atanh.h
+++ b/Projects/Extensions/LIBC/math/atanh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "atanh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "atanhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/cos.h b/Projects/Extensions/LIBC/math/cos.h
index 322f5a0..72ba5c8 100644
--- a/Projects/Extensions/LIBC/math/cos.h
+++ b/Projects/Extensions/LIBC/math/cos.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "cos", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "cosf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/cosh.h b/Projects/Extensions/LIBC/math/cosh.h
index ffd178f..0a1e5a8 100644
--- a/Projects/Extensions/LIBC/math/cosh.h
+++ b/Projects/Extensions/LIBC/math/cosh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "cosh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "coshf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/ilogb.h b/Projects/Extensions/LIBC/math/ilogb.h
index f3901b4..879c62a 100644
--- a/Projects/Extensions/LIBC/math/ilogb.h
+++ b/Projects/Extensions/LIBC/math/ilogb.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "ilogb", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "ilogbf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/logb.h b/Projects/Extensions/LIBC/math/logb.h
index 301d4b2..b208526 100644
--- a/Projects/Extensions/LIBC/math/logb.h
+++ b/Projects/Extensions/LIBC/math/logb.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "logb", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "logbf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/sin.h b/Projects/Extensions/LIBC/math/sin.h
index 2b174f0..f53e6f4 100644
--- a/Projects/Extensions/LIBC/math/sin.h
+++ b/Projects/Extensions/LIBC/math/sin.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "sin", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "sinf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/sinh.h b/Projects/Extensions/LIBC/math/sinh.h
index 1e0e418..2318329 100644
--- a/Projects/Extensions/LIBC/math/sinh.h
+++ b/Projects/Extensions/LIBC/math/sinh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "sinh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "sinhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/tan.h b/Projects/Extensions/LIBC/math/tan.h
index 38ca09f..ffe63b7 100644
--- a/Projects/Extensions/LIBC/math/tan.h
+++ b/Projects/Extensions/LIBC/math/tan.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "tan", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "tanf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
diff --git a/Projects/Extensions/LIBC/math/tanh.h b/Projects/Extensions/LIBC/math/tanh.h
index 040ee42..a473f44 100644
--- a/Projects/Extensions/LIBC/math/tanh.h
+++ b/Projects/Extensions/LIBC/math/tanh.h
@@ -32,7 +32,7 @@ public:
 	: ExtensionMethod(0, "tanh", Designtime::DoubleType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::DoubleType::TYPENAME)));
 
 		setSignature(params);
 	}
@@ -60,7 +60,7 @@ public:
 	: ExtensionMethod(0, "tanhf", Designtime::FloatType::TYPENAME)
 	{
 		ParameterList params;
-		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::StringType::TYPENAME)));
+		params.push_back(Parameter::CreateDesigntime("arg", Common::TypeDeclaration(Designtime::FloatType::TYPENAME)));
 
 		setSignature(params);
 	}
-- 
2.43.0


From 15b99433e947e3d00309b44dd94d86d3142d38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:30:12 +0000
Subject: [PATCH 131/137] fix: provide the function remainder

---
 Projects/Extensions/LIBC/math/math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/LIBC/math/math.cpp b/Projects/Extensions/LIBC/math/math.cpp
index ff5cf2e..05e1873 100644
--- a/Projects/Extensions/LIBC/math/math.cpp
+++ b/Projects/Extensions/LIBC/math/math.cpp
@@ -173,6 +173,7 @@ void math_t::provideMethods( ExtensionMethods& methods )
     methods.push_back( new POW() );
     methods.push_back( new POWF() );
     methods.push_back( new POWL() );
+    methods.push_back( new REMAINDER() );
     methods.push_back( new REMAINDERF() );
     methods.push_back( new RINT() );
     methods.push_back( new RINTF() );
-- 
2.43.0


From 396925339dc8db575d1899998f7e3dc4ae77783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:06 +0000
Subject: [PATCH 132/137] fix: a power with exponent 0 is 1

---
 Projects/Library/System/Math/Functions.os | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/System/Math/Functions.os b/Projects/Library/System/Math/Functions.os
index 7028f74..ec9ecf0 100644
--- a/Projects/Library/System/Math/Functions.os
+++ b/Projects/Library/System/Math/Functions.os
@@ -9,9 +9,9 @@ public namespace Math {
 	}
 
 	public double power(double value, int exp) {
-		double result = value;
+		double result = 1.0d;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -24,9 +24,9 @@ public namespace Math {
 	}
 
 	public float power(float value, int exp) {
-		float result = value;
+		float result = 1.0f;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -39,9 +39,9 @@ public namespace Math {
 	}
 
 	public int power(int value, int exp) {
-		int result = value;
+		int result = 1;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
-- 
2.43.0


From de8a0e5679edc32e7bf481140c4844936c2880b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:32 +0000
Subject: [PATCH 133/137] fix: lgammaf and tgammaf return a float

---
 Projects/Extensions/LIBC/math/lgamma.h | 2 +-
 Projects/Extensions/LIBC/math/tgamma.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/math/lgamma.h b/Projects/Extensions/LIBC/math/lgamma.h
index c12ef38..31a0e67 100644
--- a/Projects/Extensions/LIBC/math/lgamma.h
+++ b/Projects/Extensions/LIBC/math/lgamma.h
@@ -72,7 +72,7 @@ public:
 
 		auto param_arg = (*it++).value().toFloat();
 
-		*result = Runtime::DoubleType(lgammaf(param_arg));
+		*result = Runtime::FloatType(lgammaf(param_arg));
 
 		return Runtime::ControlFlow::Normal;
 	}
diff --git a/Projects/Extensions/LIBC/math/tgamma.h b/Projects/Extensions/LIBC/math/tgamma.h
index 5a6eeb7..d4a48d1 100644
--- a/Projects/Extensions/LIBC/math/tgamma.h
+++ b/Projects/Extensions/LIBC/math/tgamma.h
@@ -72,7 +72,7 @@ public:
 
 		auto param_arg = (*it++).value().toFloat();
 
-		*result = Runtime::DoubleType(tgammaf(param_arg));
+		*result = Runtime::FloatType(tgammaf(param_arg));
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 7c62d178d87193b45e289460853ee87b6ba4daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:50 +0000
Subject: [PATCH 134/137] fix: strchr and strrchr are declared to return the
 text they return

---
 Projects/Extensions/LIBC/cstring/strchr.h  | 2 +-
 Projects/Extensions/LIBC/cstring/strrchr.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index c955ca9..179ee27 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -27,7 +27,7 @@ class STRCHR : public ExtensionMethod
 {
 public:
 	STRCHR()
-	: ExtensionMethod( 0, "strchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index b9c8e19..59b5e5d 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -27,7 +27,7 @@ class STRRCHR : public ExtensionMethod
 {
 public:
 	STRRCHR()
-	: ExtensionMethod( 0, "strrchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strrchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
-- 
2.43.0


From ce98e0a12aa771e1e7b7709a0f61823fc38d4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:29 +0000
Subject: [PATCH 135/137] fix: tmpfile is declared to return the handle it
 returns

---
 Projects/Extensions/LIBC/stdio/tmpfile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index ecd2320..d6f9f11 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -14,7 +14,7 @@
 #endif
 
 // Project includes
-#include <Core/Designtime/BuildInTypes/VoidType.h>
+#include <Core/Designtime/BuildInTypes/Int32Type.h>
 #include <Core/Extensions/ExtensionMethod.h>
 #include <Core/Runtime/BuildInTypes/Int32Type.h>
 #include "stdio.hpp"
@@ -34,7 +34,7 @@ class TMPFILE : public ExtensionMethod
 {
 public:
 	TMPFILE()
-	: ExtensionMethod(0, "tmpfile", Designtime::VoidType::TYPENAME)
+	: ExtensionMethod(0, "tmpfile", Designtime::Int32Type::TYPENAME)
 	{
 		ParameterList params;
 
-- 
2.43.0


From 327ad7e7f6d92a6b6b444ea72810e3e6bb6ea365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:03:12 +0000
Subject: [PATCH 136/137] fix: read times within daylight saving time as such

---
 Projects/Extensions/System/Strings/StrPTime.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/System/Strings/StrPTime.h b/Projects/Extensions/System/Strings/StrPTime.h
index 561188d..ea7818f 100644
--- a/Projects/Extensions/System/Strings/StrPTime.h
+++ b/Projects/Extensions/System/Strings/StrPTime.h
@@ -46,6 +46,7 @@ public:
 		std::string param_time = (*it++).value().toStdString();
 
 		tm tm{};
+		tm.tm_isdst = -1;	// the text does not say whether daylight saving time is in effect
 
 		if ( strptime(param_time.c_str(), param_format.c_str(), &tm ) ) {
 			auto time = mktime( &tm );
-- 
2.43.0


From d89bd95e2ad3fb3af17d8b434c29c051b2749b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:05:18 +0000
Subject: [PATCH 137/137] fix: streval replaces only the names within triple
 braces and leaves the values as they are

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 7f11e74..b0ad368 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -426,8 +426,8 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 	std::string sourceStr{ tmp.getValue().toStdString() };
 	size_t start{ 0 };
 
-	while ( ( start = sourceStr.find_first_of( VARPREFIX, start ) ) != std::string::npos ) {
-		auto end = sourceStr.find_first_of( VARPOSTFIX, start );
+	while ( ( start = sourceStr.find( VARPREFIX, start ) ) != std::string::npos ) {
+		auto end = sourceStr.find( VARPOSTFIX, start );
 		if ( end == std::string::npos ) {
 			start += PREFIXLEN;
 			break;
@@ -455,7 +455,10 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 
 		auto* tmpSym = dynamic_cast<Runtime::Object*>(symbol);
 
-		sourceStr.replace( start, end - start, tmpSym->getValue().toStdString() );
+		const auto value = tmpSym->getValue().toStdString();
+
+		sourceStr.replace( start, end - start, value );
+		start += value.size();
 	}
 
 	Runtime::StringType type( sourceStr );
-- 
2.43.0

