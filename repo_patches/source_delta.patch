From 788494573810a28e287e8c2568860ae8d28e3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 001/107] fix: runtime error location on the first line of a
 module pointed into the previous module's source

---
 NULLC/Executor_Common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index a193582..4c7c8db 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -169,7 +169,7 @@ unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, b
 		const char *codeStart = source + exInfo[infoID].sourceOffset;
 
 		// Find beginning of the line
-		while(codeStart != source && *(codeStart-1) != '\n')
+		while(codeStart != source && *(codeStart-1) != '\n' && *(codeStart-1) != '\0')
 			codeStart--;
 
 		// Skip whitespace
-- 
2.43.0


From ee2d412cae84d3b71ca5a74550967662cbb3564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 002/107] fix: INT_MIN / -1 and INT_MIN % -1 raised SIGFPE in
 the register VM, the constant folders and the evaluators

---
 NULLC/Executor_RegVm.cpp          | 14 ++++++++++++++
 NULLC/ExpressionEval.cpp          | 13 +++++++++++++
 NULLC/InstructionTreeVm.cpp       |  4 ++--
 NULLC/InstructionTreeVmCommon.cpp | 13 +++++++++++++
 NULLC/InstructionTreeVmCommon.h   |  1 +
 NULLC/InstructionTreeVmEval.cpp   | 12 ++++++++++++
 6 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index bfef0da..d8e87d4 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1,5 +1,7 @@
 #include "Executor_RegVm.h"
 
+#include <limits.h>
+
 #include "Executor_Common.h"
 
 #include "nullc.h"
@@ -841,6 +843,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].intValue == INT_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division overflow");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue / *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -858,6 +863,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].intValue == INT_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division overflow");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue % *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -970,6 +978,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division overflow");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue / *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -987,6 +998,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer division overflow");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index aa1f38c..15d2e4d 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1,5 +1,6 @@
 #include "ExpressionEval.h"
 
+#include <limits.h>
 #include <math.h>
 
 #include "ExpressionTree.h"
@@ -673,11 +674,17 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
+					if(rhsValueInt == -1 && lhsValueInt == INT_MIN)
+						return ReportCritical(ctx, "ERROR: integer division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
 				case SYN_BINARY_OP_MOD:
 					if(rhsValueInt == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
+					if(rhsValueInt == -1 && lhsValueInt == INT_MIN)
+						return ReportCritical(ctx, "ERROR: integer division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
 				case SYN_BINARY_OP_POW:
 					if(rhsValueInt < 0)
@@ -749,11 +756,17 @@ ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
 
+					if(rhsValue == -1 && lhsValue == LLONG_MIN)
+						return ReportCritical(ctx, "ERROR: integer division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
 				case SYN_BINARY_OP_MOD:
 					if(rhsValue == 0)
 						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
 
+					if(rhsValue == -1 && lhsValue == LLONG_MIN)
+						return ReportCritical(ctx, "ERROR: integer division overflow during constant folding");
+
 					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
 				case SYN_BINARY_OP_POW:
 					if(rhsValue < 0)
diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 59e3cbd..9583cb2 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4698,7 +4698,7 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 				ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue * consts[1]->lValue), &module->constantPropagations);
 			break;
 		case VM_INST_DIV:
-			if(!IsConstantZero(consts[1]))
+			if(!IsConstantZero(consts[1]) && !IsConstantDivisionOverflow(consts[0], consts[1]))
 			{
 				if(inst->type == VmType::Int)
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue / consts[1]->iValue), &module->constantPropagations);
@@ -4709,7 +4709,7 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 			}
 			break;
 		case VM_INST_MOD:
-			if(!IsConstantZero(consts[1]))
+			if(!IsConstantZero(consts[1]) && !IsConstantDivisionOverflow(consts[0], consts[1]))
 			{
 				if(inst->type == VmType::Int)
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue % consts[1]->iValue), &module->constantPropagations);
diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index 005f06f..180b639 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeVmCommon.h"
 
+#include <limits.h>
+
 #include "TypeTree.h"
 #include "InstructionTreeVm.h"
 #include "ExpressionTree.h"
@@ -199,6 +201,17 @@ bool IsConstantZero(VmValue* value)
 	return DoesConstantMatchEither(value, 0, 0.0, 0ll);
 }
 
+bool IsConstantDivisionOverflow(VmConstant *lhs, VmConstant *rhs)
+{
+	if(lhs->type == VmType::Int)
+		return lhs->iValue == INT_MIN && rhs->iValue == -1;
+
+	if(lhs->type == VmType::Long)
+		return lhs->lValue == LLONG_MIN && rhs->lValue == -1;
+
+	return false;
+}
+
 bool IsConstantOne(VmValue* value)
 {
 	return DoesConstantMatchEither(value, 1, 1.0, 1ll);
diff --git a/NULLC/InstructionTreeVmCommon.h b/NULLC/InstructionTreeVmCommon.h
index 092aecf..d389d43 100644
--- a/NULLC/InstructionTreeVmCommon.h
+++ b/NULLC/InstructionTreeVmCommon.h
@@ -36,6 +36,7 @@ bool DoesConstantIntegerMatch(VmValue* value, long long number);
 bool DoesConstantMatchEither(VmValue* value, int iValue, double dValue, long long lValue);
 
 bool IsConstantZero(VmValue* value);
+bool IsConstantDivisionOverflow(VmConstant *lhs, VmConstant *rhs);
 bool IsConstantOne(VmValue* value);
 
 unsigned GetAccessSize(VmInstruction *inst);
diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 1770a2e..eac79e7 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -991,6 +991,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		if(arguments[0]->type != VmType::Double && IsConstantZero(arguments[1]))
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+		if(IsConstantDivisionOverflow(arguments[0], arguments[1]))
+			return (VmConstant*)Report(ctx, "ERROR: integer division overflow");
+
 		if(arguments[0]->type == VmType::Int)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / arguments[1]->iValue);
 		else if(arguments[0]->type == VmType::Double)
@@ -1016,6 +1019,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		if(arguments[0]->type != VmType::Double && IsConstantZero(arguments[1]))
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+		if(IsConstantDivisionOverflow(arguments[0], arguments[1]))
+			return (VmConstant*)Report(ctx, "ERROR: integer division overflow");
+
 		if(arguments[0]->type == VmType::Int)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % arguments[1]->iValue);
 		else if(arguments[0]->type == VmType::Double)
@@ -1220,6 +1226,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			if(arguments[0]->type != VmType::Double && IsConstantZero(rhs))
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+			if(IsConstantDivisionOverflow(arguments[0], rhs))
+				return (VmConstant*)Report(ctx, "ERROR: integer division overflow");
+
 			if(arguments[0]->type == VmType::Int)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / rhs->iValue);
 			else if(arguments[0]->type == VmType::Double)
@@ -1258,6 +1267,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			if(arguments[0]->type != VmType::Double && IsConstantZero(rhs))
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+			if(IsConstantDivisionOverflow(arguments[0], rhs))
+				return (VmConstant*)Report(ctx, "ERROR: integer division overflow");
+
 			if(arguments[0]->type == VmType::Int)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % rhs->iValue);
 			else if(arguments[0]->type == VmType::Double)
-- 
2.43.0


From a442fa0a4c08071668a39bbef1365e96d7e58f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 003/107] fix: optimizer forwarded the unrounded double of a
 float store into the following float load

---
 NULLC/InstructionTreeVm.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 9583cb2..399e539 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1672,6 +1672,26 @@ namespace
 		return NULL;
 	}
 
+	// Get the value that will be loaded as a float after the specified value was stored as a float
+	VmValue* GetFloatStoreResult(VmModule *module, VmValue *value)
+	{
+		if(VmConstant *constant = getType<VmConstant>(value))
+		{
+			if(constant->type != VmType::Double)
+				return NULL;
+
+			return CreateConstantDouble(module->allocator, constant->source, double(float(constant->dValue)));
+		}
+
+		if(VmInstruction *inst = getType<VmInstruction>(value))
+		{
+			if(inst->cmd == VM_INST_LOAD_FLOAT)
+				return inst;
+		}
+
+		return NULL;
+	}
+
 	VmValue* GetLoadStoreInfo(VmModule *module, VmValue *loadPointer, VmConstant *loadOffset, unsigned loadSize, unsigned accessSize, VmInstructionType loadCmd)
 	{
 		if(VmConstant *loadAddress = getType<VmConstant>(loadPointer))
@@ -1707,6 +1727,10 @@ namespace
 						if(value->type.size != loadSize)
 							return NULL;
 
+						// Float store rounds the value that is going to be loaded
+						if(loadCmd == VM_INST_LOAD_FLOAT)
+							return GetFloatStoreResult(module, value);
+
 						return value;
 					}
 
@@ -5626,7 +5650,17 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 					VmConstant *storeOffset = getType<VmConstant>(prev->arguments[1]);
 					VmValue *storeValue = prev->arguments[2];
 
-					if(GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
+					bool reuse = GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size;
+
+					// Float store rounds the value that is going to be loaded
+					if(reuse && curr->cmd == VM_INST_LOAD_FLOAT)
+					{
+						storeValue = GetFloatStoreResult(module, storeValue);
+
+						reuse = storeValue != NULL;
+					}
+
+					if(reuse)
 					{
 						if(curr->type != storeValue->type)
 						{
-- 
2.43.0


From c63b637e7935b064234102dc076b5b65f57fec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 004/107] fix: optimizer stopped tracking a constant address
 whose use was legalized while its users were being replaced (assertion
 failure on array element member updates)

---
 NULLC/InstructionTreeVm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 399e539..50dc751 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1168,9 +1168,17 @@ namespace
 		module->tempUsers.reserve(original->users.size());
 		module->tempUsers.push_back(original->users.data, original->users.size());
 
+		// Instruction legalization might remove the use that was just added, replacement has to remain tracked by its container until all users are replaced
+		bool canBeRemoved = replacement->canBeRemoved;
+
+		if(isType<VmConstant>(replacement))
+			replacement->canBeRemoved = false;
+
 		for(unsigned i = 0; i < module->tempUsers.size(); i++)
 			ReplaceValue(module, module->tempUsers[i], original, replacement);
 
+		replacement->canBeRemoved = canBeRemoved;
+
 		if(VmBlock *block = getType<VmBlock>(original))
 		{
 			VmFunction *function = block->parent;
-- 
2.43.0


From 4c17d5c9bd1f71f2fc7845f3bf8c175292292571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 005/107] fix: char, short and float results of assignments,
 pre-increments and returns kept the unconverted value

---
 NULLC/InstructionTreeVm.cpp | 50 +++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 50dc751..5e7eb35 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -927,6 +927,40 @@ namespace
 		return CreateInstruction(module, source, VmType::Void, GetStoreInstruction(ctx, type), address, CreateConstantInt(ctx.allocator, source, offset), value);
 	}
 
+	// Check if the value of a numeric type is represented by a larger value type when it's not stored in memory
+	bool IsNarrowStorageType(ExpressionContext &ctx, TypeBase *type)
+	{
+		return type == ctx.typeChar || type == ctx.typeShort || type == ctx.typeFloat;
+	}
+
+	// Convert the value in the same way as a store to the memory location of the specified numeric type would
+	VmValue* CreateNarrowStorageValue(ExpressionContext &ctx, VmModule *module, SynBase *source, TypeBase *type, VmValue *value)
+	{
+		if(VmConstant *constant = getType<VmConstant>(value))
+		{
+			if(type == ctx.typeChar)
+				return CreateConstantInt(module->allocator, source, char(constant->iValue));
+
+			if(type == ctx.typeShort)
+				return CreateConstantInt(module->allocator, source, short(constant->iValue));
+
+			return CreateConstantDouble(module->allocator, source, float(constant->dValue));
+		}
+
+		// Loaded values and function results are already converted
+		if(VmInstruction *inst = getType<VmInstruction>(value))
+		{
+			if(inst->cmd == VM_INST_CALL || inst->cmd == GetLoadInstruction(ctx, type))
+				return value;
+		}
+
+		VmConstant *address = CreateAlloca(ctx, module, source, type, "narrow", true);
+
+		CreateStore(ctx, module, source, type, address, value, 0);
+
+		return CreateLoad(ctx, module, source, type, address, 0);
+	}
+
 	ScopeData* AllocateScopeSlot(ExpressionContext &ctx, VmModule *module, TypeBase *type, unsigned &offset)
 	{
 		FunctionData *function = module->currentFunction->function;
@@ -2692,6 +2726,10 @@ VmValue* CompileVmPreModify(ExpressionContext &ctx, VmModule *module, ExprPreMod
 
 	CreateStore(ctx, module, node->source, refType->subType, address, value, 0);
 
+	// Value might've been changed by a store to a smaller memory location
+	if(IsNarrowStorageType(ctx, refType->subType))
+		value = CreateLoad(ctx, module, node->source, refType->subType, address, 0);
+
 	return CheckType(ctx, node, value);
 }
 
@@ -3337,6 +3375,10 @@ VmValue* CompileVmAssignment(ExpressionContext &ctx, VmModule *module, ExprAssig
 
 	CreateStore(ctx, module, node->source, node->rhs->type, address, initializer, 0);
 
+	// Value might've been changed by a store to a smaller memory location
+	if(IsNarrowStorageType(ctx, node->rhs->type))
+		initializer = CreateLoad(ctx, module, node->source, node->rhs->type, address, 0);
+
 	return CheckType(ctx, node, initializer);
 }
 
@@ -3382,6 +3424,10 @@ VmValue* CompileVmReturn(ExpressionContext &ctx, VmModule *module, ExprReturn *n
 {
 	VmValue *value = CompileVm(ctx, module, node->value);
 
+	// Result is not stored in a smaller memory location, so the conversion has to be performed here
+	if(IsNarrowStorageType(ctx, node->value->type))
+		value = CreateNarrowStorageValue(ctx, module, node->source, node->value->type, value);
+
 	if(node->coroutineStateUpdate)
 		CompileVm(ctx, module, node->coroutineStateUpdate);
 
@@ -3398,6 +3444,10 @@ VmValue* CompileVmYield(ExpressionContext &ctx, VmModule *module, ExprYield *nod
 {
 	VmValue *value = CompileVm(ctx, module, node->value);
 
+	// Result is not stored in a smaller memory location, so the conversion has to be performed here
+	if(IsNarrowStorageType(ctx, node->value->type))
+		value = CreateNarrowStorageValue(ctx, module, node->source, node->value->type, value);
+
 	if(node->coroutineStateUpdate)
 		CompileVm(ctx, module, node->coroutineStateUpdate);
 
-- 
2.43.0


From 2ca2db8333736db8578e45fe8120d1bc27a6d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:35 +0000
Subject: [PATCH 006/107] fix: jump threading over a phi of constants kept a
 stale phi entry for the redirected block (assertion failures on nested
 conditional conditions)

---
 NULLC/InstructionTreeVm.cpp | 48 +++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 5e7eb35..97f2246 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5101,6 +5101,29 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmInstructi
 	}
 }
 
+void RemovePhiIncoming(VmInstruction *phi, unsigned index)
+{
+	assert(phi->cmd == VM_INST_PHI);
+
+	VmValue *option = phi->arguments[index];
+	VmValue *edge = phi->arguments[index + 1];
+
+	option->RemoveUse(phi);
+
+	// Incoming block is not removed here, it might be the entry block which has no other users
+	bool canBeRemoved = edge->canBeRemoved;
+
+	edge->canBeRemoved = false;
+	edge->RemoveUse(phi);
+	edge->canBeRemoved = canBeRemoved;
+
+	phi->arguments[index] = phi->arguments[phi->arguments.size() - 2];
+	phi->arguments[index + 1] = phi->arguments[phi->arguments.size() - 1];
+
+	phi->arguments.pop_back();
+	phi->arguments.pop_back();
+}
+
 void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValue *value)
 {
 	(void)ctx;
@@ -5199,15 +5222,19 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 				VmValue *trueBlock = currLastInst->arguments[1];
 				VmValue *falseBlock = currLastInst->arguments[2];
 
-				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
+				// Value of the phi node can't be used after predecessors are redirected around it
+				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction && phi->users.size() == 1)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
 
 						if(option->cmd != VM_INST_LOAD_IMMEDIATE)
+						{
+							i += 2;
 							continue;
+						}
 
 						VmConstant *condition = getType<VmConstant>(option->arguments[0]);
 
@@ -5221,8 +5248,14 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 							ReplaceValue(module, terminator, terminator->arguments[0], target);
 
+							RemovePhiIncoming(phi, i);
+
 							module->controlFlowSimplifications++;
 						}
+						else
+						{
+							i += 2;
+						}
 					}
 				}
 			}
@@ -5232,9 +5265,10 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 			{
 				VmInstruction *phi = getType<VmInstruction>(currLastInst->arguments[0]);
 
-				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
+				// Value of the phi node can't be used after predecessors are redirected around it
+				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction && phi->users.size() == 1)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
@@ -5246,6 +5280,12 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 							assert(terminator->arguments[0] == curr);
 
 							ChangeInstructionTo(module, terminator, VM_INST_RETURN, option, NULL, NULL, NULL, NULL, &module->controlFlowSimplifications);
+
+							RemovePhiIncoming(phi, i);
+						}
+						else
+						{
+							i += 2;
 						}
 					}
 				}
-- 
2.43.0


From 1b7f4432a9d822c25d20f76f01cc68d9ab4f058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:59 +0000
Subject: [PATCH 007/107] fix: optimizer reused a float load for a structure
 load of the same size (assertion failure, wrong data without assertions)

---
 NULLC/InstructionTreeVm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 97f2246..ff74b4b 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1750,7 +1750,8 @@ namespace
 				// Reuse previous load
 				if(el.loadInst && el.loadAddress)
 				{
-					if(*el.loadAddress == *loadAddress && accessSize == el.accessSize)
+					// Can't reuse loads of a different size (float is loaded as a double)
+					if(*el.loadAddress == *loadAddress && accessSize == el.accessSize && el.loadInst->type.size == loadSize)
 					{
 						assert(el.loadInst->parent);
 
@@ -1796,7 +1797,8 @@ namespace
 				// Reuse previous load
 				if(el.loadInst && el.loadPointer)
 				{
-					if(el.loadPointer == loadPointer && el.loadOffset->iValue == loadOffset->iValue && accessSize == el.accessSize)
+					// Can't reuse loads of a different size (float is loaded as a double)
+					if(el.loadPointer == loadPointer && el.loadOffset->iValue == loadOffset->iValue && accessSize == el.accessSize && el.loadInst->type.size == loadSize)
 					{
 						assert(el.loadInst->parent);
 
-- 
2.43.0


From 673f9ef3d616ee0378e081d19984239af8b49501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 008/107] fix: JIT logical not of a long tested only the low 32
 bits

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 3d4f502..9a86cac 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -4300,7 +4300,7 @@ void GenCodeCmdLogNotl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	EMIT_OP_REG_REG(ctx.ctx, o_xor64, rRCX, rRCX);
-	EMIT_OP_REG_REG(ctx.ctx, o_cmp, rRAX, rRCX);
+	EMIT_OP_REG_REG(ctx.ctx, o_cmp64, rRAX, rRCX);
 	EMIT_OP_REG(ctx.ctx, o_sete, rECX);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rECX); // Store int to target
-- 
2.43.0


From f7d5a35843a6c7f9668fbb1b5554a1757c17d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 009/107] fix: dead code elimination left blocks that its own
 constant branch folding made unreachable (assertion failures in the lowering)

---
 NULLC/InstructionTreeVm.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index ff74b4b..4506896 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4942,6 +4942,16 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		curr->successors.clear();
 	}
 
+	// Resolve branches with a constant condition first, blocks that become unreachable because of that have to be removed by this pass
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+	{
+		for(VmInstruction *inst = curr->firstInstruction; inst; inst = inst->nextSibling)
+		{
+			if(inst->cmd == VM_INST_JUMP_Z || inst->cmd == VM_INST_JUMP_NZ)
+				RunDeadCodeElimiation(ctx, module, inst);
+		}
+	}
+
 	// Get block predecessors and successors
 	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 	{
@@ -5015,6 +5025,28 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		curr = next;
 	}
 
+	// A block that defines values can be removed only after the unreachable blocks that use them
+	for(bool removed = true; removed;)
+	{
+		removed = false;
+
+		for(VmBlock *curr = function->firstBlock; curr;)
+		{
+			VmBlock *next = curr->nextSibling;
+
+			if(!curr->visited && curr->users.empty() && !curr->HasExternalInstructionUsers())
+			{
+				module->deadCodeEliminations++;
+
+				function->RemoveBlock(curr);
+
+				removed = true;
+			}
+
+			curr = next;
+		}
+	}
+
 	VmBlock *curr = function->firstBlock;
 
 	while(curr)
-- 
2.43.0


From 018d990360503e8606e42978fdfc7e4210719541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 010/107] fix: optimizer moved a load over a function call that
 changes the loaded global variable

---
 NULLC/InstructionTreeVm.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 4506896..11575f1 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -6502,10 +6502,23 @@ bool IsReachableLoadValue(VmInstruction *user, VmInstruction *load)
 		case VM_INST_MEM_COPY:
 			return false;
 		case VM_INST_CALL:
-			if(loadAddressConstant && loadAddressConstant->container && !HasAddressTaken(loadAddressConstant->container))
-				return true;
+			{
+				VariableData *container = loadAddressConstant ? loadAddressConstant->container : NULL;
 
-			return false;
+				// Function can modify any memory except for a local variable (or a temporary) that doesn't have its address taken
+				if(!container || HasAddressTaken(container) || (IsGlobalScope(container->scope) && !container->isAlloca))
+					return false;
+
+				// Unless it is the location of the function result
+				for(unsigned i = 0; i < curr->arguments.size(); i++)
+				{
+					VmConstant *argument = getType<VmConstant>(curr->arguments[i]);
+
+					if(argument && argument->isReference && argument->container == container)
+						return false;
+				}
+			}
+			break;
 		default:
 			break;
 		}
-- 
2.43.0


From cd6d2d76e5e0d33fe0c91dc0a4a55b8997815a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 011/107] fix: address of a member of an object known to be
 null failed an assertion in the lowering

---
 NULLC/InstructionTreeRegVmLower.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2648433..d6e5e57 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -349,8 +349,6 @@ void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFun
 
 		if(!constant->container)
 		{
-			assert(constant->iValue == 0);
-
 			if(NULLC_PTR_SIZE == 8)
 			{
 				unsigned constantIndex = TryLowerConstantToMemory(lowBlock, constant);
@@ -361,7 +359,7 @@ void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFun
 			}
 			else
 			{
-				lowBlock->AddInstruction(ctx, constant->source, rviLoadImm, targetReg, 0, 0, 0u);
+				lowBlock->AddInstruction(ctx, constant->source, rviLoadImm, targetReg, 0, 0, constant->iValue);
 			}
 		}
 		else
@@ -457,17 +455,15 @@ bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 		{
 			if(!constant->container)
 			{
-				assert(constant->iValue == 0);
-
 				if(NULLC_PTR_SIZE == 8)
 				{
 					lowModule->constants.push_back(rvmiPushImmq);
-					lowModule->constants.push_back(0);
+					lowModule->constants.push_back(constant->iValue);
 				}
 				else
 				{
 					lowModule->constants.push_back(rvmiPushImm);
-					lowModule->constants.push_back(0);
+					lowModule->constants.push_back(constant->iValue);
 				}
 
 				return true;
@@ -501,9 +497,6 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 		if(constant->type == VmType::Int || (constant->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 4 && !constant->container))
 		{
-			if(constant->type.type == VM_TYPE_POINTER)
-				assert(constant->iValue == 0);
-
 			if(unsigned index = lowModule->FindConstant(constant->iValue))
 				return index;
 
@@ -533,11 +526,11 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 		}
 		else if(constant->type == VmType::Long || (constant->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8 && !constant->container))
 		{
-			if(constant->type.type == VM_TYPE_POINTER)
-				assert(constant->iValue == 0);
+			// Pointer without a container is a null pointer or an address of a member of a null object
+			long long lValue = constant->type.type == VM_TYPE_POINTER ? constant->iValue : constant->lValue;
 
 			unsigned data[2];
-			memcpy(data, &constant->lValue, 8);
+			memcpy(data, &lValue, 8);
 
 			if(unsigned index = lowModule->FindConstant(data[0], data[1]))
 				return index;
-- 
2.43.0


From 92c2df8c5f01ba96d14fc63038598d634f4f34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:49 +0000
Subject: [PATCH 012/107] fix: values were replaced after the live sets had
 been computed (assertion failure in the register allocation)

---
 NULLC/Compiler.cpp | 4641 ++++++++++++++++++++++----------------------
 1 file changed, 2321 insertions(+), 2320 deletions(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index a815c02..da32c03 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -1,2320 +1,2321 @@
-#include "Compiler.h"
-
-#include "nullc.h"
-#include "nullbind.h"
-#include "nullc_internal.h"
-#include "BinaryCache.h"
-#include "Bytecode.h"
-#include "Executor_Common.h"
-#include "StdLib.h"
-
-const char *nullcBaseCode = "\
-void assert(int val);\r\n\
-void assert(int val, char[] message);\r\n\
-\r\n\
-int operator ==(char[] a, b);\r\n\
-int operator !=(char[] a, b);\r\n\
-char[] operator +(char[] a, b);\r\n\
-char[] operator +=(char[] ref a, char[] b);\r\n\
-\r\n\
-bool bool(bool a);\r\n\
-char char(char a);\r\n\
-short short(short a);\r\n\
-int int(int a);\r\n\
-long long(long a);\r\n\
-float float(float a);\r\n\
-double double(double a);\r\n\
-void bool:bool(bool a){ *this = a; }\r\n\
-void char:char(char a){ *this = a; }\r\n\
-void short:short(short a){ *this = a; }\r\n\
-void int:int(int a){ *this = a; }\r\n\
-void long:long(long a){ *this = a; }\r\n\
-void float:float(float a){ *this = a; }\r\n\
-void double:double(double a){ *this = a; }\r\n\
-\r\n\
-int as_unsigned(char a);\r\n\
-int as_unsigned(short a);\r\n\
-long as_unsigned(int a);\r\n\
-\r\n\
-short short(char[] str);\r\n\
-char[] short:str();\r\n\
-int int(char[] str);\r\n\
-char[] int:str();\r\n\
-long long(char[] str);\r\n\
-char[] long:str();\r\n\
-float float(char[] str);\r\n\
-char[] float:str(int precision = 6, bool showExponent = false);\r\n\
-double double(char[] str);\r\n\
-char[] double:str(int precision = 6, bool showExponent = false);\r\n\
-\r\n\
-void ref __newS(int size, int type);\r\n\
-int[] __newA(int size, int count, int type);\r\n\
-auto ref	duplicate(auto ref obj);\r\n\
-void		__duplicate_array(auto[] ref dst, auto[] src);\r\n\
-auto[]		duplicate(auto[] arr){ auto[] r; __duplicate_array(&r, arr); return r; }\r\n\
-auto ref	replace(auto ref l, r);\r\n\
-void		swap(auto ref l, r);\r\n\
-int			equal(auto ref l, r);\r\n\
-void		assign(explicit auto ref l, auto ref r);\r\n\
-void		array_copy(auto[] l, r);\r\n\
-void		array_copy(generic dst, int offsetDst, generic src, int offsetSrc, count)\r\n\
-{\r\n\
-	for({ int i = offsetDst, k = offsetSrc; }; i < offsetDst + count; {i++; k++; })\r\n\
-		dst[i] = src[k];\r\n\
-}\r\n\
-\r\n\
-void ref() __redirect(auto ref r, __function[] ref f);\r\n\
-void ref() __redirect_ptr(auto ref r, __function[] ref f);\r\n\
-// char inline array definition support\r\n\
-auto __aassign_itoc(char[] ref dst, int[] src)\r\n\
-{\r\n\
-	if(dst.size < src.size)\r\n\
-		*dst = new char[src.size];\r\n\
-	for(int i = 0; i < src.size; i++)\r\n\
-		dst[i] = src[i];\r\n\
-	return dst;\r\n\
-}\r\n\
-// short inline array definition support\r\n\
-auto __aassign_itos(short[] ref dst, int[] src)\r\n\
-{\r\n\
-	if(dst.size < src.size)\r\n\
-		*dst = new short[src.size];\r\n\
-	for(int i = 0; i < src.size; i++)\r\n\
-		dst[i] = src[i];\r\n\
-	return dst;\r\n\
-}\r\n\
-// float inline array definition support\r\n\
-auto __aassign_dtof(float[] ref dst, double[] src)\r\n\
-{\r\n\
-	if(dst.size < src.size)\r\n\
-		*dst = new float[src.size];\r\n\
-	for(int i = 0; i < src.size; i++)\r\n\
-		dst[i] = src[i];\r\n\
-	return dst;\r\n\
-}\r\n\
-// typeid retrieval from auto ref\r\n\
-typeid typeid(auto ref type);\r\n\
-int typeid.size();\r\n\
-// typeid comparison\r\n\
-int operator==(typeid a, b);\r\n\
-int operator!=(typeid a, b);\r\n\
-\r\n\
-int __rcomp(auto ref a, b);\r\n\
-int __rncomp(auto ref a, b);\r\n\
-\r\n\
-bool operator<(explicit auto ref a, b);\n\r\
-bool operator<=(explicit auto ref a, b);\n\r\
-bool operator>(explicit auto ref a, b);\n\r\
-bool operator>=(explicit auto ref a, b);\n\r\
-\r\n\
-int hash_value(explicit auto ref x);\r\n\
-\r\n\
-int __pcomp(void ref(int) a, void ref(int) b);\r\n\
-int __pncomp(void ref(int) a, void ref(int) b);\r\n\
-\r\n\
-int __acomp(auto[] a, b);\r\n\
-int __ancomp(auto[] a, b);\r\n\
-\r\n\
-int __typeCount();\r\n\
-\r\n\
-auto[] ref operator=(explicit auto[] ref l, explicit auto ref r);\r\n\
-auto ref __aaassignrev(auto ref l, auto[] ref r);\r\n\
-auto ref operator[](explicit auto[] ref l, int index);\r\n\
-\r\n\
-int isStackPointer(auto ref x);\r\n\
-\r\n\
-// list comprehension helper functions\r\n\
-void auto_array_impl(auto[] ref arr, typeid type, int count);\r\n\
-auto[] auto_array(typeid type, int count)\r\n\
-{\r\n\
-	auto[] res;\r\n\
-	auto_array_impl(&res, type, count);\r\n\
-	return res;\r\n\
-}\r\n\
-typedef auto[] auto_array;\r\n\
-// function will set auto[] element to the specified one, with data reallocation if neccessary\r\n\
-void auto_array:set(auto ref x, int pos);\r\n\
-void __force_size(auto[] ref s, int size);\r\n\
-\r\n\
-int isCoroutineReset(auto ref f);\r\n\
-void __assertCoroutine(auto ref f);\r\n\
-auto ref[] __getFinalizeList();\r\n\
-class __FinalizeProxy{ void finalize(){} }\r\n\
-void	__finalizeObjects()\r\n\
-{\r\n\
-	auto l = __getFinalizeList();\r\n\
-	for(i in l)\r\n\
-		i.finalize();\r\n\
-}\r\n\
-bool operator in(generic x, typeof(x)[] arr)\r\n\
-{\r\n\
-	for(i in arr)\r\n\
-		if(i == x)\r\n\
-			return true;\r\n\
-	return false;\r\n\
-}\r\n\
-bool is_derived_from(auto ref derived, typeid base);\r\n\
-void ref __assert_derived_from(void ref derived, typeid base);\r\n\
-auto __gen_list(@T ref() y)\r\n\
-{\r\n\
-	auto[] res = auto_array(T, 1);\r\n\
-	int pos = 0;\r\n\
-	for(T x in y)\r\n\
-		res.set(&x, pos++);\r\n\
-	__force_size(&res, pos);\r\n\
-	\r\n\
-	T[] r = res;\r\n\
-	return r;\r\n\
-}\r\n\
-void __init_array(@T[] arr)\r\n\
-{\r\n\
-	for(int i = 0; i < arr.size; i++)\r\n\
-	{\r\n\
-		@if(T.isArray)\r\n\
-			__init_array(arr[i]);\r\n\
-		else\r\n\
-			arr[i].T();\r\n\
-	}\r\n\
-}\r\n\
-void __closeUpvalue(void ref ref l, void ref v, int offset, int size);";
-
-bool BuildBaseModule(Allocator *allocator, int optimizationLevel)
-{
-	const char *errorPos = NULL;
-	char errorBuf[256];
-
-	if(!BuildModuleFromSource(allocator, "$base$.nc", NULL, nullcBaseCode, unsigned(strlen(nullcBaseCode)), &errorPos, errorBuf, 256, optimizationLevel, ArrayView<InplaceStr>(), NULL))
-	{
-		assert(!"Failed to compile base NULLC module");
-		return false;
-	}
-
-#ifndef NULLC_NO_EXECUTOR
-#define nullcBindModuleFunctionHelperNoMemWrite(moduleName, func, name, index) nullcBindModuleFunctionHelper(moduleName, func, name, index); nullcSetModuleFunctionAttribute(moduleName, name, index, NULLC_ATTRIBUTE_NO_MEMORY_WRITE, 1);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Assert, "assert", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Assert2, "assert", 1);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrEqual, "==", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrNEqual, "!=", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::StrConcatenate, "+", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::StrConcatenateAndSet, "+=", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Int, "bool", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Char, "char", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Short, "short", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Int, "int", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Long, "long", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Float, "float", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Double, "double", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::UnsignedValueChar, "as_unsigned", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::UnsignedValueShort, "as_unsigned", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::UnsignedValueInt, "as_unsigned", 2);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToShort, "short", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::ShortToStr, "short::str", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToInt, "int", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::IntToStr, "int::str", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToLong, "long", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::LongToStr, "long::str", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToFloat, "float", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::FloatToStr, "float::str", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToDouble, "double", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::DoubleToStr, "double::str", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AllocObject, "__newS", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AllocArray, "__newA", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::CopyObject, "duplicate", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::CopyArray, "__duplicate_array", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::ReplaceObject, "replace", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::SwapObjects, "swap", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::CompareObjects, "equal", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::AssignObject, "assign", 0);
-
-	nullcBindModuleFunctionHelper("$base$", NULLC::ArrayCopy, "array_copy", 0);
-
-	nullcBindModuleFunctionHelper("$base$", NULLC::FunctionRedirect, "__redirect", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::FunctionRedirectPtr, "__redirect_ptr", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Typeid, "typeid", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypeSize, "typeid::size$", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypesEqual, "==", 1);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypesNEqual, "!=", 1);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefCompare, "__rcomp", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefNCompare, "__rncomp", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefLCompare, "<", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefLECompare, "<=", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefGCompare, ">", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefGECompare, ">=", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefHash, "hash_value", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::FuncCompare, "__pcomp", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::FuncNCompare, "__pncomp", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::ArrayCompare, "__acomp", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::ArrayNCompare, "__ancomp", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypeCount, "__typeCount", 0);
-
-	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArrayAssign, "=", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArrayAssignRev, "__aaassignrev", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArrayIndex, "[]", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", GC::IsPointerUnmanaged, "isStackPointer", 0);
-
-	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArray, "auto_array_impl", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArraySet, "auto[]::set", 0);
-	nullcBindModuleFunctionHelper("$base$", NULLC::ShrinkAutoArray, "__force_size", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::IsCoroutineReset, "isCoroutineReset", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AssertCoroutine, "__assertCoroutine", 0);
-
-	nullcBindModuleFunctionHelper("$base$", NULLC::GetFinalizationList, "__getFinalizeList", 0);
-
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::IsDerivedFrom, "is_derived_from", 0);
-	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AssertDerivedFrom, "__assert_derived_from", 0);
-
-	nullcBindModuleFunctionHelper("$base$", NULLC::CloseUpvalue, "__closeUpvalue", 0);
-
-#undef nullcBindModuleFunctionHelperNoMemAccess
-#endif
-
-	return true;
-}
-
-unsigned GetErrorLocationLineNumber(const char *codeStart, const char *errorPos)
-{
-	if(!codeStart)
-		return 0;
-
-	if(!errorPos)
-		return 0;
-
-	int line = 1;
-	for(const char *pos = codeStart; pos < errorPos; pos++)
-		line += *pos == '\n';
-
-	return line;
-}
-
-void AddErrorLocationInfo(const char *codeStart, const char *errorPos, char *errorBuf, unsigned errorBufSize)
-{
-	if(!errorBuf || !errorBufSize)
-		return;
-
-	char *errorCurr = errorBuf + strlen(errorBuf);
-
-	if(!codeStart || !errorPos)
-	{
-		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "\n");
-		return;
-	}
-
-	const char *codeEnd = codeStart + strlen(codeStart);
-
-	if(errorPos < codeStart || errorPos > codeEnd)
-	{
-		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "\n");
-		return;
-	}
-
-	const char *start = errorPos;
-	const char *end = start == codeEnd ? start : start + 1;
-
-	while(start > codeStart && *(start - 1) != '\r' && *(start - 1) != '\n')
-		start--;
-
-	while(*end && *end != '\r' && *end != '\n')
-		end++;
-
-	if(errorBufSize > unsigned(errorCurr - errorBuf))
-		*(errorCurr++) = '\n';
-
-	char *errorCurrBefore = errorCurr;
-
-	if(unsigned line = GetErrorLocationLineNumber(codeStart, errorPos))
-		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "  at line %d: '", line);
-	else
-		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "  at '");
-
-	unsigned spacing = unsigned(errorCurr - errorCurrBefore);
-
-	for(const char *pos = start; *pos && pos < end; pos++)
-	{
-		if(errorBufSize > unsigned(errorCurr - errorBuf))
-			*(errorCurr++) = *pos == '\t' ? ' ' : *pos;
-	}
-
-	errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "'\n");
-
-	for(unsigned i = 0; i < spacing + unsigned(errorPos - start); i++)
-	{
-		if(errorBufSize > unsigned(errorCurr - errorBuf))
-			*(errorCurr++) = ' ';
-	}
-
-	errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "^\n");
-
-	errorBuf[errorBufSize - 1] = '\0';
-}
-
-bool HasSourceCode(ByteCode *bytecode, const char *position)
-{
-	char *code = FindSource(bytecode);
-	unsigned length = bytecode->sourceSize;
-
-	if(position >= code && position <= code + length)
-		return true;
-
-	return false;
-}
-
-ModuleData* FindModuleWithSourceLocation(ExpressionContext &ctx, const char *position)
-{
-	for(unsigned i = 0; i < ctx.imports.size(); i++)
-	{
-		if(HasSourceCode(ctx.imports[i]->bytecode, position))
-			return ctx.imports[i];
-	}
-
-	return NULL;
-}
-
-InplaceStr FindModuleNameWithSourceLocation(ExpressionContext &ctx, const char *position)
-{
-	if(ModuleData *moduleData = FindModuleWithSourceLocation(ctx, position))
-		return moduleData->name;
-
-	return InplaceStr();
-}
-
-const char* FindModuleCodeWithSourceLocation(ExpressionContext &ctx, const char *position)
-{
-	if(position >= ctx.code && position <= ctx.code + strlen(ctx.code))
-		return ctx.code;
-
-	for(unsigned i = 0; i < ctx.imports.size(); i++)
-	{
-		if(HasSourceCode(ctx.imports[i]->bytecode, position))
-			return FindSource(ctx.imports[i]->bytecode);
-	}
-
-	return NULL;
-}
-
-ExprModule* AnalyzeModuleFromSource(CompilerContext &ctx)
-{
-	TRACE_SCOPE("compiler", "AnalyzeModuleFromSource");
-
-	ParseContext &parseCtx = ctx.parseCtx;
-
-	parseCtx.bytecodeBuilder = BuildModuleFromPath;
-
-	parseCtx.errorBuf = ctx.errorBuf;
-	parseCtx.errorBufSize = ctx.errorBufSize;
-
-	ctx.synModule = Parse(parseCtx, ctx.code, ctx.moduleRoot);
-
-	ctx.statistics.Add(ctx.parseCtx.statistics);
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	if(ctx.enableLogFiles && ctx.synModule)
-	{
-		TRACE_SCOPE("compiler", "Debug::syntax_graph");
-
-		assert(!ctx.outputCtx.stream);
-		ctx.outputCtx.stream = ctx.outputCtx.openStream("syntax_graph.txt");
-		
-		if(ctx.outputCtx.stream)
-		{
-			ParseGraphContext parseGraphCtx(ctx.outputCtx);
-
-			PrintGraph(parseGraphCtx, ctx.synModule, "");
-
-			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-			ctx.outputCtx.stream = NULL;
-		}
-	}
-
-	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
-
-	if(!ctx.synModule)
-	{
-		if(parseCtx.errorPos)
-			ctx.errorPos = parseCtx.errorPos;
-
-		return NULL;
-	}
-
-	//printf("# Parse memory %dkb\n", ctx.allocator->requested() / 1024);
-
-	ExpressionContext &exprCtx = ctx.exprCtx;
-
-	exprCtx.memoryLimit = ctx.exprMemoryLimit;
-
-	exprCtx.errorBuf = ctx.errorBuf;
-	exprCtx.errorBufSize = ctx.errorBufSize;
-
-	if(parseCtx.errorPos)
-	{
-		unsigned errorLength = unsigned(strlen(exprCtx.errorBuf));
-
-		exprCtx.errorBuf += errorLength;
-		exprCtx.errorBufSize -= errorLength;
-	}
-
-	ctx.exprModule = Analyze(exprCtx, ctx.synModule, ctx.code, ctx.moduleRoot);
-
-	ctx.statistics.Add(ctx.exprCtx.statistics);
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	if(ctx.enableLogFiles && ctx.exprModule)
-	{
-		TRACE_SCOPE("compiler", "Debug::expr_graph");
-
-		assert(!ctx.outputCtx.stream);
-		ctx.outputCtx.stream = ctx.outputCtx.openStream("expr_graph.txt");
-
-		if(ctx.outputCtx.stream)
-		{
-			ExpressionGraphContext exprGraphCtx(ctx.exprCtx, ctx.outputCtx);
-
-			PrintGraph(exprGraphCtx, ctx.exprModule, "");
-
-			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-			ctx.outputCtx.stream = NULL;
-		}
-	}
-
-	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
-
-	if(!ctx.exprModule || exprCtx.errorCount != 0 || parseCtx.errorCount != 0)
-	{
-		if(parseCtx.errorPos)
-			ctx.errorPos = parseCtx.errorPos;
-		else if(exprCtx.errorPos)
-			ctx.errorPos = exprCtx.errorPos;
-
-		return NULL;
-	}
-
-	//printf("# Compile memory %dkb\n", ctx.allocator->requested() / 1024);
-
-	return ctx.exprModule;
-}
-
-void OptimizeModule(CompilerContext &ctx)
-{
-	ExpressionContext &exprCtx = ctx.exprCtx;
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	for(VmFunction *function = ctx.vmModule->functions.head; function; function = function->next)
-	{
-		if(!function->firstBlock)
-			continue;
-
-		// Dead code elimination is required for correct register allocation
-		if(ctx.optimizationLevel == 0)
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-
-		if(ctx.optimizationLevel >= 1)
-		{
-			TRACE_SCOPE("compiler", "OptimizationLevel1");
-
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_PEEPHOLE);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONSTANT_PROPAGATION);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONTROL_FLOW_SIPLIFICATION);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_LOAD_STORE_PROPAGATION);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_ARRAY_TO_ELEMENTS);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-		}
-
-		RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_LEGALIZE_ARRAY_VALUES);
-
-		if(ctx.optimizationLevel >= 2)
-		{
-			TRACE_SCOPE("compiler", "OptimizationLevel2");
-
-			for(unsigned i = 0; i < 6; i++)
-			{
-				TRACE_SCOPE("compiler", "iteration");
-
-				unsigned before = ctx.vmModule->peepholeOptimizations + ctx.vmModule->constantPropagations + ctx.vmModule->deadCodeEliminations + ctx.vmModule->controlFlowSimplifications + ctx.vmModule->loadStorePropagations + ctx.vmModule->commonSubexprEliminations + ctx.vmModule->deadAllocaStoreEliminations;
-
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONSTANT_PROPAGATION);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_LOAD_STORE_PROPAGATION);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_COMMON_SUBEXPRESSION_ELIMINATION);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_PEEPHOLE);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONTROL_FLOW_SIPLIFICATION);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_ALLOCA_STORE_ELIMINATION);
-
-				unsigned after = ctx.vmModule->peepholeOptimizations + ctx.vmModule->constantPropagations + ctx.vmModule->deadCodeEliminations + ctx.vmModule->controlFlowSimplifications + ctx.vmModule->loadStorePropagations + ctx.vmModule->commonSubexprEliminations + ctx.vmModule->deadAllocaStoreEliminations;
-
-				// Reached fixed point
-				if(before == after)
-					break;
-			}
-
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_MEMORY_TO_REGISTER);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_LATE_PEEPHOLE);
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
-
-			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_ALLOCA_STORE_ELIMINATION);
-		}
-	}
-
-	ctx.statistics.Finish("IrOptimization", NULLCTime::clockMicro());
-}
-
-bool CompileModuleFromSource(CompilerContext &ctx)
-{
-	TRACE_SCOPE("compiler", "CompileModuleFromSource");
-
-	if(!AnalyzeModuleFromSource(ctx))
-		return false;
-
-	ExpressionContext &exprCtx = ctx.exprCtx;
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	ctx.vmModule = CompileVm(exprCtx, ctx.exprModule, ctx.code);
-
-	ctx.statistics.Finish("IrCodeGen", NULLCTime::clockMicro());
-
-	if(!ctx.vmModule)
-	{
-		ctx.errorPos = NULL;
-
-		if(ctx.errorBuf && ctx.errorBufSize)
-			NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: internal compiler error: failed to create VmModule");
-
-		return false;
-	}
-
-	//printf("# Instruction memory %dkb\n", pool.GetSize() / 1024);
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	if(ctx.enableLogFiles)
-	{
-		TRACE_SCOPE("compiler", "Debug::inst_graph");
-
-		assert(!ctx.outputCtx.stream);
-		ctx.outputCtx.stream = ctx.outputCtx.openStream("inst_graph.txt");
-
-		if(ctx.outputCtx.stream)
-		{
-			InstructionVMGraphContext instGraphCtx(ctx.outputCtx);
-
-			instGraphCtx.showUsers = true;
-			instGraphCtx.displayAsTree = false;
-			instGraphCtx.showFullTypes = false;
-			instGraphCtx.showSource = true;
-
-			PrintGraph(instGraphCtx, ctx.vmModule);
-
-			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-			ctx.outputCtx.stream = NULL;
-		}
-	}
-
-	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	// Build LLVM module is support is enabled or just to test execution paths in debug build
-#if defined(NULLC_LLVM_SUPPORT)
-	ctx.llvmModule = CompileLlvm(exprCtx, ctx.exprModule);
-#elif !defined(NDEBUG)
-	ctx.llvmModule = CompileLlvm(exprCtx, ctx.exprModule);
-#endif
-
-	ctx.statistics.Finish("LlvmCodeGen", NULLCTime::clockMicro());
-
-	OptimizeModule(ctx);
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_UPDATE_LIVE_SETS);
-
-	if(ctx.optimizationLevel >= 2)
-		RunVmPass(exprCtx, ctx.vmModule, VM_PASS_PREPARE_SSA_EXIT);
-
-	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_LEGALIZE_BITCASTS);
-	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_LEGALIZE_EXTRACTS);
-
-	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_CREATE_ALLOCA_STORAGE);
-
-	ctx.statistics.Finish("IrFinalization", NULLCTime::clockMicro());
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	if(ctx.enableLogFiles)
-	{
-		TRACE_SCOPE("compiler", "Debug::inst_graph_opt");
-
-		assert(!ctx.outputCtx.stream);
-		ctx.outputCtx.stream = ctx.outputCtx.openStream("inst_graph_opt.txt");
-
-		if(ctx.outputCtx.stream)
-		{
-			InstructionVMGraphContext instGraphCtx(ctx.outputCtx);
-
-			instGraphCtx.showUsers = true;
-			instGraphCtx.displayAsTree = false;
-			instGraphCtx.showFullTypes = false;
-			instGraphCtx.showSource = true;
-
-			PrintGraph(instGraphCtx, ctx.vmModule);
-
-			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-			ctx.outputCtx.stream = NULL;
-		}
-	}
-
-	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	ctx.regVmLoweredModule = RegVmLowerModule(exprCtx, ctx.vmModule);
-
-	if(!ctx.regVmLoweredModule->functions.empty() && ctx.regVmLoweredModule->functions.back()->hasRegisterOverflow)
-	{
-		RegVmLoweredFunction *function = ctx.regVmLoweredModule->functions.back();
-
-		if(function->registerOverflowLocation && function->registerOverflowLocation->source)
-			ctx.errorPos = function->registerOverflowLocation->source->begin->pos;
-		else
-			ctx.errorPos = NULL;
-
-		if(ctx.errorBuf && ctx.errorBufSize)
-		{
-			NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: internal compiler error: register count overflow");
-
-			if(ctx.errorPos)
-				AddErrorLocationInfo(FindModuleCodeWithSourceLocation(ctx.exprCtx, ctx.errorPos), ctx.errorPos, ctx.errorBuf, ctx.errorBufSize);
-		}
-
-		return false;
-	}
-
-	RegVmFinalizeModule(ctx.instRegVmFinalizeCtx, ctx.regVmLoweredModule);
-
-	ctx.statistics.Finish("IrLowering", NULLCTime::clockMicro());
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	if(ctx.enableLogFiles)
-	{
-		TRACE_SCOPE("compiler", "Debug::inst_graph_reg_low");
-
-		assert(!ctx.outputCtx.stream);
-		ctx.outputCtx.stream = ctx.outputCtx.openStream("inst_graph_reg_low.txt");
-
-		if(ctx.outputCtx.stream)
-		{
-			InstructionRegVmLowerGraphContext instRegVmLowerGraphCtx(ctx.outputCtx);
-
-			instRegVmLowerGraphCtx.showSource = true;
-
-			PrintGraph(instRegVmLowerGraphCtx, ctx.regVmLoweredModule);
-
-			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-			ctx.outputCtx.stream = NULL;
-		}
-	}
-
-	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
-
-	return true;
-}
-
-unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
-{
-	TRACE_SCOPE("compiler", "GetBytecode");
-
-	// find out the size of generated bytecode
-	unsigned size = sizeof(ByteCode);
-
-	size += ctx.exprCtx.types.size() * sizeof(ExternTypeInfo);
-
-	unsigned symbolStorageSize = 0;
-	unsigned allMemberCount = 0, allConstantCount = 0;
-	unsigned typedefCount = 0;
-
-	for(unsigned i = 0; i < ctx.exprCtx.types.size(); i++)
-	{
-		TypeBase *type = ctx.exprCtx.types[i];
-
-		type->typeIndex = i;
-
-		symbolStorageSize += type->name.length() + 1;
-
-		if(isType<TypeUnsizedArray>(type))
-			continue;
-
-		else if(TypeClass *typeClass = getType<TypeClass>(type))
-		{
-			for(MatchData *curr = typeClass->generics.head; curr; curr = curr->next)
-			{
-				typedefCount++;
-
-				symbolStorageSize += curr->name->name.length() + 1;
-			}
-
-			for(MatchData *curr = typeClass->aliases.head; curr; curr = curr->next)
-			{
-				typedefCount++;
-
-				symbolStorageSize += curr->name->name.length() + 1;
-			}
-
-			for(MemberHandle *curr = typeClass->members.head; curr; curr = curr->next)
-			{
-				if(curr->variable->type->hasPointers)
-					allMemberCount++;
-
-				if(*curr->variable->name->name.begin == '$')
-					continue;
-
-				allMemberCount++;
-
-				symbolStorageSize += curr->variable->name->name.length() + 1;
-			}
-
-			for(ConstantData *curr = typeClass->constants.head; curr; curr = curr->next)
-			{
-				allConstantCount++;
-
-				symbolStorageSize += curr->name->name.length() + 1;
-			}
-		}
-		else if(TypeStruct *typeStruct = getType<TypeStruct>(type))
-		{
-			for(MemberHandle *curr = typeStruct->members.head; curr; curr = curr->next)
-			{
-				if(curr->variable->type->hasPointers)
-					allMemberCount++;
-
-				if(*curr->variable->name->name.begin == '$')
-					continue;
-
-				allMemberCount++;
-
-				symbolStorageSize += curr->variable->name->name.length() + 1;
-			}
-
-			for(ConstantData *curr = typeStruct->constants.head; curr; curr = curr->next)
-			{
-				allConstantCount++;
-
-				symbolStorageSize += curr->name->name.length() + 1;
-			}
-		}
-		else if(TypeFunction *typeFunction = getType<TypeFunction>(type))
-		{
-			allMemberCount += typeFunction->arguments.size() + 1;
-		}
-		else if(TypeGenericClass *typeGenericClass = getType<TypeGenericClass>(type))
-		{
-			for(TypeHandle *curr = typeGenericClass->generics.head; curr; curr = curr->next)
-			{
-				typedefCount++;
-
-				symbolStorageSize += 1;
-			}
-		}
-	}
-
-	size += allMemberCount * sizeof(ExternMemberInfo);
-
-	unsigned offsetToConstants = size;
-	size += allConstantCount * sizeof(ExternConstantInfo);
-
-	unsigned offsetToModule = size;
-	size += ctx.exprCtx.imports.size() * sizeof(ExternModuleInfo);
-
-	for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
-	{
-		ModuleData *module = ctx.exprCtx.imports[i];
-
-		symbolStorageSize += module->name.length() + 1;
-	}
-
-	unsigned offsetToVar = size;
-	unsigned globalVarCount = 0, exportVarCount = 0;
-	unsigned externVariableInfoCount = 0;
-
-	for(unsigned i = 0; i < ctx.exprCtx.variables.size(); i++)
-	{
-		VariableData *variable = ctx.exprCtx.variables[i];
-
-		if(variable->importModule != NULL)
-			continue;
-
-		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
-			continue;
-
-		externVariableInfoCount++;
-
-		globalVarCount++;
-
-		if(variable->scope == ctx.exprCtx.globalScope || variable->scope->ownerNamespace)
-			exportVarCount++;
-
-		symbolStorageSize += variable->name->name.length() + 1;
-	}
-
-	for(unsigned i = 0; i < ctx.exprCtx.functions.size(); i++)
-	{
-		FunctionData *function = ctx.exprCtx.functions[i];
-
-		if(function->importModule != NULL)
-			continue;
-
-		for(MatchData *curr = function->generics.head; curr; curr = curr->next)
-		{
-			externVariableInfoCount++;
-
-			symbolStorageSize += curr->name->name.length() + 1;
-		}
-	}
-
-	size += externVariableInfoCount * sizeof(ExternVarInfo);
-
-	unsigned offsetToFunc = size;
-
-	unsigned localCount = 0;
-
-	unsigned exportedFunctionCount = 0;
-
-	for(unsigned i = 0; i < ctx.exprCtx.functions.size(); i++)
-	{
-		FunctionData *function = ctx.exprCtx.functions[i];
-
-		if(function->importModule != NULL)
-			continue;
-
-		exportedFunctionCount++;
-
-		symbolStorageSize += function->name->name.length() + 1;
-
-		localCount += function->arguments.size();
-
-		for(unsigned i = 0; i < function->arguments.size(); i++)
-		{
-			ArgumentData argument = function->arguments[i];
-
-			symbolStorageSize += argument.name->name.length() + 1;
-		}
-
-		if(VariableData *variable = function->contextArgument)
-		{
-			localCount++;
-
-			symbolStorageSize += variable->name->name.length() + 1;
-		}
-
-		if (!ctx.exprCtx.IsGenericFunction(function))
-		{
-			for(unsigned i = 0; i < function->functionScope->allVariables.size(); i++)
-			{
-				VariableData *variable = function->functionScope->allVariables[i];
-
-				VariableHandle *argumentVariable = NULL;
-
-				for(VariableHandle *curr = function->argumentVariables.head; curr; curr = curr->next)
-				{
-					if(curr->variable == variable)
-					{
-						argumentVariable = curr;
-						break;
-					}
-				}
-
-				if(argumentVariable || variable == function->contextArgument)
-					continue;
-
-				if(variable->isAlloca && variable->users.empty())
-					continue;
-
-				if(variable->lookupOnly)
-					continue;
-
-				localCount++;
-
-				symbolStorageSize += variable->name->name.length() + 1;
-			}
-		}
-
-		localCount += function->upvalues.size();
-
-		for(unsigned i = 0; i < function->upvalues.size(); i++)
-		{
-			UpvalueData *upvalue = function->upvalues[i];
-
-			symbolStorageSize += upvalue->variable->name->name.length() + 1;
-		}
-	}
-
-	size += exportedFunctionCount * sizeof(ExternFuncInfo);
-
-	unsigned offsetToFirstLocal = size;
-
-	size += localCount * sizeof(ExternLocalInfo);
-
-	for(unsigned i = 0; i < ctx.exprCtx.globalScope->aliases.size(); i++)
-	{
-		AliasData *alias = ctx.exprCtx.globalScope->aliases[i];
-
-		typedefCount++;
-
-		symbolStorageSize += alias->name->name.length() + 1;
-	}
-
-	unsigned offsetToTypedef = size;
-	size += typedefCount * sizeof(ExternTypedefInfo);
-
-	for(unsigned i = 0; i < ctx.exprCtx.namespaces.size(); i++)
-	{
-		NamespaceData *nameSpace = ctx.exprCtx.namespaces[i];
-
-		symbolStorageSize += nameSpace->name.name.length() + 1;
-	}
-
-	unsigned offsetToNamespace = size;
-	size += ctx.exprCtx.namespaces.size() * sizeof(ExternNamespaceInfo);
-
-	unsigned offsetToRegVmCode = size;
-	size += ctx.instRegVmFinalizeCtx.cmds.size() * sizeof(RegVmCmd);
-
-	unsigned sourceLength = (unsigned)strlen(ctx.code) + 1;
-
-	unsigned regVmInfoCount = 0;
-
-	for(unsigned i = 0; i < ctx.instRegVmFinalizeCtx.locations.size(); i++)
-	{
-		SynBase *location = ctx.instRegVmFinalizeCtx.locations[i];
-
-		if(location && !location->isInternal)
-			regVmInfoCount++;
-	}
-
-	unsigned offsetToRegVmInfo = size;
-	size += sizeof(ExternSourceInfo) * regVmInfoCount;
-
-	unsigned offsetToRegVmConstants = size;
-	size += ctx.instRegVmFinalizeCtx.constants.size() * sizeof(ctx.instRegVmFinalizeCtx.constants[0]);
-
-	unsigned offsetToRegVmRegKillInfo = size;
-	size += ctx.instRegVmFinalizeCtx.regKillInfo.size() * sizeof(ctx.instRegVmFinalizeCtx.regKillInfo[0]);
-
-	unsigned offsetToSymbols = size;
-	size += symbolStorageSize;
-
-	unsigned offsetToSource = size;
-	size += sourceLength;
-
-	unsigned int offsetToLLVM = size;
-	size += ctx.llvmModule ? ctx.llvmModule->moduleSize : 0;
-
-#ifdef VERBOSE_DEBUG_OUTPUT
-	printf("Statistics. Overall: %d bytes\r\n", size);
-	printf("Types: %db, ", offsetToModule - sizeof(ByteCode));
-	printf("Modules: %db, ", offsetToVar - offsetToModule);
-	printf("Variables: %db, ", offsetToFunc - offsetToVar);
-	printf("Functions: %db\r\n", offsetToFirstLocal - offsetToFunc);
-	printf("Locals: %db, ", offsetToCode - offsetToFirstLocal);
-	printf("Code: %db, ", offsetToInfo - offsetToCode);
-	printf("Code info: %db, ", offsetToSymbols - offsetToInfo);
-	printf("Symbols: %db, ", offsetToSource - offsetToSymbols);
-	printf("Source: %db\r\n\r\n", size - offsetToSource);
-#endif
-
-	*bytecode = new char[size];
-	memset(*bytecode, 0, size);
-
-	ByteCode *code = (ByteCode*)(*bytecode);
-	code->size = size;
-
-	code->typeCount = (unsigned)ctx.exprCtx.types.size();
-
-	code->dependsCount = ctx.exprCtx.imports.size();
-	code->offsetToFirstModule = offsetToModule;
-
-	code->globalVarSize = (unsigned)ctx.exprCtx.globalScope->dataSize;
-	// Make sure modules that are linked together will not break global variable alignment
-	code->globalVarSize = (code->globalVarSize + 0xf) & ~0xf;
-
-	code->variableCount = globalVarCount;
-	code->variableExportCount = exportVarCount;
-	code->offsetToFirstVar = offsetToVar;
-
-	code->functionCount = ctx.exprCtx.functions.size();
-	code->moduleFunctionCount = ctx.exprCtx.functions.size() - exportedFunctionCount;
-	code->offsetToFirstFunc = offsetToFunc;
-
-	code->localCount = localCount;
-	code->offsetToLocals = offsetToFirstLocal;
-
-	code->closureListCount = 0;
-
-	code->regVmCodeSize = ctx.instRegVmFinalizeCtx.cmds.size();
-	code->regVmOffsetToCode = offsetToRegVmCode;
-
-	code->regVmConstantCount = ctx.instRegVmFinalizeCtx.constants.size();
-	code->regVmOffsetToConstants = offsetToRegVmConstants;
-
-	code->regVmRegKillInfoCount = ctx.instRegVmFinalizeCtx.regKillInfo.size();
-	code->regVmOffsetToRegKillInfo = offsetToRegVmRegKillInfo;
-
-	code->symbolLength = symbolStorageSize;
-	code->offsetToSymbols = offsetToSymbols;
-
-	code->constantCount = allConstantCount;
-	code->offsetToConstants = offsetToConstants;
-
-	code->namespaceCount = ctx.exprCtx.namespaces.size();
-	code->offsetToNamespaces = offsetToNamespace;
-
-	VectorView<char> debugSymbols(FindSymbols(code), symbolStorageSize);
-
-	VectorView<ExternTypeInfo> tInfo(FindFirstType(code), code->typeCount);
-	VectorView<ExternMemberInfo> memberList(FindFirstMember(code), allMemberCount);
-	VectorView<ExternConstantInfo> constantList(FindFirstConstant(code), allConstantCount);
-
-	for(unsigned i = 0; i < ctx.exprCtx.types.size(); i++)
-	{
-		TypeBase *type = ctx.exprCtx.types[i];
-
-		ExternTypeInfo &target = tInfo.push_back();
-
-		target.offsetToName = debugSymbols.count;
-		debugSymbols.push_back(type->name.begin, type->name.length());
-		debugSymbols.push_back(0);
-
-		target.nameHash = type->nameHash;
-
-		target.size = (unsigned)type->size;
-		target.defaultAlign = (unsigned char)type->alignment;
-		target.padding = type->padding;
-
-		target.constantOffset = 0;
-		target.constantCount = 0;
-
-		target.memberCount = 0;
-		target.memberOffset = 0;
-
-		target.pointerCount = type->hasPointers ? 1 : 0;
-
-		if(ModuleData *moduleData = type->importModule)
-		{
-			for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
-			{
-				if(ctx.exprCtx.imports[i]->name == moduleData->name)
-				{
-					target.definitionModule = i + 1;
-					break;
-				}
-			}
-		}
-		else
-		{
-			target.definitionModule = 0;
-		}
-
-		target.definitionLocationStart = 0;
-		target.definitionLocationEnd = 0;
-		target.definitionLocationName = 0;
-
-		Lexeme *sourceStreamStart = type->importModule ? type->importModule->lexStream : ctx.parseCtx.lexer.GetStreamStart();
-		unsigned sourceStreamSize = type->importModule ? type->importModule->lexStreamSize : ctx.parseCtx.lexer.GetStreamSize();
-
-		if(TypeClass *typeClass = getType<TypeClass>(type))
-		{
-			if(typeClass->source->begin >= sourceStreamStart && typeClass->source->begin < sourceStreamStart + sourceStreamSize)
-			{
-				target.definitionLocationStart = unsigned(typeClass->source->begin - sourceStreamStart);
-				target.definitionLocationEnd = unsigned(typeClass->source->end - sourceStreamStart);
-
-				assert(target.definitionLocationStart < sourceStreamSize);
-				assert(target.definitionLocationEnd < sourceStreamSize);
-
-				if(typeClass->identifier.begin)
-				{
-					target.definitionLocationName = unsigned(typeClass->identifier.begin - sourceStreamStart);
-					assert(target.definitionLocationName < sourceStreamSize);
-				}
-			}
-		}
-		else if(TypeEnum *typeEnum = getType<TypeEnum>(type))
-		{
-			if(typeEnum->source->begin >= sourceStreamStart && typeEnum->source->begin < sourceStreamStart + sourceStreamSize)
-			{
-				target.definitionLocationStart = unsigned(typeEnum->source->begin - sourceStreamStart);
-				target.definitionLocationEnd = unsigned(typeEnum->source->end - sourceStreamStart);
-
-				assert(target.definitionLocationStart < sourceStreamSize);
-				assert(target.definitionLocationEnd < sourceStreamSize);
-
-				if(typeEnum->identifier.begin)
-				{
-					target.definitionLocationName = unsigned(typeEnum->identifier.begin - sourceStreamStart);
-					assert(target.definitionLocationName < sourceStreamSize);
-				}
-			}
-		}
-		else if(TypeGenericClassProto *typeGenericClassProto = getType<TypeGenericClassProto>(type))
-		{
-			if(typeGenericClassProto->source->begin >= sourceStreamStart && typeGenericClassProto->source->begin < sourceStreamStart + sourceStreamSize)
-			{
-				target.definitionLocationStart = unsigned(typeGenericClassProto->source->begin - sourceStreamStart);
-				target.definitionLocationEnd = unsigned(typeGenericClassProto->source->end - sourceStreamStart);
-
-				assert(target.definitionLocationStart < sourceStreamSize);
-				assert(target.definitionLocationEnd < sourceStreamSize);
-
-				if(typeGenericClassProto->identifier.begin)
-				{
-					target.definitionLocationName = unsigned(typeGenericClassProto->identifier.begin - sourceStreamStart);
-					assert(target.definitionLocationName < sourceStreamSize);
-				}
-			}
-		}
-
-		target.definitionOffsetStart = ~0u;
-		target.definitionOffset = ~0u;
-		target.genericTypeCount = 0;
-
-		target.typeFlags = 0;
-
-		if(type->isGeneric)
-			target.typeFlags |= ExternTypeInfo::TYPE_DEPENDS_ON_GENERIC;
-
-		target.namespaceHash = ~0u;
-
-		if(TypeFunction *typeFunction = getType<TypeFunction>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_COMPLEX;
-
-			target.subCat = ExternTypeInfo::CAT_FUNCTION;
-			target.memberCount = typeFunction->arguments.size();
-			target.memberOffset = memberList.count;
-
-			ExternMemberInfo &member = memberList.push_back();
-
-			member.type = typeFunction->returnType->typeIndex;
-			member.alignment = 0;
-			member.offset = 0;
-
-			for(TypeHandle *curr = typeFunction->arguments.head; curr; curr = curr->next)
-			{
-				ExternMemberInfo &member = memberList.push_back();
-
-				member.type = curr->type->typeIndex;
-				member.alignment = 0;
-				member.offset = 0;
-			}
-		}
-		else if(TypeArray *typeArray = getType<TypeArray>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_COMPLEX;
-
-			target.subCat = ExternTypeInfo::CAT_ARRAY;
-			target.arrSize = (unsigned)typeArray->length;
-			target.subType = typeArray->subType->typeIndex;
-		}
-		else if(TypeUnsizedArray *typeUnsizedArray = getType<TypeUnsizedArray>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_COMPLEX;
-
-			target.subCat = ExternTypeInfo::CAT_ARRAY;
-			target.arrSize = ~0u;
-			target.subType = typeUnsizedArray->subType->typeIndex;
-		}
-		else if(TypeRef *typeRef = getType<TypeRef>(type))
-		{
-			target.type = sizeof(void*) == 4 ? ExternTypeInfo::TYPE_INT : ExternTypeInfo::TYPE_LONG;
-
-			target.subCat = ExternTypeInfo::CAT_POINTER;
-			target.subType = typeRef->subType->typeIndex;
-		}
-		else if(TypeStruct *typeStruct = getType<TypeStruct>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_COMPLEX;
-
-			if(TypeEnum *typeEnum = getType<TypeEnum>(type))
-			{
-				target.type = ExternTypeInfo::TYPE_INT;
-
-				if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(typeEnum->scope))
-					target.namespaceHash = scope->ownerNamespace->fullNameHash;
-			}
-			else if(TypeClass *typeClass = getType<TypeClass>(type))
-			{
-				if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(typeClass->scope))
-					target.namespaceHash = scope->ownerNamespace->fullNameHash;
-
-				if(typeClass->extendable)
-					target.typeFlags |= ExternTypeInfo::TYPE_IS_EXTENDABLE;
-
-				if(typeClass->hasFinalizer)
-					target.typeFlags |= ExternTypeInfo::TYPE_HAS_FINALIZER;
-
-				if(typeClass->isInternal)
-					target.typeFlags |= ExternTypeInfo::TYPE_IS_INTERNAL;
-
-				if(typeClass->completed)
-					target.typeFlags |= ExternTypeInfo::TYPE_IS_COMPLETED;
-
-				if(typeClass->baseClass)
-					target.baseType = typeClass->baseClass->typeIndex;
-
-				if(!typeClass->generics.empty())
-				{
-					target.definitionOffset = 0x80000000 | typeClass->proto->typeIndex;
-
-					target.genericTypeCount = typeClass->generics.size();
-				}
-			}
-
-			target.subCat = ExternTypeInfo::CAT_CLASS;
-
-			target.memberCount = 0;
-			target.memberOffset = memberList.count;
-
-			for(MemberHandle *curr = typeStruct->members.head; curr; curr = curr->next)
-			{
-				if(*curr->variable->name->name.begin == '$')
-					continue;
-
-				target.memberCount++;
-
-				ExternMemberInfo &member = memberList.push_back();
-
-				member.type = curr->variable->type->typeIndex;
-				member.alignment = curr->variable->alignment;
-				member.offset = curr->variable->offset;
-
-				debugSymbols.push_back(curr->variable->name->name.begin, curr->variable->name->name.length());
-				debugSymbols.push_back(0);
-			}
-
-			target.constantCount = 0;
-			target.constantOffset = constantList.count;
-
-			for(ConstantData *curr = typeStruct->constants.head; curr; curr = curr->next)
-			{
-				target.constantCount++;
-
-				ExternConstantInfo &constant = constantList.push_back();
-
-				constant.type = curr->value->type->typeIndex;
-
-				if(ExprBoolLiteral *node = getType<ExprBoolLiteral>(curr->value))
-				{
-					constant.value = node->value;
-				}
-				else if(ExprIntegerLiteral *node = getType<ExprIntegerLiteral>(curr->value))
-				{
-					constant.value = node->value;
-				}
-				else if(ExprRationalLiteral *node = getType<ExprRationalLiteral>(curr->value))
-				{
-					memcpy(&constant.value, &node->value, sizeof(node->value));
-				}
-
-				debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
-				debugSymbols.push_back(0);
-			}
-
-			// Export type pointer members for GC
-			target.pointerCount = 0;
-
-			for(MemberHandle *curr = typeStruct->members.head; curr; curr = curr->next)
-			{
-				if(curr->variable->type->hasPointers)
-				{
-					target.pointerCount++;
-
-					ExternMemberInfo &member = memberList.push_back();
-
-					member.type = curr->variable->type->typeIndex;
-					member.alignment = curr->variable->alignment;
-					member.offset = curr->variable->offset;
-				}
-			}
-		}
-		else if(TypeGenericClassProto *typeGenericClassProto = getType<TypeGenericClassProto>(type))
-		{
-			if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(typeGenericClassProto->scope))
-				target.namespaceHash = scope->ownerNamespace->fullNameHash;
-
-			target.type = ExternTypeInfo::TYPE_COMPLEX;
-
-			target.subCat = ExternTypeInfo::CAT_CLASS;
-
-			if(ModuleData *moduleData = typeGenericClassProto->importModule)
-			{
-				target.definitionOffsetStart = unsigned(typeGenericClassProto->definition->begin - moduleData->lexStream);
-				assert(target.definitionOffsetStart < moduleData->lexStreamSize);
-			}
-			else
-			{
-				target.definitionOffsetStart = unsigned(typeGenericClassProto->definition->begin - ctx.parseCtx.lexer.GetStreamStart());
-				assert(target.definitionOffsetStart < ctx.parseCtx.lexer.GetStreamSize());
-			}
-
-			target.definitionOffset = ~0u;
-		}
-		else if(TypeGenericClass *typeGenericClass = getType<TypeGenericClass>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_COMPLEX;
-
-			target.subCat = ExternTypeInfo::CAT_CLASS;
-
-			target.definitionOffset = 0x80000000 | typeGenericClass->proto->typeIndex;
-
-			target.genericTypeCount = typeGenericClass->generics.size();
-		}
-		else if(isType<TypeVoid>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_VOID;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeBool>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_CHAR;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeChar>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_CHAR;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeShort>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_SHORT;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeInt>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_INT;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeLong>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_LONG;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeFloat>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_FLOAT;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else if(isType<TypeDouble>(type))
-		{
-			target.type = ExternTypeInfo::TYPE_DOUBLE;
-
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-		else
-		{
-			target.subCat = ExternTypeInfo::CAT_NONE;
-		}
-	}
-
-	VectorView<ExternModuleInfo> mInfo(FindFirstModule(code), ctx.exprCtx.imports.size());
-
-	for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
-	{
-		ModuleData *moduleData = ctx.exprCtx.imports[i];
-
-		ExternModuleInfo &moduleInfo = mInfo.push_back();
-
-		moduleInfo.nameOffset = debugSymbols.count;
-		debugSymbols.push_back(moduleData->name.begin, moduleData->name.length());
-		debugSymbols.push_back(0);
-
-		moduleInfo.funcStart = moduleData->startingFunctionIndex;
-		moduleInfo.funcCount = moduleData->moduleFunctionCount;
-
-		moduleInfo.variableOffset = 0;
-		moduleInfo.nameHash = ~0u;
-	}
-
-	VectorView<ExternVarInfo> vInfo(FindFirstVar(code), externVariableInfoCount);
-
-	// Handle visible global variables first
-	for(unsigned i = 0; i < ctx.exprCtx.variables.size(); i++)
-	{
-		VariableData *variable = ctx.exprCtx.variables[i];
-
-		if(variable->importModule != NULL)
-			continue;
-
-		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
-			continue;
-
-		if(variable->scope != ctx.exprCtx.globalScope && !variable->scope->ownerNamespace)
-			continue;
-
-		ExternVarInfo &varInfo = vInfo.push_back();
-
-		varInfo.offsetToName = debugSymbols.count;
-		debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
-		debugSymbols.push_back(0);
-
-		varInfo.nameHash = variable->nameHash;
-
-		varInfo.type = variable->type->typeIndex;
-		varInfo.offset = variable->offset;
-	}
-
-	for(unsigned i = 0; i < ctx.exprCtx.variables.size(); i++)
-	{
-		VariableData *variable = ctx.exprCtx.variables[i];
-
-		if(variable->importModule != NULL)
-			continue;
-
-		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
-			continue;
-
-		if(variable->scope == ctx.exprCtx.globalScope || variable->scope->ownerNamespace)
-			continue;
-
-		ExternVarInfo &varInfo = vInfo.push_back();
-
-		varInfo.offsetToName = debugSymbols.count;
-		debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
-		debugSymbols.push_back(0);
-
-		varInfo.nameHash = variable->nameHash;
-
-		varInfo.type = variable->type->typeIndex;
-		varInfo.offset = variable->offset;
-	}
-
-	VectorView<ExternFuncInfo> fInfo(FindFirstFunc(code), exportedFunctionCount);
-	VectorView<ExternLocalInfo> localInfo(FindFirstLocal(code), localCount);
-
-	for(unsigned i = 0; i < ctx.exprCtx.functions.size(); i++)
-	{
-		FunctionData *function = ctx.exprCtx.functions[i];
-
-		if(function->importModule != NULL)
-			continue;
-
-		ExternFuncInfo &funcInfo = fInfo.push_back();
-
-		if(function->isPrototype && function->implementation)
-		{
-			funcInfo.regVmAddress = function->implementation->vmFunction->regVmAddress;
-			funcInfo.regVmCodeSize = function->implementation->functionIndex | 0x80000000;
-			funcInfo.regVmRegisters = function->implementation->vmFunction->regVmRegisters;
-		}
-		else if(function->isPrototype)
-		{
-			funcInfo.regVmAddress = 0;
-			funcInfo.regVmCodeSize = 0;
-			funcInfo.regVmRegisters = 0;
-		}
-		else if(function->vmFunction)
-		{
-			funcInfo.regVmAddress = function->vmFunction->regVmAddress;
-			funcInfo.regVmCodeSize = function->vmFunction->regVmCodeSize;
-			funcInfo.regVmRegisters = function->vmFunction->regVmRegisters;
-		}
-		else
-		{
-			funcInfo.regVmAddress = ~0u;
-			funcInfo.regVmCodeSize = 0;
-			funcInfo.regVmRegisters = 0;
-		}
-
-		funcInfo.funcPtrRaw = NULL;
-		funcInfo.funcPtrWrapTarget = NULL;
-		funcInfo.funcPtrWrap = NULL;
-
-		funcInfo.builtinIndex = 0;
-		funcInfo.attributes = function->attributes;
-
-		// Only functions in global or namespace scope remain visible
-		funcInfo.isVisible = (function->scope == ctx.exprCtx.globalScope || function->scope->ownerNamespace) && !function->isHidden;
-
-		funcInfo.nameHash = function->nameHash;
-
-		if(ModuleData *moduleData = function->importModule)
-		{
-			for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
-			{
-				if(ctx.exprCtx.imports[i]->name == moduleData->name)
-				{
-					funcInfo.definitionModule = i + 1;
-					break;
-				}
-			}
-		}
-		else
-		{
-			funcInfo.definitionModule = 0;
-		}
-
-		funcInfo.definitionLocationStart = 0;
-		funcInfo.definitionLocationEnd = 0;
-		funcInfo.definitionLocationName = 0;
-
-		Lexeme *sourceStreamStart = function->importModule ? function->importModule->lexStream : ctx.parseCtx.lexer.GetStreamStart();
-		unsigned sourceStreamSize = function->importModule ? function->importModule->lexStreamSize : ctx.parseCtx.lexer.GetStreamSize();
-
-		if(function->source->begin >= sourceStreamStart && function->source->begin < sourceStreamStart + sourceStreamSize)
-		{
-			funcInfo.definitionLocationStart = unsigned(function->source->begin - sourceStreamStart);
-			funcInfo.definitionLocationEnd = unsigned(function->source->end - sourceStreamStart);
-
-			assert(funcInfo.definitionLocationStart < sourceStreamSize);
-			assert(funcInfo.definitionLocationEnd < sourceStreamSize);
-
-			if(function->name->begin)
-			{
-				funcInfo.definitionLocationName = unsigned(function->name->begin - sourceStreamStart);
-				assert(funcInfo.definitionLocationName < sourceStreamSize);
-			}
-		}
-
-		if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(function->scope))
-			funcInfo.namespaceHash = scope->ownerNamespace->fullNameHash;
-		else
-			funcInfo.namespaceHash = ~0u;
-
-		funcInfo.funcCat = ExternFuncInfo::NORMAL;
-
-		if(function->scope->ownerType)
-			funcInfo.funcCat = ExternFuncInfo::THISCALL;
-		else if(function->coroutine)
-			funcInfo.funcCat = ExternFuncInfo::COROUTINE;
-		else if(!funcInfo.isVisible)
-			funcInfo.funcCat = ExternFuncInfo::LOCAL;
-
-		funcInfo.isGenericInstance = ctx.exprCtx.IsGenericInstance(function);
-
-		funcInfo.isOperator = function->isOperator;
-
-		funcInfo.funcType = function->type->typeIndex;
-
-		if(function->scope->ownerType)
-			funcInfo.parentType = function->scope->ownerType->typeIndex;
-		else
-			funcInfo.parentType = ~0u;
-
-		funcInfo.contextType = function->contextType ? function->contextType->typeIndex : ~0u;
-
-		funcInfo.offsetToFirstLocal = localInfo.count;
-		funcInfo.paramCount = function->arguments.size();
-
-		bool isGenericFunction = ctx.exprCtx.IsGenericFunction(function);
-
-		if(!isGenericFunction)
-		{
-			TypeBase *returnType = function->type->returnType;
-
-			funcInfo.retType = ExternFuncInfo::RETURN_UNKNOWN;
-
-			if(returnType == ctx.exprCtx.typeFloat || returnType == ctx.exprCtx.typeDouble)
-				funcInfo.retType = ExternFuncInfo::RETURN_DOUBLE;
-#if defined(__linux) && !defined(_M_X64)
-			else if(returnType == ctx.exprCtx.typeVoid)
-				funcInfo.retType = ExternFuncInfo::RETURN_VOID;
-#else
-			else if(returnType == ctx.exprCtx.typeVoid || returnType->size == 0)
-				funcInfo.retType = ExternFuncInfo::RETURN_VOID;
-#endif
-#if defined(__linux)
-			else if(returnType == ctx.exprCtx.typeBool || returnType == ctx.exprCtx.typeChar || returnType == ctx.exprCtx.typeShort || returnType == ctx.exprCtx.typeInt || (sizeof(void*) == 4 && isType<TypeRef>(returnType)))
-				funcInfo.retType = ExternFuncInfo::RETURN_INT;
-			else if(returnType == ctx.exprCtx.typeLong || (sizeof(void*) == 8 && isType<TypeRef>(returnType)))
-				funcInfo.retType = ExternFuncInfo::RETURN_LONG;
-#else
-			else if(returnType == ctx.exprCtx.typeInt || returnType->size <= 4)
-				funcInfo.retType = ExternFuncInfo::RETURN_INT;
-			else if(returnType == ctx.exprCtx.typeLong || returnType->size == 8)
-				funcInfo.retType = ExternFuncInfo::RETURN_LONG;
-#endif
-
-			funcInfo.returnShift = (unsigned char)(returnType->size / 4);
-
-			funcInfo.returnSize = funcInfo.returnShift * 4;
-
-			if(funcInfo.retType == ExternFuncInfo::RETURN_VOID)
-				funcInfo.returnSize = 0;
-			else if(funcInfo.retType == ExternFuncInfo::RETURN_INT)
-				funcInfo.returnSize = 4;
-			else if(funcInfo.retType == ExternFuncInfo::RETURN_DOUBLE)
-				funcInfo.returnSize = 8;
-			else if(funcInfo.retType == ExternFuncInfo::RETURN_LONG)
-				funcInfo.returnSize = 8;
-
-			funcInfo.argumentSize = (unsigned)function->argumentsSize;
-			funcInfo.stackSize = (unsigned)function->stackSize;
-
-			funcInfo.genericOffsetStart = ~0u;
-			funcInfo.genericOffset = ~0u;
-			funcInfo.genericReturnType = 0;
-		}
-		else
-		{
-			TypeBase *returnType = function->type->returnType;
-
-			funcInfo.regVmAddress = ~0u;
-
-			funcInfo.retType = ExternFuncInfo::RETURN_VOID;
-
-			if(ModuleData *moduleData = function->importModule)
-			{
-				funcInfo.genericOffsetStart = unsigned(function->declaration->source->begin - moduleData->lexStream);
-				assert(funcInfo.genericOffsetStart < moduleData->lexStreamSize);
-			}
-			else
-			{
-				funcInfo.genericOffsetStart = unsigned(function->declaration->source->begin - ctx.parseCtx.lexer.GetStreamStart());
-				assert(funcInfo.genericOffsetStart < ctx.parseCtx.lexer.GetStreamSize());
-			}
-
-			funcInfo.genericOffset = ~0u;
-			funcInfo.genericReturnType = returnType->typeIndex;
-		}
-
-		VariableHandle *argumentVariable = function->argumentVariables.head;
-
-		for(unsigned i = 0; i < function->arguments.size(); i++)
-		{
-			ArgumentData &argument = function->arguments[i];
-
-			ExternLocalInfo &local = localInfo.push_back();
-
-			local.paramType = ExternLocalInfo::PARAMETER;
-			local.paramFlags = (unsigned char)(argument.isExplicit ? ExternLocalInfo::IS_EXPLICIT : 0);
-
-			if(argument.valueFunction)
-				local.defaultFuncId = (unsigned short)argument.valueFunction->functionIndex;
-			else
-				local.defaultFuncId = 0xffff;
-
-			local.type = argument.type->typeIndex;
-			local.size = (unsigned)argument.type->size;
-			local.offset = !isGenericFunction ? argumentVariable->variable->offset : 0;
-			local.closeListID = 0;
-
-			local.offsetToName = debugSymbols.count;
-			debugSymbols.push_back(argument.name->name.begin, argument.name->name.length());
-			debugSymbols.push_back(0);
-
-			if (!isGenericFunction)
-				argumentVariable = argumentVariable->next;
-		}
-
-		if(VariableData *variable = function->contextArgument)
-		{
-			ExternLocalInfo &local = localInfo.push_back();
-
-			local.paramType = ExternLocalInfo::PARAMETER;
-			local.paramFlags = 0;
-			local.defaultFuncId = 0xffff;
-
-			local.type = variable->type->typeIndex;
-			local.size = (unsigned)variable->type->size;
-			local.offset = !isGenericFunction ? variable->offset : 0;
-			local.closeListID = 0;
-
-			local.offsetToName = debugSymbols.count;
-			debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
-			debugSymbols.push_back(0);
-		}
-
-		if (!isGenericFunction)
-		{
-			for(unsigned i = 0; i < function->functionScope->allVariables.size(); i++)
-			{
-				VariableData *variable = function->functionScope->allVariables[i];
-
-				VariableHandle *argumentVariable = NULL;
-
-				for(VariableHandle *curr = function->argumentVariables.head; curr; curr = curr->next)
-				{
-					if(curr->variable == variable)
-					{
-						argumentVariable = curr;
-						break;
-					}
-				}
-
-				if(argumentVariable || variable == function->contextArgument)
-					continue;
-
-				if(variable->isAlloca && variable->users.empty())
-					continue;
-
-				if(variable->lookupOnly)
-					continue;
-
-				ExternLocalInfo &local = localInfo.push_back();
-
-				local.paramType = ExternLocalInfo::LOCAL;
-				local.paramFlags = 0;
-				local.defaultFuncId = 0xffff;
-
-				local.type = variable->type->typeIndex;
-				local.size = (unsigned)variable->type->size;
-				local.offset = variable->offset;
-				local.closeListID = 0;
-
-				local.offsetToName = debugSymbols.count;
-				debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
-				debugSymbols.push_back(0);
-			}
-		}
-
-		funcInfo.localCount = localInfo.count - funcInfo.offsetToFirstLocal;
-
-		for(unsigned i = 0; i < function->upvalues.size(); i++)
-		{
-			UpvalueData *upvalue = function->upvalues[i];
-
-			ExternLocalInfo &local = localInfo.push_back();
-
-			local.paramType = ExternLocalInfo::EXTERNAL;
-			local.type = upvalue->variable->type->typeIndex;
-			local.size = (unsigned)upvalue->variable->type->size;
-			local.offset = (unsigned)upvalue->target->offset;
-
-			local.offsetToName = debugSymbols.count;
-			debugSymbols.push_back(upvalue->variable->name->name.begin, upvalue->variable->name->name.length());
-			debugSymbols.push_back(0);
-		}
-
-		funcInfo.externCount = function->upvalues.size();
-
-		funcInfo.offsetToName = debugSymbols.count;
-		debugSymbols.push_back(function->name->name.begin, function->name->name.length());
-		debugSymbols.push_back(0);
-
-		for(MatchData *curr = function->generics.head; curr; curr = curr->next)
-		{
-			funcInfo.explicitTypeCount++;
-
-			ExternVarInfo &varInfo = vInfo.push_back();
-
-			varInfo.offsetToName = debugSymbols.count;
-			debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
-			debugSymbols.push_back(0);
-
-			varInfo.nameHash = curr->name->name.hash();
-
-			varInfo.type = curr->type->typeIndex;
-			varInfo.offset = 0;
-		}
-	}
-
-	code->regVmOffsetToInfo = offsetToRegVmInfo;
-	code->regVmInfoSize = regVmInfoCount;
-
-	VectorView<ExternSourceInfo> regVmInfoArray(FindRegVmSourceInfo(code), regVmInfoCount);
-
-	for(unsigned i = 0; i < ctx.instRegVmFinalizeCtx.locations.size(); i++)
-	{
-		SynBase *location = ctx.instRegVmFinalizeCtx.locations[i];
-
-		if(location && !location->isInternal)
-		{
-			ExternSourceInfo info;
-
-			info.instruction = i;
-
-			if(ModuleData *importModule = ctx.exprCtx.GetSourceOwner(location->begin))
-			{
-				const char *code = FindSource(importModule->bytecode);
-
-				assert(location->pos.begin >= code && location->pos.begin < code + importModule->bytecode->sourceSize);
-
-				for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
-				{
-					if(ctx.exprCtx.imports[i]->name == importModule->name)
-					{
-						info.definitionModule = i + 1;
-						break;
-					}
-				}
-
-				info.sourceOffset = unsigned(location->begin->pos - code);
-
-				regVmInfoArray.push_back(info);
-			}
-			else
-			{
-				const char *code = ctx.code;
-
-				assert(location->pos.begin >= code && location->pos.begin < code + sourceLength);
-
-				info.definitionModule = 0;
-				info.sourceOffset = unsigned(location->begin->pos - code);
-
-				regVmInfoArray.push_back(info);
-			}
-		}
-	}
-
-	code->regVmGlobalCodeStart = ctx.vmModule->regVmGlobalCodeStart;
-
-	if(ctx.instRegVmFinalizeCtx.cmds.size())
-		memcpy(FindRegVmCode(code), ctx.instRegVmFinalizeCtx.cmds.data, ctx.instRegVmFinalizeCtx.cmds.size() * sizeof(RegVmCmd));
-
-	if(ctx.instRegVmFinalizeCtx.constants.size())
-		memcpy(FindRegVmConstants(code), ctx.instRegVmFinalizeCtx.constants.data, ctx.instRegVmFinalizeCtx.constants.size() * sizeof(ctx.instRegVmFinalizeCtx.constants[0]));
-
-	if(ctx.instRegVmFinalizeCtx.regKillInfo.size())
-		memcpy(FindRegVmRegKillInfo(code), ctx.instRegVmFinalizeCtx.regKillInfo.data, ctx.instRegVmFinalizeCtx.regKillInfo.size() * sizeof(ctx.instRegVmFinalizeCtx.regKillInfo[0]));
-
-	char *sourceCode = (char*)code + offsetToSource;
-	memcpy(sourceCode, ctx.code, sourceLength);
-
-	code->offsetToSource = offsetToSource;
-	code->sourceSize = sourceLength;
-
-	code->llvmSize = ctx.llvmModule ? ctx.llvmModule->moduleSize : 0;
-	code->llvmOffset = offsetToLLVM;
-
-	if(ctx.llvmModule)
-		memcpy(((char*)(code) + code->llvmOffset), ctx.llvmModule->moduleData, ctx.llvmModule->moduleSize);
-
-	code->typedefCount = typedefCount;
-	code->offsetToTypedef = offsetToTypedef;
-
-	ExternTypedefInfo *currAlias = FindFirstTypedef(code);
-
-	for(unsigned i = 0; i < ctx.exprCtx.globalScope->aliases.size(); i++)
-	{
-		AliasData *alias = ctx.exprCtx.globalScope->aliases[i];
-
-		currAlias->offsetToName = debugSymbols.count;
-		debugSymbols.push_back(alias->name->name.begin, alias->name->name.length());
-		debugSymbols.push_back(0);
-
-		currAlias->targetType = alias->type->typeIndex;
-		currAlias->parentType = ~0u;
-
-		currAlias++;
-	}
-
-	for(unsigned i = 0; i < ctx.exprCtx.types.size(); i++)
-	{
-		TypeBase *type = ctx.exprCtx.types[i];
-
-		if(TypeClass *typeClass = getType<TypeClass>(type))
-		{
-			for(MatchData *curr = typeClass->generics.head; curr; curr = curr->next)
-			{
-				currAlias->offsetToName = debugSymbols.count;
-				debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
-				debugSymbols.push_back(0);
-
-				currAlias->targetType = curr->type->typeIndex;
-				currAlias->parentType = type->typeIndex;
-				currAlias++;
-			}
-
-			for(MatchData *curr = typeClass->aliases.head; curr; curr = curr->next)
-			{
-				currAlias->offsetToName = debugSymbols.count;
-				debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
-				debugSymbols.push_back(0);
-
-				currAlias->targetType = curr->type->typeIndex;
-				currAlias->parentType = type->typeIndex;
-				currAlias++;
-			}
-		}
-		else if(TypeGenericClass *typeGenericClass = getType<TypeGenericClass>(type))
-		{
-			for(TypeHandle *curr = typeGenericClass->generics.head; curr; curr = curr->next)
-			{
-				currAlias->offsetToName = debugSymbols.count;
-				debugSymbols.push_back(0); // No name
-
-				currAlias->targetType = curr->type->typeIndex;
-				currAlias->parentType = type->typeIndex;
-				currAlias++;
-			}
-		}
-	}
-
-	VectorView<ExternNamespaceInfo> namespaceList(FindFirstNamespace(code), ctx.exprCtx.namespaces.size());
-
-	for(unsigned i = 0; i < ctx.exprCtx.namespaces.size(); i++)
-	{
-		NamespaceData *nameSpace = ctx.exprCtx.namespaces[i];
-
-		ExternNamespaceInfo &namespaceInfo = namespaceList.push_back();
-
-		namespaceInfo.offsetToName = debugSymbols.count;
-		debugSymbols.push_back(nameSpace->name.name.begin, nameSpace->name.name.length());
-		debugSymbols.push_back(0);
-
-		namespaceInfo.parentHash = nameSpace->parent ? nameSpace->parent->fullNameHash : ~0u;
-	}
-
-	assert(debugSymbols.count == symbolStorageSize);
-	assert(tInfo.count == code->typeCount);
-	assert(memberList.count == allMemberCount);
-	assert(constantList.count == allConstantCount);
-	assert(mInfo.count == ctx.exprCtx.imports.size());
-	assert(vInfo.count == externVariableInfoCount);
-	assert(fInfo.count == exportedFunctionCount);
-	assert(localInfo.count == localCount);
-	assert(regVmInfoArray.count == regVmInfoCount);
-	assert(namespaceList.count == ctx.exprCtx.namespaces.size());
-
-	return size;
-}
-
-bool SaveListing(CompilerContext &ctx, const char *fileName)
-{
-	TRACE_SCOPE("compiler", "SaveListing");
-
-	if(!ctx.regVmLoweredModule)
-	{
-		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: no bytecode was built");
-		return false;
-	}
-
-	assert(!ctx.outputCtx.stream);
-	ctx.outputCtx.stream = ctx.outputCtx.openStream(fileName);
-
-	if(!ctx.outputCtx.stream)
-	{
-		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: failed to open file");
-		return false;
-	}
-
-	InstructionRegVmLowerGraphContext instLowerGraphCtx(ctx.outputCtx);
-
-	instLowerGraphCtx.showSource = true;
-
-	PrintGraph(instLowerGraphCtx, ctx.regVmLoweredModule);
-
-	ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-	ctx.outputCtx.stream = NULL;
-
-	return true;
-}
-
-bool TranslateToC(CompilerContext &ctx, const char *fileName, const char *mainName, void (*addDependency)(const char *fileName))
-{
-	TRACE_SCOPE("compiler", "TranslateToC");
-
-	assert(!ctx.outputCtx.stream);
-	ctx.outputCtx.stream = ctx.outputCtx.openStream(fileName);
-
-	if(!ctx.outputCtx.stream)
-	{
-		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: failed to open file");
-		return false;
-	}
-
-	ExpressionTranslateContext exprTranslateCtx(ctx.exprCtx, ctx.outputCtx, ctx.allocator);
-
-	exprTranslateCtx.mainName = mainName;
-
-	exprTranslateCtx.errorBuf = ctx.errorBuf;
-	exprTranslateCtx.errorBufSize = ctx.errorBufSize;
-
-	SmallArray<const char*, 32> dependencies(ctx.allocator);
-
-	if(!TranslateModule(exprTranslateCtx, ctx.exprModule, dependencies))
-	{
-		ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-		ctx.outputCtx.stream = NULL;
-
-		return false;
-	}
-
-	ctx.outputCtx.closeStream(ctx.outputCtx.stream);
-	ctx.outputCtx.stream = NULL;
-
-	if(addDependency)
-	{
-		for(unsigned i = 0; i < dependencies.size(); i++)
-			addDependency(dependencies[i]);
-	}
-
-	return true;
-}
-
-char* BuildModuleFromSource(Allocator *allocator, const char *modulePath, const char *moduleRoot, const char *code, unsigned codeSize, const char **errorPos, char *errorBuf, unsigned errorBufSize, int optimizationLevel, ArrayView<InplaceStr> activeImports, CompilerStatistics *statistics)
-{
-	TRACE_SCOPE("compiler", "BuildModuleFromSource");
-	TRACE_LABEL(modulePath);
-
-	CompilerContext ctx(allocator, optimizationLevel, activeImports);
-
-	ctx.errorBuf = errorBuf;
-	ctx.errorBufSize = errorBufSize;
-
-	ctx.code = code;
-	ctx.moduleRoot = moduleRoot;
-
-	if(!CompileModuleFromSource(ctx))
-	{
-		*errorPos = ctx.errorPos;
-
-		if(errorBuf && errorBufSize)
-		{
-			unsigned currLen = (unsigned)strlen(errorBuf);
-			NULLC::SafeSprintf(errorBuf + currLen, errorBufSize - currLen, " [in module '%s']", modulePath);
-		}
-
-		return NULL;
-	}
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	char *bytecode = NULL;
-	GetBytecode(ctx, &bytecode);
-
-	ctx.statistics.Finish("Bytecode", NULLCTime::clockMicro());
-
-	ctx.statistics.Start(NULLCTime::clockMicro());
-
-	Lexer &lexer = ctx.parseCtx.lexer;
-
-	const char *newStart = FindSource((ByteCode*)bytecode);
-
-	// We have to fix lexeme positions to the code that is saved in bytecode
-	for(Lexeme *c = lexer.GetStreamStart(), *e = lexer.GetStreamStart() + lexer.GetStreamSize(); c != e; c++)
-	{
-		// Exit fix up if lexemes exited scope of the current file
-		if(c->pos < code || c->pos > (code + codeSize))
-			break;
-
-		c->pos = newStart + (c->pos - code);
-	}
-
-	BinaryCache::PutBytecode(modulePath, bytecode, lexer.GetStreamStart(), lexer.GetStreamSize());
-
-	ctx.statistics.Finish("BytecodeCache", NULLCTime::clockMicro());
-
-	if(statistics)
-		statistics->Add(ctx.statistics);
-
-	return bytecode;
-}
-
-const char* FindFileContentInImportPaths(InplaceStr moduleName, const char *moduleRoot, bool addExtension, char *resultPathBuf, unsigned resultPathBufSize, unsigned &fileSize)
-{
-	const char *fileContent = NULL;
-
-	unsigned modulePathPos = 0;
-	while(const char *modulePath = BinaryCache::EnumImportPath(modulePathPos++))
-	{
-		char *pathEnd = resultPathBuf + NULLC::SafeSprintf(resultPathBuf, resultPathBufSize, "%s%s%s%.*s", modulePath, moduleRoot ? moduleRoot : "", moduleRoot ? "/" : "", moduleName.length(), moduleName.begin);
-
-		if(addExtension)
-		{
-			char *pathNoImport = resultPathBuf + strlen(modulePath);
-
-			for(unsigned i = 0, e = (unsigned)strlen(pathNoImport); i != e; i++)
-			{
-				if(pathNoImport[i] == '.')
-					pathNoImport[i] = '/';
-			}
-
-			NULLC::SafeSprintf(pathEnd, resultPathBufSize - int(pathEnd - resultPathBuf), ".nc");
-		}
-
-		fileContent = NULLC::fileLoad(resultPathBuf, &fileSize);
-
-		if(fileContent)
-			break;
-	}
-
-	return fileContent;
-}
-
-char* BuildModuleFromPath(Allocator *allocator, InplaceStr moduleName, const char *moduleRoot, bool addExtension, const char **errorPos, char *errorBuf, unsigned errorBufSize, int optimizationLevel, ArrayView<InplaceStr> activeImports, CompilerStatistics *statistics)
-{
-	if(statistics)
-		statistics->Start(NULLCTime::clockMicro());
-
-	NULLC::TraceDump();
-
-	if(statistics)
-	{
-		statistics->Finish("Tracing", NULLCTime::clockMicro());
-		statistics->Start(NULLCTime::clockMicro());
-	}
-
-	TRACE_SCOPE("compiler", "BuildModuleFromPath");
-	TRACE_LABEL2(moduleName.begin, moduleName.end);
-
-	assert(*moduleName.end == 0);
-
-	if(addExtension)
-		assert(strstr(moduleName.begin, ".nc") == NULL);
-	else
-		assert(strstr(moduleName.begin, ".nc") != NULL);
-
-	const unsigned nextModuleRootLength = 1024;
-	char nextModuleRootBuf[nextModuleRootLength];
-
-	const char *nextModuleRoot = moduleRoot;
-
-	const unsigned pathLength = 1024;
-	char path[pathLength];
-
-	unsigned fileSize = 0;
-	const char *fileContent = NULL;
-
-	if(moduleRoot)
-	{
-		fileContent = FindFileContentInImportPaths(moduleName, moduleRoot, addExtension, path, pathLength, fileSize);
-
-		if(fileContent)
-		{
-			if(const char *pos = moduleName.rfind('/'))
-			{
-				NULLC::SafeSprintf(nextModuleRootBuf, nextModuleRootLength, "%s/%.*s", moduleRoot, unsigned(pos - moduleName.begin), moduleName.begin);
-
-				nextModuleRoot = nextModuleRootBuf;
-			}
-		}
-	}
-
-	if(!fileContent)
-	{
-		fileContent = FindFileContentInImportPaths(moduleName, NULL, addExtension, path, pathLength, fileSize);
-
-		if(fileContent)
-		{
-			if(const char *pos = moduleName.rfind('/'))
-			{
-				NULLC::SafeSprintf(nextModuleRootBuf, nextModuleRootLength, "%.*s", unsigned(pos - moduleName.begin), moduleName.begin);
-
-				nextModuleRoot = nextModuleRootBuf;
-			}
-		}
-	}
-
-	if(statistics)
-		statistics->Finish("Extra", NULLCTime::clockMicro());
-
-	if(!fileContent)
-	{
-		*errorPos = NULL;
-
-		if(errorBuf && errorBufSize)
-			NULLC::SafeSprintf(errorBuf, errorBufSize, "ERROR: module file '%.*s' could not be opened", moduleName.length(), moduleName.begin);
-
-		return NULL;
-	}
-
-	char *bytecode = BuildModuleFromSource(allocator, path, nextModuleRoot, fileContent, fileSize, errorPos, errorBuf, errorBufSize, optimizationLevel, activeImports, statistics);
-
-	NULLC::fileFree(fileContent);
-
-	return bytecode;
-}
-
-bool AddModuleFunction(Allocator *allocator, const char* module, void (*ptrRaw)(), void *funcWrap, void (*ptrWrap)(void *func, char* retBuf, char* argBuf), const char* name, int index, const char **errorPos, char *errorBuf, unsigned errorBufSize, int optimizationLevel)
-{
-	const char *bytecode = BinaryCache::FindBytecode(module, true);
-
-	// Create module if not found
-	if(!bytecode)
-		bytecode = BuildModuleFromPath(allocator, InplaceStr(module), NULL, true, errorPos, errorBuf, errorBufSize, optimizationLevel, ArrayView<InplaceStr>(), NULL);
-
-	if(!bytecode)
-		return false;
-
-	unsigned hash = NULLC::GetStringHash(name);
-	ByteCode *code = (ByteCode*)bytecode;
-
-	// Find function and set pointer
-	ExternFuncInfo *fInfo = FindFirstFunc(code);
-
-	unsigned end = code->functionCount - code->moduleFunctionCount;
-	for(unsigned i = 0; i < end; i++)
-	{
-		if(hash == fInfo->nameHash)
-		{
-			if(index == 0)
-			{
-				fInfo->regVmAddress = -1;
-
-				fInfo->funcPtrRaw = ptrRaw;
-				fInfo->funcPtrWrapTarget = funcWrap;
-				fInfo->funcPtrWrap = ptrWrap;
-
-				index--;
-				break;
-			}
-
-			index--;
-		}
-
-		fInfo++;
-	}
-
-	if(index != -1)
-	{
-		*errorPos = NULL;
-
-		NULLC::SafeSprintf(errorBuf, errorBufSize, "ERROR: function '%s' or one of it's overload is not found in module '%s'", name, module);
-
-		return false;
-	}
-
-	return true;
-}
-
-void OutputCompilerStatistics(CompilerStatistics &statistics, unsigned outerTotalMicros)
-{
-	OutputContext outputCtx;
-
-	outputCtx.stream = OutputContext::FileOpen("time_stats.txt");
-	outputCtx.writeStream = OutputContext::FileWrite;
-
-	unsigned total = statistics.Total();
-
-	for(unsigned i = 0; i < statistics.timers.size(); i++)
-	{
-		CompilerStatistics::Timer &timer = statistics.timers[i];
-
-		outputCtx.Printf("%15s %6dms (%3d%%)\n", timer.outputName.begin, timer.total / 1000, int(timer.total * 100.0 / total));
-	}
-
-	outputCtx.Printf("%15s %6dms (%6dms)\n", "total", total / 1000, outerTotalMicros / 1000);
-
-	outputCtx.Flush();
-
-	OutputContext::FileClose(outputCtx.stream);
-	outputCtx.stream = NULL;
-}
+#include "Compiler.h"
+
+#include "nullc.h"
+#include "nullbind.h"
+#include "nullc_internal.h"
+#include "BinaryCache.h"
+#include "Bytecode.h"
+#include "Executor_Common.h"
+#include "StdLib.h"
+
+const char *nullcBaseCode = "\
+void assert(int val);\r\n\
+void assert(int val, char[] message);\r\n\
+\r\n\
+int operator ==(char[] a, b);\r\n\
+int operator !=(char[] a, b);\r\n\
+char[] operator +(char[] a, b);\r\n\
+char[] operator +=(char[] ref a, char[] b);\r\n\
+\r\n\
+bool bool(bool a);\r\n\
+char char(char a);\r\n\
+short short(short a);\r\n\
+int int(int a);\r\n\
+long long(long a);\r\n\
+float float(float a);\r\n\
+double double(double a);\r\n\
+void bool:bool(bool a){ *this = a; }\r\n\
+void char:char(char a){ *this = a; }\r\n\
+void short:short(short a){ *this = a; }\r\n\
+void int:int(int a){ *this = a; }\r\n\
+void long:long(long a){ *this = a; }\r\n\
+void float:float(float a){ *this = a; }\r\n\
+void double:double(double a){ *this = a; }\r\n\
+\r\n\
+int as_unsigned(char a);\r\n\
+int as_unsigned(short a);\r\n\
+long as_unsigned(int a);\r\n\
+\r\n\
+short short(char[] str);\r\n\
+char[] short:str();\r\n\
+int int(char[] str);\r\n\
+char[] int:str();\r\n\
+long long(char[] str);\r\n\
+char[] long:str();\r\n\
+float float(char[] str);\r\n\
+char[] float:str(int precision = 6, bool showExponent = false);\r\n\
+double double(char[] str);\r\n\
+char[] double:str(int precision = 6, bool showExponent = false);\r\n\
+\r\n\
+void ref __newS(int size, int type);\r\n\
+int[] __newA(int size, int count, int type);\r\n\
+auto ref	duplicate(auto ref obj);\r\n\
+void		__duplicate_array(auto[] ref dst, auto[] src);\r\n\
+auto[]		duplicate(auto[] arr){ auto[] r; __duplicate_array(&r, arr); return r; }\r\n\
+auto ref	replace(auto ref l, r);\r\n\
+void		swap(auto ref l, r);\r\n\
+int			equal(auto ref l, r);\r\n\
+void		assign(explicit auto ref l, auto ref r);\r\n\
+void		array_copy(auto[] l, r);\r\n\
+void		array_copy(generic dst, int offsetDst, generic src, int offsetSrc, count)\r\n\
+{\r\n\
+	for({ int i = offsetDst, k = offsetSrc; }; i < offsetDst + count; {i++; k++; })\r\n\
+		dst[i] = src[k];\r\n\
+}\r\n\
+\r\n\
+void ref() __redirect(auto ref r, __function[] ref f);\r\n\
+void ref() __redirect_ptr(auto ref r, __function[] ref f);\r\n\
+// char inline array definition support\r\n\
+auto __aassign_itoc(char[] ref dst, int[] src)\r\n\
+{\r\n\
+	if(dst.size < src.size)\r\n\
+		*dst = new char[src.size];\r\n\
+	for(int i = 0; i < src.size; i++)\r\n\
+		dst[i] = src[i];\r\n\
+	return dst;\r\n\
+}\r\n\
+// short inline array definition support\r\n\
+auto __aassign_itos(short[] ref dst, int[] src)\r\n\
+{\r\n\
+	if(dst.size < src.size)\r\n\
+		*dst = new short[src.size];\r\n\
+	for(int i = 0; i < src.size; i++)\r\n\
+		dst[i] = src[i];\r\n\
+	return dst;\r\n\
+}\r\n\
+// float inline array definition support\r\n\
+auto __aassign_dtof(float[] ref dst, double[] src)\r\n\
+{\r\n\
+	if(dst.size < src.size)\r\n\
+		*dst = new float[src.size];\r\n\
+	for(int i = 0; i < src.size; i++)\r\n\
+		dst[i] = src[i];\r\n\
+	return dst;\r\n\
+}\r\n\
+// typeid retrieval from auto ref\r\n\
+typeid typeid(auto ref type);\r\n\
+int typeid.size();\r\n\
+// typeid comparison\r\n\
+int operator==(typeid a, b);\r\n\
+int operator!=(typeid a, b);\r\n\
+\r\n\
+int __rcomp(auto ref a, b);\r\n\
+int __rncomp(auto ref a, b);\r\n\
+\r\n\
+bool operator<(explicit auto ref a, b);\n\r\
+bool operator<=(explicit auto ref a, b);\n\r\
+bool operator>(explicit auto ref a, b);\n\r\
+bool operator>=(explicit auto ref a, b);\n\r\
+\r\n\
+int hash_value(explicit auto ref x);\r\n\
+\r\n\
+int __pcomp(void ref(int) a, void ref(int) b);\r\n\
+int __pncomp(void ref(int) a, void ref(int) b);\r\n\
+\r\n\
+int __acomp(auto[] a, b);\r\n\
+int __ancomp(auto[] a, b);\r\n\
+\r\n\
+int __typeCount();\r\n\
+\r\n\
+auto[] ref operator=(explicit auto[] ref l, explicit auto ref r);\r\n\
+auto ref __aaassignrev(auto ref l, auto[] ref r);\r\n\
+auto ref operator[](explicit auto[] ref l, int index);\r\n\
+\r\n\
+int isStackPointer(auto ref x);\r\n\
+\r\n\
+// list comprehension helper functions\r\n\
+void auto_array_impl(auto[] ref arr, typeid type, int count);\r\n\
+auto[] auto_array(typeid type, int count)\r\n\
+{\r\n\
+	auto[] res;\r\n\
+	auto_array_impl(&res, type, count);\r\n\
+	return res;\r\n\
+}\r\n\
+typedef auto[] auto_array;\r\n\
+// function will set auto[] element to the specified one, with data reallocation if neccessary\r\n\
+void auto_array:set(auto ref x, int pos);\r\n\
+void __force_size(auto[] ref s, int size);\r\n\
+\r\n\
+int isCoroutineReset(auto ref f);\r\n\
+void __assertCoroutine(auto ref f);\r\n\
+auto ref[] __getFinalizeList();\r\n\
+class __FinalizeProxy{ void finalize(){} }\r\n\
+void	__finalizeObjects()\r\n\
+{\r\n\
+	auto l = __getFinalizeList();\r\n\
+	for(i in l)\r\n\
+		i.finalize();\r\n\
+}\r\n\
+bool operator in(generic x, typeof(x)[] arr)\r\n\
+{\r\n\
+	for(i in arr)\r\n\
+		if(i == x)\r\n\
+			return true;\r\n\
+	return false;\r\n\
+}\r\n\
+bool is_derived_from(auto ref derived, typeid base);\r\n\
+void ref __assert_derived_from(void ref derived, typeid base);\r\n\
+auto __gen_list(@T ref() y)\r\n\
+{\r\n\
+	auto[] res = auto_array(T, 1);\r\n\
+	int pos = 0;\r\n\
+	for(T x in y)\r\n\
+		res.set(&x, pos++);\r\n\
+	__force_size(&res, pos);\r\n\
+	\r\n\
+	T[] r = res;\r\n\
+	return r;\r\n\
+}\r\n\
+void __init_array(@T[] arr)\r\n\
+{\r\n\
+	for(int i = 0; i < arr.size; i++)\r\n\
+	{\r\n\
+		@if(T.isArray)\r\n\
+			__init_array(arr[i]);\r\n\
+		else\r\n\
+			arr[i].T();\r\n\
+	}\r\n\
+}\r\n\
+void __closeUpvalue(void ref ref l, void ref v, int offset, int size);";
+
+bool BuildBaseModule(Allocator *allocator, int optimizationLevel)
+{
+	const char *errorPos = NULL;
+	char errorBuf[256];
+
+	if(!BuildModuleFromSource(allocator, "$base$.nc", NULL, nullcBaseCode, unsigned(strlen(nullcBaseCode)), &errorPos, errorBuf, 256, optimizationLevel, ArrayView<InplaceStr>(), NULL))
+	{
+		assert(!"Failed to compile base NULLC module");
+		return false;
+	}
+
+#ifndef NULLC_NO_EXECUTOR
+#define nullcBindModuleFunctionHelperNoMemWrite(moduleName, func, name, index) nullcBindModuleFunctionHelper(moduleName, func, name, index); nullcSetModuleFunctionAttribute(moduleName, name, index, NULLC_ATTRIBUTE_NO_MEMORY_WRITE, 1);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Assert, "assert", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Assert2, "assert", 1);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrEqual, "==", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrNEqual, "!=", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::StrConcatenate, "+", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::StrConcatenateAndSet, "+=", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Int, "bool", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Char, "char", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Short, "short", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Int, "int", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Long, "long", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Float, "float", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Double, "double", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::UnsignedValueChar, "as_unsigned", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::UnsignedValueShort, "as_unsigned", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::UnsignedValueInt, "as_unsigned", 2);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToShort, "short", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::ShortToStr, "short::str", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToInt, "int", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::IntToStr, "int::str", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToLong, "long", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::LongToStr, "long::str", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToFloat, "float", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::FloatToStr, "float::str", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::StrToDouble, "double", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::DoubleToStr, "double::str", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AllocObject, "__newS", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AllocArray, "__newA", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::CopyObject, "duplicate", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::CopyArray, "__duplicate_array", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::ReplaceObject, "replace", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::SwapObjects, "swap", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::CompareObjects, "equal", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::AssignObject, "assign", 0);
+
+	nullcBindModuleFunctionHelper("$base$", NULLC::ArrayCopy, "array_copy", 0);
+
+	nullcBindModuleFunctionHelper("$base$", NULLC::FunctionRedirect, "__redirect", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::FunctionRedirectPtr, "__redirect_ptr", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::Typeid, "typeid", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypeSize, "typeid::size$", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypesEqual, "==", 1);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypesNEqual, "!=", 1);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefCompare, "__rcomp", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefNCompare, "__rncomp", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefLCompare, "<", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefLECompare, "<=", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefGCompare, ">", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefGECompare, ">=", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::RefHash, "hash_value", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::FuncCompare, "__pcomp", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::FuncNCompare, "__pncomp", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::ArrayCompare, "__acomp", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::ArrayNCompare, "__ancomp", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::TypeCount, "__typeCount", 0);
+
+	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArrayAssign, "=", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArrayAssignRev, "__aaassignrev", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArrayIndex, "[]", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", GC::IsPointerUnmanaged, "isStackPointer", 0);
+
+	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArray, "auto_array_impl", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::AutoArraySet, "auto[]::set", 0);
+	nullcBindModuleFunctionHelper("$base$", NULLC::ShrinkAutoArray, "__force_size", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::IsCoroutineReset, "isCoroutineReset", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AssertCoroutine, "__assertCoroutine", 0);
+
+	nullcBindModuleFunctionHelper("$base$", NULLC::GetFinalizationList, "__getFinalizeList", 0);
+
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::IsDerivedFrom, "is_derived_from", 0);
+	nullcBindModuleFunctionHelperNoMemWrite("$base$", NULLC::AssertDerivedFrom, "__assert_derived_from", 0);
+
+	nullcBindModuleFunctionHelper("$base$", NULLC::CloseUpvalue, "__closeUpvalue", 0);
+
+#undef nullcBindModuleFunctionHelperNoMemAccess
+#endif
+
+	return true;
+}
+
+unsigned GetErrorLocationLineNumber(const char *codeStart, const char *errorPos)
+{
+	if(!codeStart)
+		return 0;
+
+	if(!errorPos)
+		return 0;
+
+	int line = 1;
+	for(const char *pos = codeStart; pos < errorPos; pos++)
+		line += *pos == '\n';
+
+	return line;
+}
+
+void AddErrorLocationInfo(const char *codeStart, const char *errorPos, char *errorBuf, unsigned errorBufSize)
+{
+	if(!errorBuf || !errorBufSize)
+		return;
+
+	char *errorCurr = errorBuf + strlen(errorBuf);
+
+	if(!codeStart || !errorPos)
+	{
+		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "\n");
+		return;
+	}
+
+	const char *codeEnd = codeStart + strlen(codeStart);
+
+	if(errorPos < codeStart || errorPos > codeEnd)
+	{
+		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "\n");
+		return;
+	}
+
+	const char *start = errorPos;
+	const char *end = start == codeEnd ? start : start + 1;
+
+	while(start > codeStart && *(start - 1) != '\r' && *(start - 1) != '\n')
+		start--;
+
+	while(*end && *end != '\r' && *end != '\n')
+		end++;
+
+	if(errorBufSize > unsigned(errorCurr - errorBuf))
+		*(errorCurr++) = '\n';
+
+	char *errorCurrBefore = errorCurr;
+
+	if(unsigned line = GetErrorLocationLineNumber(codeStart, errorPos))
+		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "  at line %d: '", line);
+	else
+		errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "  at '");
+
+	unsigned spacing = unsigned(errorCurr - errorCurrBefore);
+
+	for(const char *pos = start; *pos && pos < end; pos++)
+	{
+		if(errorBufSize > unsigned(errorCurr - errorBuf))
+			*(errorCurr++) = *pos == '\t' ? ' ' : *pos;
+	}
+
+	errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "'\n");
+
+	for(unsigned i = 0; i < spacing + unsigned(errorPos - start); i++)
+	{
+		if(errorBufSize > unsigned(errorCurr - errorBuf))
+			*(errorCurr++) = ' ';
+	}
+
+	errorCurr += NULLC::SafeSprintf(errorCurr, errorBufSize - unsigned(errorCurr - errorBuf), "^\n");
+
+	errorBuf[errorBufSize - 1] = '\0';
+}
+
+bool HasSourceCode(ByteCode *bytecode, const char *position)
+{
+	char *code = FindSource(bytecode);
+	unsigned length = bytecode->sourceSize;
+
+	if(position >= code && position <= code + length)
+		return true;
+
+	return false;
+}
+
+ModuleData* FindModuleWithSourceLocation(ExpressionContext &ctx, const char *position)
+{
+	for(unsigned i = 0; i < ctx.imports.size(); i++)
+	{
+		if(HasSourceCode(ctx.imports[i]->bytecode, position))
+			return ctx.imports[i];
+	}
+
+	return NULL;
+}
+
+InplaceStr FindModuleNameWithSourceLocation(ExpressionContext &ctx, const char *position)
+{
+	if(ModuleData *moduleData = FindModuleWithSourceLocation(ctx, position))
+		return moduleData->name;
+
+	return InplaceStr();
+}
+
+const char* FindModuleCodeWithSourceLocation(ExpressionContext &ctx, const char *position)
+{
+	if(position >= ctx.code && position <= ctx.code + strlen(ctx.code))
+		return ctx.code;
+
+	for(unsigned i = 0; i < ctx.imports.size(); i++)
+	{
+		if(HasSourceCode(ctx.imports[i]->bytecode, position))
+			return FindSource(ctx.imports[i]->bytecode);
+	}
+
+	return NULL;
+}
+
+ExprModule* AnalyzeModuleFromSource(CompilerContext &ctx)
+{
+	TRACE_SCOPE("compiler", "AnalyzeModuleFromSource");
+
+	ParseContext &parseCtx = ctx.parseCtx;
+
+	parseCtx.bytecodeBuilder = BuildModuleFromPath;
+
+	parseCtx.errorBuf = ctx.errorBuf;
+	parseCtx.errorBufSize = ctx.errorBufSize;
+
+	ctx.synModule = Parse(parseCtx, ctx.code, ctx.moduleRoot);
+
+	ctx.statistics.Add(ctx.parseCtx.statistics);
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	if(ctx.enableLogFiles && ctx.synModule)
+	{
+		TRACE_SCOPE("compiler", "Debug::syntax_graph");
+
+		assert(!ctx.outputCtx.stream);
+		ctx.outputCtx.stream = ctx.outputCtx.openStream("syntax_graph.txt");
+		
+		if(ctx.outputCtx.stream)
+		{
+			ParseGraphContext parseGraphCtx(ctx.outputCtx);
+
+			PrintGraph(parseGraphCtx, ctx.synModule, "");
+
+			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+			ctx.outputCtx.stream = NULL;
+		}
+	}
+
+	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
+
+	if(!ctx.synModule)
+	{
+		if(parseCtx.errorPos)
+			ctx.errorPos = parseCtx.errorPos;
+
+		return NULL;
+	}
+
+	//printf("# Parse memory %dkb\n", ctx.allocator->requested() / 1024);
+
+	ExpressionContext &exprCtx = ctx.exprCtx;
+
+	exprCtx.memoryLimit = ctx.exprMemoryLimit;
+
+	exprCtx.errorBuf = ctx.errorBuf;
+	exprCtx.errorBufSize = ctx.errorBufSize;
+
+	if(parseCtx.errorPos)
+	{
+		unsigned errorLength = unsigned(strlen(exprCtx.errorBuf));
+
+		exprCtx.errorBuf += errorLength;
+		exprCtx.errorBufSize -= errorLength;
+	}
+
+	ctx.exprModule = Analyze(exprCtx, ctx.synModule, ctx.code, ctx.moduleRoot);
+
+	ctx.statistics.Add(ctx.exprCtx.statistics);
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	if(ctx.enableLogFiles && ctx.exprModule)
+	{
+		TRACE_SCOPE("compiler", "Debug::expr_graph");
+
+		assert(!ctx.outputCtx.stream);
+		ctx.outputCtx.stream = ctx.outputCtx.openStream("expr_graph.txt");
+
+		if(ctx.outputCtx.stream)
+		{
+			ExpressionGraphContext exprGraphCtx(ctx.exprCtx, ctx.outputCtx);
+
+			PrintGraph(exprGraphCtx, ctx.exprModule, "");
+
+			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+			ctx.outputCtx.stream = NULL;
+		}
+	}
+
+	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
+
+	if(!ctx.exprModule || exprCtx.errorCount != 0 || parseCtx.errorCount != 0)
+	{
+		if(parseCtx.errorPos)
+			ctx.errorPos = parseCtx.errorPos;
+		else if(exprCtx.errorPos)
+			ctx.errorPos = exprCtx.errorPos;
+
+		return NULL;
+	}
+
+	//printf("# Compile memory %dkb\n", ctx.allocator->requested() / 1024);
+
+	return ctx.exprModule;
+}
+
+void OptimizeModule(CompilerContext &ctx)
+{
+	ExpressionContext &exprCtx = ctx.exprCtx;
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	for(VmFunction *function = ctx.vmModule->functions.head; function; function = function->next)
+	{
+		if(!function->firstBlock)
+			continue;
+
+		// Dead code elimination is required for correct register allocation
+		if(ctx.optimizationLevel == 0)
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+
+		if(ctx.optimizationLevel >= 1)
+		{
+			TRACE_SCOPE("compiler", "OptimizationLevel1");
+
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_PEEPHOLE);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONSTANT_PROPAGATION);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONTROL_FLOW_SIPLIFICATION);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_LOAD_STORE_PROPAGATION);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_ARRAY_TO_ELEMENTS);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+		}
+
+		RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_LEGALIZE_ARRAY_VALUES);
+
+		if(ctx.optimizationLevel >= 2)
+		{
+			TRACE_SCOPE("compiler", "OptimizationLevel2");
+
+			for(unsigned i = 0; i < 6; i++)
+			{
+				TRACE_SCOPE("compiler", "iteration");
+
+				unsigned before = ctx.vmModule->peepholeOptimizations + ctx.vmModule->constantPropagations + ctx.vmModule->deadCodeEliminations + ctx.vmModule->controlFlowSimplifications + ctx.vmModule->loadStorePropagations + ctx.vmModule->commonSubexprEliminations + ctx.vmModule->deadAllocaStoreEliminations;
+
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONSTANT_PROPAGATION);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_LOAD_STORE_PROPAGATION);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_COMMON_SUBEXPRESSION_ELIMINATION);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_PEEPHOLE);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_CONTROL_FLOW_SIPLIFICATION);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+				RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_ALLOCA_STORE_ELIMINATION);
+
+				unsigned after = ctx.vmModule->peepholeOptimizations + ctx.vmModule->constantPropagations + ctx.vmModule->deadCodeEliminations + ctx.vmModule->controlFlowSimplifications + ctx.vmModule->loadStorePropagations + ctx.vmModule->commonSubexprEliminations + ctx.vmModule->deadAllocaStoreEliminations;
+
+				// Reached fixed point
+				if(before == after)
+					break;
+			}
+
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_MEMORY_TO_REGISTER);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_LATE_PEEPHOLE);
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_CODE_ELIMINATION);
+
+			RunVmPass(exprCtx, ctx.vmModule, function, VM_PASS_OPT_DEAD_ALLOCA_STORE_ELIMINATION);
+		}
+	}
+
+	ctx.statistics.Finish("IrOptimization", NULLCTime::clockMicro());
+}
+
+bool CompileModuleFromSource(CompilerContext &ctx)
+{
+	TRACE_SCOPE("compiler", "CompileModuleFromSource");
+
+	if(!AnalyzeModuleFromSource(ctx))
+		return false;
+
+	ExpressionContext &exprCtx = ctx.exprCtx;
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	ctx.vmModule = CompileVm(exprCtx, ctx.exprModule, ctx.code);
+
+	ctx.statistics.Finish("IrCodeGen", NULLCTime::clockMicro());
+
+	if(!ctx.vmModule)
+	{
+		ctx.errorPos = NULL;
+
+		if(ctx.errorBuf && ctx.errorBufSize)
+			NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: internal compiler error: failed to create VmModule");
+
+		return false;
+	}
+
+	//printf("# Instruction memory %dkb\n", pool.GetSize() / 1024);
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	if(ctx.enableLogFiles)
+	{
+		TRACE_SCOPE("compiler", "Debug::inst_graph");
+
+		assert(!ctx.outputCtx.stream);
+		ctx.outputCtx.stream = ctx.outputCtx.openStream("inst_graph.txt");
+
+		if(ctx.outputCtx.stream)
+		{
+			InstructionVMGraphContext instGraphCtx(ctx.outputCtx);
+
+			instGraphCtx.showUsers = true;
+			instGraphCtx.displayAsTree = false;
+			instGraphCtx.showFullTypes = false;
+			instGraphCtx.showSource = true;
+
+			PrintGraph(instGraphCtx, ctx.vmModule);
+
+			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+			ctx.outputCtx.stream = NULL;
+		}
+	}
+
+	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	// Build LLVM module is support is enabled or just to test execution paths in debug build
+#if defined(NULLC_LLVM_SUPPORT)
+	ctx.llvmModule = CompileLlvm(exprCtx, ctx.exprModule);
+#elif !defined(NDEBUG)
+	ctx.llvmModule = CompileLlvm(exprCtx, ctx.exprModule);
+#endif
+
+	ctx.statistics.Finish("LlvmCodeGen", NULLCTime::clockMicro());
+
+	OptimizeModule(ctx);
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	// Legalization replaces values, so it has to be done before the live sets are computed
+	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_LEGALIZE_BITCASTS);
+	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_LEGALIZE_EXTRACTS);
+
+	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_UPDATE_LIVE_SETS);
+
+	if(ctx.optimizationLevel >= 2)
+		RunVmPass(exprCtx, ctx.vmModule, VM_PASS_PREPARE_SSA_EXIT);
+
+	RunVmPass(exprCtx, ctx.vmModule, VM_PASS_CREATE_ALLOCA_STORAGE);
+
+	ctx.statistics.Finish("IrFinalization", NULLCTime::clockMicro());
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	if(ctx.enableLogFiles)
+	{
+		TRACE_SCOPE("compiler", "Debug::inst_graph_opt");
+
+		assert(!ctx.outputCtx.stream);
+		ctx.outputCtx.stream = ctx.outputCtx.openStream("inst_graph_opt.txt");
+
+		if(ctx.outputCtx.stream)
+		{
+			InstructionVMGraphContext instGraphCtx(ctx.outputCtx);
+
+			instGraphCtx.showUsers = true;
+			instGraphCtx.displayAsTree = false;
+			instGraphCtx.showFullTypes = false;
+			instGraphCtx.showSource = true;
+
+			PrintGraph(instGraphCtx, ctx.vmModule);
+
+			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+			ctx.outputCtx.stream = NULL;
+		}
+	}
+
+	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	ctx.regVmLoweredModule = RegVmLowerModule(exprCtx, ctx.vmModule);
+
+	if(!ctx.regVmLoweredModule->functions.empty() && ctx.regVmLoweredModule->functions.back()->hasRegisterOverflow)
+	{
+		RegVmLoweredFunction *function = ctx.regVmLoweredModule->functions.back();
+
+		if(function->registerOverflowLocation && function->registerOverflowLocation->source)
+			ctx.errorPos = function->registerOverflowLocation->source->begin->pos;
+		else
+			ctx.errorPos = NULL;
+
+		if(ctx.errorBuf && ctx.errorBufSize)
+		{
+			NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: internal compiler error: register count overflow");
+
+			if(ctx.errorPos)
+				AddErrorLocationInfo(FindModuleCodeWithSourceLocation(ctx.exprCtx, ctx.errorPos), ctx.errorPos, ctx.errorBuf, ctx.errorBufSize);
+		}
+
+		return false;
+	}
+
+	RegVmFinalizeModule(ctx.instRegVmFinalizeCtx, ctx.regVmLoweredModule);
+
+	ctx.statistics.Finish("IrLowering", NULLCTime::clockMicro());
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	if(ctx.enableLogFiles)
+	{
+		TRACE_SCOPE("compiler", "Debug::inst_graph_reg_low");
+
+		assert(!ctx.outputCtx.stream);
+		ctx.outputCtx.stream = ctx.outputCtx.openStream("inst_graph_reg_low.txt");
+
+		if(ctx.outputCtx.stream)
+		{
+			InstructionRegVmLowerGraphContext instRegVmLowerGraphCtx(ctx.outputCtx);
+
+			instRegVmLowerGraphCtx.showSource = true;
+
+			PrintGraph(instRegVmLowerGraphCtx, ctx.regVmLoweredModule);
+
+			ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+			ctx.outputCtx.stream = NULL;
+		}
+	}
+
+	ctx.statistics.Finish("Logging", NULLCTime::clockMicro());
+
+	return true;
+}
+
+unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
+{
+	TRACE_SCOPE("compiler", "GetBytecode");
+
+	// find out the size of generated bytecode
+	unsigned size = sizeof(ByteCode);
+
+	size += ctx.exprCtx.types.size() * sizeof(ExternTypeInfo);
+
+	unsigned symbolStorageSize = 0;
+	unsigned allMemberCount = 0, allConstantCount = 0;
+	unsigned typedefCount = 0;
+
+	for(unsigned i = 0; i < ctx.exprCtx.types.size(); i++)
+	{
+		TypeBase *type = ctx.exprCtx.types[i];
+
+		type->typeIndex = i;
+
+		symbolStorageSize += type->name.length() + 1;
+
+		if(isType<TypeUnsizedArray>(type))
+			continue;
+
+		else if(TypeClass *typeClass = getType<TypeClass>(type))
+		{
+			for(MatchData *curr = typeClass->generics.head; curr; curr = curr->next)
+			{
+				typedefCount++;
+
+				symbolStorageSize += curr->name->name.length() + 1;
+			}
+
+			for(MatchData *curr = typeClass->aliases.head; curr; curr = curr->next)
+			{
+				typedefCount++;
+
+				symbolStorageSize += curr->name->name.length() + 1;
+			}
+
+			for(MemberHandle *curr = typeClass->members.head; curr; curr = curr->next)
+			{
+				if(curr->variable->type->hasPointers)
+					allMemberCount++;
+
+				if(*curr->variable->name->name.begin == '$')
+					continue;
+
+				allMemberCount++;
+
+				symbolStorageSize += curr->variable->name->name.length() + 1;
+			}
+
+			for(ConstantData *curr = typeClass->constants.head; curr; curr = curr->next)
+			{
+				allConstantCount++;
+
+				symbolStorageSize += curr->name->name.length() + 1;
+			}
+		}
+		else if(TypeStruct *typeStruct = getType<TypeStruct>(type))
+		{
+			for(MemberHandle *curr = typeStruct->members.head; curr; curr = curr->next)
+			{
+				if(curr->variable->type->hasPointers)
+					allMemberCount++;
+
+				if(*curr->variable->name->name.begin == '$')
+					continue;
+
+				allMemberCount++;
+
+				symbolStorageSize += curr->variable->name->name.length() + 1;
+			}
+
+			for(ConstantData *curr = typeStruct->constants.head; curr; curr = curr->next)
+			{
+				allConstantCount++;
+
+				symbolStorageSize += curr->name->name.length() + 1;
+			}
+		}
+		else if(TypeFunction *typeFunction = getType<TypeFunction>(type))
+		{
+			allMemberCount += typeFunction->arguments.size() + 1;
+		}
+		else if(TypeGenericClass *typeGenericClass = getType<TypeGenericClass>(type))
+		{
+			for(TypeHandle *curr = typeGenericClass->generics.head; curr; curr = curr->next)
+			{
+				typedefCount++;
+
+				symbolStorageSize += 1;
+			}
+		}
+	}
+
+	size += allMemberCount * sizeof(ExternMemberInfo);
+
+	unsigned offsetToConstants = size;
+	size += allConstantCount * sizeof(ExternConstantInfo);
+
+	unsigned offsetToModule = size;
+	size += ctx.exprCtx.imports.size() * sizeof(ExternModuleInfo);
+
+	for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
+	{
+		ModuleData *module = ctx.exprCtx.imports[i];
+
+		symbolStorageSize += module->name.length() + 1;
+	}
+
+	unsigned offsetToVar = size;
+	unsigned globalVarCount = 0, exportVarCount = 0;
+	unsigned externVariableInfoCount = 0;
+
+	for(unsigned i = 0; i < ctx.exprCtx.variables.size(); i++)
+	{
+		VariableData *variable = ctx.exprCtx.variables[i];
+
+		if(variable->importModule != NULL)
+			continue;
+
+		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
+			continue;
+
+		externVariableInfoCount++;
+
+		globalVarCount++;
+
+		if(variable->scope == ctx.exprCtx.globalScope || variable->scope->ownerNamespace)
+			exportVarCount++;
+
+		symbolStorageSize += variable->name->name.length() + 1;
+	}
+
+	for(unsigned i = 0; i < ctx.exprCtx.functions.size(); i++)
+	{
+		FunctionData *function = ctx.exprCtx.functions[i];
+
+		if(function->importModule != NULL)
+			continue;
+
+		for(MatchData *curr = function->generics.head; curr; curr = curr->next)
+		{
+			externVariableInfoCount++;
+
+			symbolStorageSize += curr->name->name.length() + 1;
+		}
+	}
+
+	size += externVariableInfoCount * sizeof(ExternVarInfo);
+
+	unsigned offsetToFunc = size;
+
+	unsigned localCount = 0;
+
+	unsigned exportedFunctionCount = 0;
+
+	for(unsigned i = 0; i < ctx.exprCtx.functions.size(); i++)
+	{
+		FunctionData *function = ctx.exprCtx.functions[i];
+
+		if(function->importModule != NULL)
+			continue;
+
+		exportedFunctionCount++;
+
+		symbolStorageSize += function->name->name.length() + 1;
+
+		localCount += function->arguments.size();
+
+		for(unsigned i = 0; i < function->arguments.size(); i++)
+		{
+			ArgumentData argument = function->arguments[i];
+
+			symbolStorageSize += argument.name->name.length() + 1;
+		}
+
+		if(VariableData *variable = function->contextArgument)
+		{
+			localCount++;
+
+			symbolStorageSize += variable->name->name.length() + 1;
+		}
+
+		if (!ctx.exprCtx.IsGenericFunction(function))
+		{
+			for(unsigned i = 0; i < function->functionScope->allVariables.size(); i++)
+			{
+				VariableData *variable = function->functionScope->allVariables[i];
+
+				VariableHandle *argumentVariable = NULL;
+
+				for(VariableHandle *curr = function->argumentVariables.head; curr; curr = curr->next)
+				{
+					if(curr->variable == variable)
+					{
+						argumentVariable = curr;
+						break;
+					}
+				}
+
+				if(argumentVariable || variable == function->contextArgument)
+					continue;
+
+				if(variable->isAlloca && variable->users.empty())
+					continue;
+
+				if(variable->lookupOnly)
+					continue;
+
+				localCount++;
+
+				symbolStorageSize += variable->name->name.length() + 1;
+			}
+		}
+
+		localCount += function->upvalues.size();
+
+		for(unsigned i = 0; i < function->upvalues.size(); i++)
+		{
+			UpvalueData *upvalue = function->upvalues[i];
+
+			symbolStorageSize += upvalue->variable->name->name.length() + 1;
+		}
+	}
+
+	size += exportedFunctionCount * sizeof(ExternFuncInfo);
+
+	unsigned offsetToFirstLocal = size;
+
+	size += localCount * sizeof(ExternLocalInfo);
+
+	for(unsigned i = 0; i < ctx.exprCtx.globalScope->aliases.size(); i++)
+	{
+		AliasData *alias = ctx.exprCtx.globalScope->aliases[i];
+
+		typedefCount++;
+
+		symbolStorageSize += alias->name->name.length() + 1;
+	}
+
+	unsigned offsetToTypedef = size;
+	size += typedefCount * sizeof(ExternTypedefInfo);
+
+	for(unsigned i = 0; i < ctx.exprCtx.namespaces.size(); i++)
+	{
+		NamespaceData *nameSpace = ctx.exprCtx.namespaces[i];
+
+		symbolStorageSize += nameSpace->name.name.length() + 1;
+	}
+
+	unsigned offsetToNamespace = size;
+	size += ctx.exprCtx.namespaces.size() * sizeof(ExternNamespaceInfo);
+
+	unsigned offsetToRegVmCode = size;
+	size += ctx.instRegVmFinalizeCtx.cmds.size() * sizeof(RegVmCmd);
+
+	unsigned sourceLength = (unsigned)strlen(ctx.code) + 1;
+
+	unsigned regVmInfoCount = 0;
+
+	for(unsigned i = 0; i < ctx.instRegVmFinalizeCtx.locations.size(); i++)
+	{
+		SynBase *location = ctx.instRegVmFinalizeCtx.locations[i];
+
+		if(location && !location->isInternal)
+			regVmInfoCount++;
+	}
+
+	unsigned offsetToRegVmInfo = size;
+	size += sizeof(ExternSourceInfo) * regVmInfoCount;
+
+	unsigned offsetToRegVmConstants = size;
+	size += ctx.instRegVmFinalizeCtx.constants.size() * sizeof(ctx.instRegVmFinalizeCtx.constants[0]);
+
+	unsigned offsetToRegVmRegKillInfo = size;
+	size += ctx.instRegVmFinalizeCtx.regKillInfo.size() * sizeof(ctx.instRegVmFinalizeCtx.regKillInfo[0]);
+
+	unsigned offsetToSymbols = size;
+	size += symbolStorageSize;
+
+	unsigned offsetToSource = size;
+	size += sourceLength;
+
+	unsigned int offsetToLLVM = size;
+	size += ctx.llvmModule ? ctx.llvmModule->moduleSize : 0;
+
+#ifdef VERBOSE_DEBUG_OUTPUT
+	printf("Statistics. Overall: %d bytes\r\n", size);
+	printf("Types: %db, ", offsetToModule - sizeof(ByteCode));
+	printf("Modules: %db, ", offsetToVar - offsetToModule);
+	printf("Variables: %db, ", offsetToFunc - offsetToVar);
+	printf("Functions: %db\r\n", offsetToFirstLocal - offsetToFunc);
+	printf("Locals: %db, ", offsetToCode - offsetToFirstLocal);
+	printf("Code: %db, ", offsetToInfo - offsetToCode);
+	printf("Code info: %db, ", offsetToSymbols - offsetToInfo);
+	printf("Symbols: %db, ", offsetToSource - offsetToSymbols);
+	printf("Source: %db\r\n\r\n", size - offsetToSource);
+#endif
+
+	*bytecode = new char[size];
+	memset(*bytecode, 0, size);
+
+	ByteCode *code = (ByteCode*)(*bytecode);
+	code->size = size;
+
+	code->typeCount = (unsigned)ctx.exprCtx.types.size();
+
+	code->dependsCount = ctx.exprCtx.imports.size();
+	code->offsetToFirstModule = offsetToModule;
+
+	code->globalVarSize = (unsigned)ctx.exprCtx.globalScope->dataSize;
+	// Make sure modules that are linked together will not break global variable alignment
+	code->globalVarSize = (code->globalVarSize + 0xf) & ~0xf;
+
+	code->variableCount = globalVarCount;
+	code->variableExportCount = exportVarCount;
+	code->offsetToFirstVar = offsetToVar;
+
+	code->functionCount = ctx.exprCtx.functions.size();
+	code->moduleFunctionCount = ctx.exprCtx.functions.size() - exportedFunctionCount;
+	code->offsetToFirstFunc = offsetToFunc;
+
+	code->localCount = localCount;
+	code->offsetToLocals = offsetToFirstLocal;
+
+	code->closureListCount = 0;
+
+	code->regVmCodeSize = ctx.instRegVmFinalizeCtx.cmds.size();
+	code->regVmOffsetToCode = offsetToRegVmCode;
+
+	code->regVmConstantCount = ctx.instRegVmFinalizeCtx.constants.size();
+	code->regVmOffsetToConstants = offsetToRegVmConstants;
+
+	code->regVmRegKillInfoCount = ctx.instRegVmFinalizeCtx.regKillInfo.size();
+	code->regVmOffsetToRegKillInfo = offsetToRegVmRegKillInfo;
+
+	code->symbolLength = symbolStorageSize;
+	code->offsetToSymbols = offsetToSymbols;
+
+	code->constantCount = allConstantCount;
+	code->offsetToConstants = offsetToConstants;
+
+	code->namespaceCount = ctx.exprCtx.namespaces.size();
+	code->offsetToNamespaces = offsetToNamespace;
+
+	VectorView<char> debugSymbols(FindSymbols(code), symbolStorageSize);
+
+	VectorView<ExternTypeInfo> tInfo(FindFirstType(code), code->typeCount);
+	VectorView<ExternMemberInfo> memberList(FindFirstMember(code), allMemberCount);
+	VectorView<ExternConstantInfo> constantList(FindFirstConstant(code), allConstantCount);
+
+	for(unsigned i = 0; i < ctx.exprCtx.types.size(); i++)
+	{
+		TypeBase *type = ctx.exprCtx.types[i];
+
+		ExternTypeInfo &target = tInfo.push_back();
+
+		target.offsetToName = debugSymbols.count;
+		debugSymbols.push_back(type->name.begin, type->name.length());
+		debugSymbols.push_back(0);
+
+		target.nameHash = type->nameHash;
+
+		target.size = (unsigned)type->size;
+		target.defaultAlign = (unsigned char)type->alignment;
+		target.padding = type->padding;
+
+		target.constantOffset = 0;
+		target.constantCount = 0;
+
+		target.memberCount = 0;
+		target.memberOffset = 0;
+
+		target.pointerCount = type->hasPointers ? 1 : 0;
+
+		if(ModuleData *moduleData = type->importModule)
+		{
+			for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
+			{
+				if(ctx.exprCtx.imports[i]->name == moduleData->name)
+				{
+					target.definitionModule = i + 1;
+					break;
+				}
+			}
+		}
+		else
+		{
+			target.definitionModule = 0;
+		}
+
+		target.definitionLocationStart = 0;
+		target.definitionLocationEnd = 0;
+		target.definitionLocationName = 0;
+
+		Lexeme *sourceStreamStart = type->importModule ? type->importModule->lexStream : ctx.parseCtx.lexer.GetStreamStart();
+		unsigned sourceStreamSize = type->importModule ? type->importModule->lexStreamSize : ctx.parseCtx.lexer.GetStreamSize();
+
+		if(TypeClass *typeClass = getType<TypeClass>(type))
+		{
+			if(typeClass->source->begin >= sourceStreamStart && typeClass->source->begin < sourceStreamStart + sourceStreamSize)
+			{
+				target.definitionLocationStart = unsigned(typeClass->source->begin - sourceStreamStart);
+				target.definitionLocationEnd = unsigned(typeClass->source->end - sourceStreamStart);
+
+				assert(target.definitionLocationStart < sourceStreamSize);
+				assert(target.definitionLocationEnd < sourceStreamSize);
+
+				if(typeClass->identifier.begin)
+				{
+					target.definitionLocationName = unsigned(typeClass->identifier.begin - sourceStreamStart);
+					assert(target.definitionLocationName < sourceStreamSize);
+				}
+			}
+		}
+		else if(TypeEnum *typeEnum = getType<TypeEnum>(type))
+		{
+			if(typeEnum->source->begin >= sourceStreamStart && typeEnum->source->begin < sourceStreamStart + sourceStreamSize)
+			{
+				target.definitionLocationStart = unsigned(typeEnum->source->begin - sourceStreamStart);
+				target.definitionLocationEnd = unsigned(typeEnum->source->end - sourceStreamStart);
+
+				assert(target.definitionLocationStart < sourceStreamSize);
+				assert(target.definitionLocationEnd < sourceStreamSize);
+
+				if(typeEnum->identifier.begin)
+				{
+					target.definitionLocationName = unsigned(typeEnum->identifier.begin - sourceStreamStart);
+					assert(target.definitionLocationName < sourceStreamSize);
+				}
+			}
+		}
+		else if(TypeGenericClassProto *typeGenericClassProto = getType<TypeGenericClassProto>(type))
+		{
+			if(typeGenericClassProto->source->begin >= sourceStreamStart && typeGenericClassProto->source->begin < sourceStreamStart + sourceStreamSize)
+			{
+				target.definitionLocationStart = unsigned(typeGenericClassProto->source->begin - sourceStreamStart);
+				target.definitionLocationEnd = unsigned(typeGenericClassProto->source->end - sourceStreamStart);
+
+				assert(target.definitionLocationStart < sourceStreamSize);
+				assert(target.definitionLocationEnd < sourceStreamSize);
+
+				if(typeGenericClassProto->identifier.begin)
+				{
+					target.definitionLocationName = unsigned(typeGenericClassProto->identifier.begin - sourceStreamStart);
+					assert(target.definitionLocationName < sourceStreamSize);
+				}
+			}
+		}
+
+		target.definitionOffsetStart = ~0u;
+		target.definitionOffset = ~0u;
+		target.genericTypeCount = 0;
+
+		target.typeFlags = 0;
+
+		if(type->isGeneric)
+			target.typeFlags |= ExternTypeInfo::TYPE_DEPENDS_ON_GENERIC;
+
+		target.namespaceHash = ~0u;
+
+		if(TypeFunction *typeFunction = getType<TypeFunction>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_COMPLEX;
+
+			target.subCat = ExternTypeInfo::CAT_FUNCTION;
+			target.memberCount = typeFunction->arguments.size();
+			target.memberOffset = memberList.count;
+
+			ExternMemberInfo &member = memberList.push_back();
+
+			member.type = typeFunction->returnType->typeIndex;
+			member.alignment = 0;
+			member.offset = 0;
+
+			for(TypeHandle *curr = typeFunction->arguments.head; curr; curr = curr->next)
+			{
+				ExternMemberInfo &member = memberList.push_back();
+
+				member.type = curr->type->typeIndex;
+				member.alignment = 0;
+				member.offset = 0;
+			}
+		}
+		else if(TypeArray *typeArray = getType<TypeArray>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_COMPLEX;
+
+			target.subCat = ExternTypeInfo::CAT_ARRAY;
+			target.arrSize = (unsigned)typeArray->length;
+			target.subType = typeArray->subType->typeIndex;
+		}
+		else if(TypeUnsizedArray *typeUnsizedArray = getType<TypeUnsizedArray>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_COMPLEX;
+
+			target.subCat = ExternTypeInfo::CAT_ARRAY;
+			target.arrSize = ~0u;
+			target.subType = typeUnsizedArray->subType->typeIndex;
+		}
+		else if(TypeRef *typeRef = getType<TypeRef>(type))
+		{
+			target.type = sizeof(void*) == 4 ? ExternTypeInfo::TYPE_INT : ExternTypeInfo::TYPE_LONG;
+
+			target.subCat = ExternTypeInfo::CAT_POINTER;
+			target.subType = typeRef->subType->typeIndex;
+		}
+		else if(TypeStruct *typeStruct = getType<TypeStruct>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_COMPLEX;
+
+			if(TypeEnum *typeEnum = getType<TypeEnum>(type))
+			{
+				target.type = ExternTypeInfo::TYPE_INT;
+
+				if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(typeEnum->scope))
+					target.namespaceHash = scope->ownerNamespace->fullNameHash;
+			}
+			else if(TypeClass *typeClass = getType<TypeClass>(type))
+			{
+				if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(typeClass->scope))
+					target.namespaceHash = scope->ownerNamespace->fullNameHash;
+
+				if(typeClass->extendable)
+					target.typeFlags |= ExternTypeInfo::TYPE_IS_EXTENDABLE;
+
+				if(typeClass->hasFinalizer)
+					target.typeFlags |= ExternTypeInfo::TYPE_HAS_FINALIZER;
+
+				if(typeClass->isInternal)
+					target.typeFlags |= ExternTypeInfo::TYPE_IS_INTERNAL;
+
+				if(typeClass->completed)
+					target.typeFlags |= ExternTypeInfo::TYPE_IS_COMPLETED;
+
+				if(typeClass->baseClass)
+					target.baseType = typeClass->baseClass->typeIndex;
+
+				if(!typeClass->generics.empty())
+				{
+					target.definitionOffset = 0x80000000 | typeClass->proto->typeIndex;
+
+					target.genericTypeCount = typeClass->generics.size();
+				}
+			}
+
+			target.subCat = ExternTypeInfo::CAT_CLASS;
+
+			target.memberCount = 0;
+			target.memberOffset = memberList.count;
+
+			for(MemberHandle *curr = typeStruct->members.head; curr; curr = curr->next)
+			{
+				if(*curr->variable->name->name.begin == '$')
+					continue;
+
+				target.memberCount++;
+
+				ExternMemberInfo &member = memberList.push_back();
+
+				member.type = curr->variable->type->typeIndex;
+				member.alignment = curr->variable->alignment;
+				member.offset = curr->variable->offset;
+
+				debugSymbols.push_back(curr->variable->name->name.begin, curr->variable->name->name.length());
+				debugSymbols.push_back(0);
+			}
+
+			target.constantCount = 0;
+			target.constantOffset = constantList.count;
+
+			for(ConstantData *curr = typeStruct->constants.head; curr; curr = curr->next)
+			{
+				target.constantCount++;
+
+				ExternConstantInfo &constant = constantList.push_back();
+
+				constant.type = curr->value->type->typeIndex;
+
+				if(ExprBoolLiteral *node = getType<ExprBoolLiteral>(curr->value))
+				{
+					constant.value = node->value;
+				}
+				else if(ExprIntegerLiteral *node = getType<ExprIntegerLiteral>(curr->value))
+				{
+					constant.value = node->value;
+				}
+				else if(ExprRationalLiteral *node = getType<ExprRationalLiteral>(curr->value))
+				{
+					memcpy(&constant.value, &node->value, sizeof(node->value));
+				}
+
+				debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
+				debugSymbols.push_back(0);
+			}
+
+			// Export type pointer members for GC
+			target.pointerCount = 0;
+
+			for(MemberHandle *curr = typeStruct->members.head; curr; curr = curr->next)
+			{
+				if(curr->variable->type->hasPointers)
+				{
+					target.pointerCount++;
+
+					ExternMemberInfo &member = memberList.push_back();
+
+					member.type = curr->variable->type->typeIndex;
+					member.alignment = curr->variable->alignment;
+					member.offset = curr->variable->offset;
+				}
+			}
+		}
+		else if(TypeGenericClassProto *typeGenericClassProto = getType<TypeGenericClassProto>(type))
+		{
+			if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(typeGenericClassProto->scope))
+				target.namespaceHash = scope->ownerNamespace->fullNameHash;
+
+			target.type = ExternTypeInfo::TYPE_COMPLEX;
+
+			target.subCat = ExternTypeInfo::CAT_CLASS;
+
+			if(ModuleData *moduleData = typeGenericClassProto->importModule)
+			{
+				target.definitionOffsetStart = unsigned(typeGenericClassProto->definition->begin - moduleData->lexStream);
+				assert(target.definitionOffsetStart < moduleData->lexStreamSize);
+			}
+			else
+			{
+				target.definitionOffsetStart = unsigned(typeGenericClassProto->definition->begin - ctx.parseCtx.lexer.GetStreamStart());
+				assert(target.definitionOffsetStart < ctx.parseCtx.lexer.GetStreamSize());
+			}
+
+			target.definitionOffset = ~0u;
+		}
+		else if(TypeGenericClass *typeGenericClass = getType<TypeGenericClass>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_COMPLEX;
+
+			target.subCat = ExternTypeInfo::CAT_CLASS;
+
+			target.definitionOffset = 0x80000000 | typeGenericClass->proto->typeIndex;
+
+			target.genericTypeCount = typeGenericClass->generics.size();
+		}
+		else if(isType<TypeVoid>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_VOID;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeBool>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_CHAR;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeChar>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_CHAR;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeShort>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_SHORT;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeInt>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_INT;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeLong>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_LONG;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeFloat>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_FLOAT;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else if(isType<TypeDouble>(type))
+		{
+			target.type = ExternTypeInfo::TYPE_DOUBLE;
+
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+		else
+		{
+			target.subCat = ExternTypeInfo::CAT_NONE;
+		}
+	}
+
+	VectorView<ExternModuleInfo> mInfo(FindFirstModule(code), ctx.exprCtx.imports.size());
+
+	for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
+	{
+		ModuleData *moduleData = ctx.exprCtx.imports[i];
+
+		ExternModuleInfo &moduleInfo = mInfo.push_back();
+
+		moduleInfo.nameOffset = debugSymbols.count;
+		debugSymbols.push_back(moduleData->name.begin, moduleData->name.length());
+		debugSymbols.push_back(0);
+
+		moduleInfo.funcStart = moduleData->startingFunctionIndex;
+		moduleInfo.funcCount = moduleData->moduleFunctionCount;
+
+		moduleInfo.variableOffset = 0;
+		moduleInfo.nameHash = ~0u;
+	}
+
+	VectorView<ExternVarInfo> vInfo(FindFirstVar(code), externVariableInfoCount);
+
+	// Handle visible global variables first
+	for(unsigned i = 0; i < ctx.exprCtx.variables.size(); i++)
+	{
+		VariableData *variable = ctx.exprCtx.variables[i];
+
+		if(variable->importModule != NULL)
+			continue;
+
+		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
+			continue;
+
+		if(variable->scope != ctx.exprCtx.globalScope && !variable->scope->ownerNamespace)
+			continue;
+
+		ExternVarInfo &varInfo = vInfo.push_back();
+
+		varInfo.offsetToName = debugSymbols.count;
+		debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
+		debugSymbols.push_back(0);
+
+		varInfo.nameHash = variable->nameHash;
+
+		varInfo.type = variable->type->typeIndex;
+		varInfo.offset = variable->offset;
+	}
+
+	for(unsigned i = 0; i < ctx.exprCtx.variables.size(); i++)
+	{
+		VariableData *variable = ctx.exprCtx.variables[i];
+
+		if(variable->importModule != NULL)
+			continue;
+
+		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
+			continue;
+
+		if(variable->scope == ctx.exprCtx.globalScope || variable->scope->ownerNamespace)
+			continue;
+
+		ExternVarInfo &varInfo = vInfo.push_back();
+
+		varInfo.offsetToName = debugSymbols.count;
+		debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
+		debugSymbols.push_back(0);
+
+		varInfo.nameHash = variable->nameHash;
+
+		varInfo.type = variable->type->typeIndex;
+		varInfo.offset = variable->offset;
+	}
+
+	VectorView<ExternFuncInfo> fInfo(FindFirstFunc(code), exportedFunctionCount);
+	VectorView<ExternLocalInfo> localInfo(FindFirstLocal(code), localCount);
+
+	for(unsigned i = 0; i < ctx.exprCtx.functions.size(); i++)
+	{
+		FunctionData *function = ctx.exprCtx.functions[i];
+
+		if(function->importModule != NULL)
+			continue;
+
+		ExternFuncInfo &funcInfo = fInfo.push_back();
+
+		if(function->isPrototype && function->implementation)
+		{
+			funcInfo.regVmAddress = function->implementation->vmFunction->regVmAddress;
+			funcInfo.regVmCodeSize = function->implementation->functionIndex | 0x80000000;
+			funcInfo.regVmRegisters = function->implementation->vmFunction->regVmRegisters;
+		}
+		else if(function->isPrototype)
+		{
+			funcInfo.regVmAddress = 0;
+			funcInfo.regVmCodeSize = 0;
+			funcInfo.regVmRegisters = 0;
+		}
+		else if(function->vmFunction)
+		{
+			funcInfo.regVmAddress = function->vmFunction->regVmAddress;
+			funcInfo.regVmCodeSize = function->vmFunction->regVmCodeSize;
+			funcInfo.regVmRegisters = function->vmFunction->regVmRegisters;
+		}
+		else
+		{
+			funcInfo.regVmAddress = ~0u;
+			funcInfo.regVmCodeSize = 0;
+			funcInfo.regVmRegisters = 0;
+		}
+
+		funcInfo.funcPtrRaw = NULL;
+		funcInfo.funcPtrWrapTarget = NULL;
+		funcInfo.funcPtrWrap = NULL;
+
+		funcInfo.builtinIndex = 0;
+		funcInfo.attributes = function->attributes;
+
+		// Only functions in global or namespace scope remain visible
+		funcInfo.isVisible = (function->scope == ctx.exprCtx.globalScope || function->scope->ownerNamespace) && !function->isHidden;
+
+		funcInfo.nameHash = function->nameHash;
+
+		if(ModuleData *moduleData = function->importModule)
+		{
+			for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
+			{
+				if(ctx.exprCtx.imports[i]->name == moduleData->name)
+				{
+					funcInfo.definitionModule = i + 1;
+					break;
+				}
+			}
+		}
+		else
+		{
+			funcInfo.definitionModule = 0;
+		}
+
+		funcInfo.definitionLocationStart = 0;
+		funcInfo.definitionLocationEnd = 0;
+		funcInfo.definitionLocationName = 0;
+
+		Lexeme *sourceStreamStart = function->importModule ? function->importModule->lexStream : ctx.parseCtx.lexer.GetStreamStart();
+		unsigned sourceStreamSize = function->importModule ? function->importModule->lexStreamSize : ctx.parseCtx.lexer.GetStreamSize();
+
+		if(function->source->begin >= sourceStreamStart && function->source->begin < sourceStreamStart + sourceStreamSize)
+		{
+			funcInfo.definitionLocationStart = unsigned(function->source->begin - sourceStreamStart);
+			funcInfo.definitionLocationEnd = unsigned(function->source->end - sourceStreamStart);
+
+			assert(funcInfo.definitionLocationStart < sourceStreamSize);
+			assert(funcInfo.definitionLocationEnd < sourceStreamSize);
+
+			if(function->name->begin)
+			{
+				funcInfo.definitionLocationName = unsigned(function->name->begin - sourceStreamStart);
+				assert(funcInfo.definitionLocationName < sourceStreamSize);
+			}
+		}
+
+		if(ScopeData *scope = ctx.exprCtx.NamespaceScopeFrom(function->scope))
+			funcInfo.namespaceHash = scope->ownerNamespace->fullNameHash;
+		else
+			funcInfo.namespaceHash = ~0u;
+
+		funcInfo.funcCat = ExternFuncInfo::NORMAL;
+
+		if(function->scope->ownerType)
+			funcInfo.funcCat = ExternFuncInfo::THISCALL;
+		else if(function->coroutine)
+			funcInfo.funcCat = ExternFuncInfo::COROUTINE;
+		else if(!funcInfo.isVisible)
+			funcInfo.funcCat = ExternFuncInfo::LOCAL;
+
+		funcInfo.isGenericInstance = ctx.exprCtx.IsGenericInstance(function);
+
+		funcInfo.isOperator = function->isOperator;
+
+		funcInfo.funcType = function->type->typeIndex;
+
+		if(function->scope->ownerType)
+			funcInfo.parentType = function->scope->ownerType->typeIndex;
+		else
+			funcInfo.parentType = ~0u;
+
+		funcInfo.contextType = function->contextType ? function->contextType->typeIndex : ~0u;
+
+		funcInfo.offsetToFirstLocal = localInfo.count;
+		funcInfo.paramCount = function->arguments.size();
+
+		bool isGenericFunction = ctx.exprCtx.IsGenericFunction(function);
+
+		if(!isGenericFunction)
+		{
+			TypeBase *returnType = function->type->returnType;
+
+			funcInfo.retType = ExternFuncInfo::RETURN_UNKNOWN;
+
+			if(returnType == ctx.exprCtx.typeFloat || returnType == ctx.exprCtx.typeDouble)
+				funcInfo.retType = ExternFuncInfo::RETURN_DOUBLE;
+#if defined(__linux) && !defined(_M_X64)
+			else if(returnType == ctx.exprCtx.typeVoid)
+				funcInfo.retType = ExternFuncInfo::RETURN_VOID;
+#else
+			else if(returnType == ctx.exprCtx.typeVoid || returnType->size == 0)
+				funcInfo.retType = ExternFuncInfo::RETURN_VOID;
+#endif
+#if defined(__linux)
+			else if(returnType == ctx.exprCtx.typeBool || returnType == ctx.exprCtx.typeChar || returnType == ctx.exprCtx.typeShort || returnType == ctx.exprCtx.typeInt || (sizeof(void*) == 4 && isType<TypeRef>(returnType)))
+				funcInfo.retType = ExternFuncInfo::RETURN_INT;
+			else if(returnType == ctx.exprCtx.typeLong || (sizeof(void*) == 8 && isType<TypeRef>(returnType)))
+				funcInfo.retType = ExternFuncInfo::RETURN_LONG;
+#else
+			else if(returnType == ctx.exprCtx.typeInt || returnType->size <= 4)
+				funcInfo.retType = ExternFuncInfo::RETURN_INT;
+			else if(returnType == ctx.exprCtx.typeLong || returnType->size == 8)
+				funcInfo.retType = ExternFuncInfo::RETURN_LONG;
+#endif
+
+			funcInfo.returnShift = (unsigned char)(returnType->size / 4);
+
+			funcInfo.returnSize = funcInfo.returnShift * 4;
+
+			if(funcInfo.retType == ExternFuncInfo::RETURN_VOID)
+				funcInfo.returnSize = 0;
+			else if(funcInfo.retType == ExternFuncInfo::RETURN_INT)
+				funcInfo.returnSize = 4;
+			else if(funcInfo.retType == ExternFuncInfo::RETURN_DOUBLE)
+				funcInfo.returnSize = 8;
+			else if(funcInfo.retType == ExternFuncInfo::RETURN_LONG)
+				funcInfo.returnSize = 8;
+
+			funcInfo.argumentSize = (unsigned)function->argumentsSize;
+			funcInfo.stackSize = (unsigned)function->stackSize;
+
+			funcInfo.genericOffsetStart = ~0u;
+			funcInfo.genericOffset = ~0u;
+			funcInfo.genericReturnType = 0;
+		}
+		else
+		{
+			TypeBase *returnType = function->type->returnType;
+
+			funcInfo.regVmAddress = ~0u;
+
+			funcInfo.retType = ExternFuncInfo::RETURN_VOID;
+
+			if(ModuleData *moduleData = function->importModule)
+			{
+				funcInfo.genericOffsetStart = unsigned(function->declaration->source->begin - moduleData->lexStream);
+				assert(funcInfo.genericOffsetStart < moduleData->lexStreamSize);
+			}
+			else
+			{
+				funcInfo.genericOffsetStart = unsigned(function->declaration->source->begin - ctx.parseCtx.lexer.GetStreamStart());
+				assert(funcInfo.genericOffsetStart < ctx.parseCtx.lexer.GetStreamSize());
+			}
+
+			funcInfo.genericOffset = ~0u;
+			funcInfo.genericReturnType = returnType->typeIndex;
+		}
+
+		VariableHandle *argumentVariable = function->argumentVariables.head;
+
+		for(unsigned i = 0; i < function->arguments.size(); i++)
+		{
+			ArgumentData &argument = function->arguments[i];
+
+			ExternLocalInfo &local = localInfo.push_back();
+
+			local.paramType = ExternLocalInfo::PARAMETER;
+			local.paramFlags = (unsigned char)(argument.isExplicit ? ExternLocalInfo::IS_EXPLICIT : 0);
+
+			if(argument.valueFunction)
+				local.defaultFuncId = (unsigned short)argument.valueFunction->functionIndex;
+			else
+				local.defaultFuncId = 0xffff;
+
+			local.type = argument.type->typeIndex;
+			local.size = (unsigned)argument.type->size;
+			local.offset = !isGenericFunction ? argumentVariable->variable->offset : 0;
+			local.closeListID = 0;
+
+			local.offsetToName = debugSymbols.count;
+			debugSymbols.push_back(argument.name->name.begin, argument.name->name.length());
+			debugSymbols.push_back(0);
+
+			if (!isGenericFunction)
+				argumentVariable = argumentVariable->next;
+		}
+
+		if(VariableData *variable = function->contextArgument)
+		{
+			ExternLocalInfo &local = localInfo.push_back();
+
+			local.paramType = ExternLocalInfo::PARAMETER;
+			local.paramFlags = 0;
+			local.defaultFuncId = 0xffff;
+
+			local.type = variable->type->typeIndex;
+			local.size = (unsigned)variable->type->size;
+			local.offset = !isGenericFunction ? variable->offset : 0;
+			local.closeListID = 0;
+
+			local.offsetToName = debugSymbols.count;
+			debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
+			debugSymbols.push_back(0);
+		}
+
+		if (!isGenericFunction)
+		{
+			for(unsigned i = 0; i < function->functionScope->allVariables.size(); i++)
+			{
+				VariableData *variable = function->functionScope->allVariables[i];
+
+				VariableHandle *argumentVariable = NULL;
+
+				for(VariableHandle *curr = function->argumentVariables.head; curr; curr = curr->next)
+				{
+					if(curr->variable == variable)
+					{
+						argumentVariable = curr;
+						break;
+					}
+				}
+
+				if(argumentVariable || variable == function->contextArgument)
+					continue;
+
+				if(variable->isAlloca && variable->users.empty())
+					continue;
+
+				if(variable->lookupOnly)
+					continue;
+
+				ExternLocalInfo &local = localInfo.push_back();
+
+				local.paramType = ExternLocalInfo::LOCAL;
+				local.paramFlags = 0;
+				local.defaultFuncId = 0xffff;
+
+				local.type = variable->type->typeIndex;
+				local.size = (unsigned)variable->type->size;
+				local.offset = variable->offset;
+				local.closeListID = 0;
+
+				local.offsetToName = debugSymbols.count;
+				debugSymbols.push_back(variable->name->name.begin, variable->name->name.length());
+				debugSymbols.push_back(0);
+			}
+		}
+
+		funcInfo.localCount = localInfo.count - funcInfo.offsetToFirstLocal;
+
+		for(unsigned i = 0; i < function->upvalues.size(); i++)
+		{
+			UpvalueData *upvalue = function->upvalues[i];
+
+			ExternLocalInfo &local = localInfo.push_back();
+
+			local.paramType = ExternLocalInfo::EXTERNAL;
+			local.type = upvalue->variable->type->typeIndex;
+			local.size = (unsigned)upvalue->variable->type->size;
+			local.offset = (unsigned)upvalue->target->offset;
+
+			local.offsetToName = debugSymbols.count;
+			debugSymbols.push_back(upvalue->variable->name->name.begin, upvalue->variable->name->name.length());
+			debugSymbols.push_back(0);
+		}
+
+		funcInfo.externCount = function->upvalues.size();
+
+		funcInfo.offsetToName = debugSymbols.count;
+		debugSymbols.push_back(function->name->name.begin, function->name->name.length());
+		debugSymbols.push_back(0);
+
+		for(MatchData *curr = function->generics.head; curr; curr = curr->next)
+		{
+			funcInfo.explicitTypeCount++;
+
+			ExternVarInfo &varInfo = vInfo.push_back();
+
+			varInfo.offsetToName = debugSymbols.count;
+			debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
+			debugSymbols.push_back(0);
+
+			varInfo.nameHash = curr->name->name.hash();
+
+			varInfo.type = curr->type->typeIndex;
+			varInfo.offset = 0;
+		}
+	}
+
+	code->regVmOffsetToInfo = offsetToRegVmInfo;
+	code->regVmInfoSize = regVmInfoCount;
+
+	VectorView<ExternSourceInfo> regVmInfoArray(FindRegVmSourceInfo(code), regVmInfoCount);
+
+	for(unsigned i = 0; i < ctx.instRegVmFinalizeCtx.locations.size(); i++)
+	{
+		SynBase *location = ctx.instRegVmFinalizeCtx.locations[i];
+
+		if(location && !location->isInternal)
+		{
+			ExternSourceInfo info;
+
+			info.instruction = i;
+
+			if(ModuleData *importModule = ctx.exprCtx.GetSourceOwner(location->begin))
+			{
+				const char *code = FindSource(importModule->bytecode);
+
+				assert(location->pos.begin >= code && location->pos.begin < code + importModule->bytecode->sourceSize);
+
+				for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
+				{
+					if(ctx.exprCtx.imports[i]->name == importModule->name)
+					{
+						info.definitionModule = i + 1;
+						break;
+					}
+				}
+
+				info.sourceOffset = unsigned(location->begin->pos - code);
+
+				regVmInfoArray.push_back(info);
+			}
+			else
+			{
+				const char *code = ctx.code;
+
+				assert(location->pos.begin >= code && location->pos.begin < code + sourceLength);
+
+				info.definitionModule = 0;
+				info.sourceOffset = unsigned(location->begin->pos - code);
+
+				regVmInfoArray.push_back(info);
+			}
+		}
+	}
+
+	code->regVmGlobalCodeStart = ctx.vmModule->regVmGlobalCodeStart;
+
+	if(ctx.instRegVmFinalizeCtx.cmds.size())
+		memcpy(FindRegVmCode(code), ctx.instRegVmFinalizeCtx.cmds.data, ctx.instRegVmFinalizeCtx.cmds.size() * sizeof(RegVmCmd));
+
+	if(ctx.instRegVmFinalizeCtx.constants.size())
+		memcpy(FindRegVmConstants(code), ctx.instRegVmFinalizeCtx.constants.data, ctx.instRegVmFinalizeCtx.constants.size() * sizeof(ctx.instRegVmFinalizeCtx.constants[0]));
+
+	if(ctx.instRegVmFinalizeCtx.regKillInfo.size())
+		memcpy(FindRegVmRegKillInfo(code), ctx.instRegVmFinalizeCtx.regKillInfo.data, ctx.instRegVmFinalizeCtx.regKillInfo.size() * sizeof(ctx.instRegVmFinalizeCtx.regKillInfo[0]));
+
+	char *sourceCode = (char*)code + offsetToSource;
+	memcpy(sourceCode, ctx.code, sourceLength);
+
+	code->offsetToSource = offsetToSource;
+	code->sourceSize = sourceLength;
+
+	code->llvmSize = ctx.llvmModule ? ctx.llvmModule->moduleSize : 0;
+	code->llvmOffset = offsetToLLVM;
+
+	if(ctx.llvmModule)
+		memcpy(((char*)(code) + code->llvmOffset), ctx.llvmModule->moduleData, ctx.llvmModule->moduleSize);
+
+	code->typedefCount = typedefCount;
+	code->offsetToTypedef = offsetToTypedef;
+
+	ExternTypedefInfo *currAlias = FindFirstTypedef(code);
+
+	for(unsigned i = 0; i < ctx.exprCtx.globalScope->aliases.size(); i++)
+	{
+		AliasData *alias = ctx.exprCtx.globalScope->aliases[i];
+
+		currAlias->offsetToName = debugSymbols.count;
+		debugSymbols.push_back(alias->name->name.begin, alias->name->name.length());
+		debugSymbols.push_back(0);
+
+		currAlias->targetType = alias->type->typeIndex;
+		currAlias->parentType = ~0u;
+
+		currAlias++;
+	}
+
+	for(unsigned i = 0; i < ctx.exprCtx.types.size(); i++)
+	{
+		TypeBase *type = ctx.exprCtx.types[i];
+
+		if(TypeClass *typeClass = getType<TypeClass>(type))
+		{
+			for(MatchData *curr = typeClass->generics.head; curr; curr = curr->next)
+			{
+				currAlias->offsetToName = debugSymbols.count;
+				debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
+				debugSymbols.push_back(0);
+
+				currAlias->targetType = curr->type->typeIndex;
+				currAlias->parentType = type->typeIndex;
+				currAlias++;
+			}
+
+			for(MatchData *curr = typeClass->aliases.head; curr; curr = curr->next)
+			{
+				currAlias->offsetToName = debugSymbols.count;
+				debugSymbols.push_back(curr->name->name.begin, curr->name->name.length());
+				debugSymbols.push_back(0);
+
+				currAlias->targetType = curr->type->typeIndex;
+				currAlias->parentType = type->typeIndex;
+				currAlias++;
+			}
+		}
+		else if(TypeGenericClass *typeGenericClass = getType<TypeGenericClass>(type))
+		{
+			for(TypeHandle *curr = typeGenericClass->generics.head; curr; curr = curr->next)
+			{
+				currAlias->offsetToName = debugSymbols.count;
+				debugSymbols.push_back(0); // No name
+
+				currAlias->targetType = curr->type->typeIndex;
+				currAlias->parentType = type->typeIndex;
+				currAlias++;
+			}
+		}
+	}
+
+	VectorView<ExternNamespaceInfo> namespaceList(FindFirstNamespace(code), ctx.exprCtx.namespaces.size());
+
+	for(unsigned i = 0; i < ctx.exprCtx.namespaces.size(); i++)
+	{
+		NamespaceData *nameSpace = ctx.exprCtx.namespaces[i];
+
+		ExternNamespaceInfo &namespaceInfo = namespaceList.push_back();
+
+		namespaceInfo.offsetToName = debugSymbols.count;
+		debugSymbols.push_back(nameSpace->name.name.begin, nameSpace->name.name.length());
+		debugSymbols.push_back(0);
+
+		namespaceInfo.parentHash = nameSpace->parent ? nameSpace->parent->fullNameHash : ~0u;
+	}
+
+	assert(debugSymbols.count == symbolStorageSize);
+	assert(tInfo.count == code->typeCount);
+	assert(memberList.count == allMemberCount);
+	assert(constantList.count == allConstantCount);
+	assert(mInfo.count == ctx.exprCtx.imports.size());
+	assert(vInfo.count == externVariableInfoCount);
+	assert(fInfo.count == exportedFunctionCount);
+	assert(localInfo.count == localCount);
+	assert(regVmInfoArray.count == regVmInfoCount);
+	assert(namespaceList.count == ctx.exprCtx.namespaces.size());
+
+	return size;
+}
+
+bool SaveListing(CompilerContext &ctx, const char *fileName)
+{
+	TRACE_SCOPE("compiler", "SaveListing");
+
+	if(!ctx.regVmLoweredModule)
+	{
+		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: no bytecode was built");
+		return false;
+	}
+
+	assert(!ctx.outputCtx.stream);
+	ctx.outputCtx.stream = ctx.outputCtx.openStream(fileName);
+
+	if(!ctx.outputCtx.stream)
+	{
+		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: failed to open file");
+		return false;
+	}
+
+	InstructionRegVmLowerGraphContext instLowerGraphCtx(ctx.outputCtx);
+
+	instLowerGraphCtx.showSource = true;
+
+	PrintGraph(instLowerGraphCtx, ctx.regVmLoweredModule);
+
+	ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+	ctx.outputCtx.stream = NULL;
+
+	return true;
+}
+
+bool TranslateToC(CompilerContext &ctx, const char *fileName, const char *mainName, void (*addDependency)(const char *fileName))
+{
+	TRACE_SCOPE("compiler", "TranslateToC");
+
+	assert(!ctx.outputCtx.stream);
+	ctx.outputCtx.stream = ctx.outputCtx.openStream(fileName);
+
+	if(!ctx.outputCtx.stream)
+	{
+		NULLC::SafeSprintf(ctx.errorBuf, ctx.errorBufSize, "ERROR: failed to open file");
+		return false;
+	}
+
+	ExpressionTranslateContext exprTranslateCtx(ctx.exprCtx, ctx.outputCtx, ctx.allocator);
+
+	exprTranslateCtx.mainName = mainName;
+
+	exprTranslateCtx.errorBuf = ctx.errorBuf;
+	exprTranslateCtx.errorBufSize = ctx.errorBufSize;
+
+	SmallArray<const char*, 32> dependencies(ctx.allocator);
+
+	if(!TranslateModule(exprTranslateCtx, ctx.exprModule, dependencies))
+	{
+		ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+		ctx.outputCtx.stream = NULL;
+
+		return false;
+	}
+
+	ctx.outputCtx.closeStream(ctx.outputCtx.stream);
+	ctx.outputCtx.stream = NULL;
+
+	if(addDependency)
+	{
+		for(unsigned i = 0; i < dependencies.size(); i++)
+			addDependency(dependencies[i]);
+	}
+
+	return true;
+}
+
+char* BuildModuleFromSource(Allocator *allocator, const char *modulePath, const char *moduleRoot, const char *code, unsigned codeSize, const char **errorPos, char *errorBuf, unsigned errorBufSize, int optimizationLevel, ArrayView<InplaceStr> activeImports, CompilerStatistics *statistics)
+{
+	TRACE_SCOPE("compiler", "BuildModuleFromSource");
+	TRACE_LABEL(modulePath);
+
+	CompilerContext ctx(allocator, optimizationLevel, activeImports);
+
+	ctx.errorBuf = errorBuf;
+	ctx.errorBufSize = errorBufSize;
+
+	ctx.code = code;
+	ctx.moduleRoot = moduleRoot;
+
+	if(!CompileModuleFromSource(ctx))
+	{
+		*errorPos = ctx.errorPos;
+
+		if(errorBuf && errorBufSize)
+		{
+			unsigned currLen = (unsigned)strlen(errorBuf);
+			NULLC::SafeSprintf(errorBuf + currLen, errorBufSize - currLen, " [in module '%s']", modulePath);
+		}
+
+		return NULL;
+	}
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	char *bytecode = NULL;
+	GetBytecode(ctx, &bytecode);
+
+	ctx.statistics.Finish("Bytecode", NULLCTime::clockMicro());
+
+	ctx.statistics.Start(NULLCTime::clockMicro());
+
+	Lexer &lexer = ctx.parseCtx.lexer;
+
+	const char *newStart = FindSource((ByteCode*)bytecode);
+
+	// We have to fix lexeme positions to the code that is saved in bytecode
+	for(Lexeme *c = lexer.GetStreamStart(), *e = lexer.GetStreamStart() + lexer.GetStreamSize(); c != e; c++)
+	{
+		// Exit fix up if lexemes exited scope of the current file
+		if(c->pos < code || c->pos > (code + codeSize))
+			break;
+
+		c->pos = newStart + (c->pos - code);
+	}
+
+	BinaryCache::PutBytecode(modulePath, bytecode, lexer.GetStreamStart(), lexer.GetStreamSize());
+
+	ctx.statistics.Finish("BytecodeCache", NULLCTime::clockMicro());
+
+	if(statistics)
+		statistics->Add(ctx.statistics);
+
+	return bytecode;
+}
+
+const char* FindFileContentInImportPaths(InplaceStr moduleName, const char *moduleRoot, bool addExtension, char *resultPathBuf, unsigned resultPathBufSize, unsigned &fileSize)
+{
+	const char *fileContent = NULL;
+
+	unsigned modulePathPos = 0;
+	while(const char *modulePath = BinaryCache::EnumImportPath(modulePathPos++))
+	{
+		char *pathEnd = resultPathBuf + NULLC::SafeSprintf(resultPathBuf, resultPathBufSize, "%s%s%s%.*s", modulePath, moduleRoot ? moduleRoot : "", moduleRoot ? "/" : "", moduleName.length(), moduleName.begin);
+
+		if(addExtension)
+		{
+			char *pathNoImport = resultPathBuf + strlen(modulePath);
+
+			for(unsigned i = 0, e = (unsigned)strlen(pathNoImport); i != e; i++)
+			{
+				if(pathNoImport[i] == '.')
+					pathNoImport[i] = '/';
+			}
+
+			NULLC::SafeSprintf(pathEnd, resultPathBufSize - int(pathEnd - resultPathBuf), ".nc");
+		}
+
+		fileContent = NULLC::fileLoad(resultPathBuf, &fileSize);
+
+		if(fileContent)
+			break;
+	}
+
+	return fileContent;
+}
+
+char* BuildModuleFromPath(Allocator *allocator, InplaceStr moduleName, const char *moduleRoot, bool addExtension, const char **errorPos, char *errorBuf, unsigned errorBufSize, int optimizationLevel, ArrayView<InplaceStr> activeImports, CompilerStatistics *statistics)
+{
+	if(statistics)
+		statistics->Start(NULLCTime::clockMicro());
+
+	NULLC::TraceDump();
+
+	if(statistics)
+	{
+		statistics->Finish("Tracing", NULLCTime::clockMicro());
+		statistics->Start(NULLCTime::clockMicro());
+	}
+
+	TRACE_SCOPE("compiler", "BuildModuleFromPath");
+	TRACE_LABEL2(moduleName.begin, moduleName.end);
+
+	assert(*moduleName.end == 0);
+
+	if(addExtension)
+		assert(strstr(moduleName.begin, ".nc") == NULL);
+	else
+		assert(strstr(moduleName.begin, ".nc") != NULL);
+
+	const unsigned nextModuleRootLength = 1024;
+	char nextModuleRootBuf[nextModuleRootLength];
+
+	const char *nextModuleRoot = moduleRoot;
+
+	const unsigned pathLength = 1024;
+	char path[pathLength];
+
+	unsigned fileSize = 0;
+	const char *fileContent = NULL;
+
+	if(moduleRoot)
+	{
+		fileContent = FindFileContentInImportPaths(moduleName, moduleRoot, addExtension, path, pathLength, fileSize);
+
+		if(fileContent)
+		{
+			if(const char *pos = moduleName.rfind('/'))
+			{
+				NULLC::SafeSprintf(nextModuleRootBuf, nextModuleRootLength, "%s/%.*s", moduleRoot, unsigned(pos - moduleName.begin), moduleName.begin);
+
+				nextModuleRoot = nextModuleRootBuf;
+			}
+		}
+	}
+
+	if(!fileContent)
+	{
+		fileContent = FindFileContentInImportPaths(moduleName, NULL, addExtension, path, pathLength, fileSize);
+
+		if(fileContent)
+		{
+			if(const char *pos = moduleName.rfind('/'))
+			{
+				NULLC::SafeSprintf(nextModuleRootBuf, nextModuleRootLength, "%.*s", unsigned(pos - moduleName.begin), moduleName.begin);
+
+				nextModuleRoot = nextModuleRootBuf;
+			}
+		}
+	}
+
+	if(statistics)
+		statistics->Finish("Extra", NULLCTime::clockMicro());
+
+	if(!fileContent)
+	{
+		*errorPos = NULL;
+
+		if(errorBuf && errorBufSize)
+			NULLC::SafeSprintf(errorBuf, errorBufSize, "ERROR: module file '%.*s' could not be opened", moduleName.length(), moduleName.begin);
+
+		return NULL;
+	}
+
+	char *bytecode = BuildModuleFromSource(allocator, path, nextModuleRoot, fileContent, fileSize, errorPos, errorBuf, errorBufSize, optimizationLevel, activeImports, statistics);
+
+	NULLC::fileFree(fileContent);
+
+	return bytecode;
+}
+
+bool AddModuleFunction(Allocator *allocator, const char* module, void (*ptrRaw)(), void *funcWrap, void (*ptrWrap)(void *func, char* retBuf, char* argBuf), const char* name, int index, const char **errorPos, char *errorBuf, unsigned errorBufSize, int optimizationLevel)
+{
+	const char *bytecode = BinaryCache::FindBytecode(module, true);
+
+	// Create module if not found
+	if(!bytecode)
+		bytecode = BuildModuleFromPath(allocator, InplaceStr(module), NULL, true, errorPos, errorBuf, errorBufSize, optimizationLevel, ArrayView<InplaceStr>(), NULL);
+
+	if(!bytecode)
+		return false;
+
+	unsigned hash = NULLC::GetStringHash(name);
+	ByteCode *code = (ByteCode*)bytecode;
+
+	// Find function and set pointer
+	ExternFuncInfo *fInfo = FindFirstFunc(code);
+
+	unsigned end = code->functionCount - code->moduleFunctionCount;
+	for(unsigned i = 0; i < end; i++)
+	{
+		if(hash == fInfo->nameHash)
+		{
+			if(index == 0)
+			{
+				fInfo->regVmAddress = -1;
+
+				fInfo->funcPtrRaw = ptrRaw;
+				fInfo->funcPtrWrapTarget = funcWrap;
+				fInfo->funcPtrWrap = ptrWrap;
+
+				index--;
+				break;
+			}
+
+			index--;
+		}
+
+		fInfo++;
+	}
+
+	if(index != -1)
+	{
+		*errorPos = NULL;
+
+		NULLC::SafeSprintf(errorBuf, errorBufSize, "ERROR: function '%s' or one of it's overload is not found in module '%s'", name, module);
+
+		return false;
+	}
+
+	return true;
+}
+
+void OutputCompilerStatistics(CompilerStatistics &statistics, unsigned outerTotalMicros)
+{
+	OutputContext outputCtx;
+
+	outputCtx.stream = OutputContext::FileOpen("time_stats.txt");
+	outputCtx.writeStream = OutputContext::FileWrite;
+
+	unsigned total = statistics.Total();
+
+	for(unsigned i = 0; i < statistics.timers.size(); i++)
+	{
+		CompilerStatistics::Timer &timer = statistics.timers[i];
+
+		outputCtx.Printf("%15s %6dms (%3d%%)\n", timer.outputName.begin, timer.total / 1000, int(timer.total * 100.0 / total));
+	}
+
+	outputCtx.Printf("%15s %6dms (%6dms)\n", "total", total / 1000, outerTotalMicros / 1000);
+
+	outputCtx.Flush();
+
+	OutputContext::FileClose(outputCtx.stream);
+	outputCtx.stream = NULL;
+}
-- 
2.43.0


From b75d34d271b86815bed726c10b752c5cbc5a151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 013/107] fix: optimizer kept a loaded value over a memory copy
 through a pointer to it

---
 NULLC/InstructionTreeVm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 11575f1..e191ea9 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1339,7 +1339,7 @@ namespace
 			return true;
 
 		// Struct store can overwrite other types
-		if(storeInst->cmd == VM_INST_STORE_STRUCT)
+		if(storeInst->cmd == VM_INST_STORE_STRUCT || storeInst->cmd == VM_INST_MEM_COPY)
 			return true;
 
 		return false;
-- 
2.43.0


From 0b8bd01be727cf4e1c5df2ec8cc081bacf703f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 014/107] fix: char and short function results computed from a
 call were not converted

---
 NULLC/InstructionTreeVm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index e191ea9..4ee4667 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -947,10 +947,10 @@ namespace
 			return CreateConstantDouble(module->allocator, source, float(constant->dValue));
 		}
 
-		// Loaded values and function results are already converted
+		// Loaded values are already converted
 		if(VmInstruction *inst = getType<VmInstruction>(value))
 		{
-			if(inst->cmd == VM_INST_CALL || inst->cmd == GetLoadInstruction(ctx, type))
+			if(inst->cmd == GetLoadInstruction(ctx, type))
 				return value;
 		}
 
-- 
2.43.0


From 5abbbd7992474a9a35c254632f320e7d4f0b1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:27 +0000
Subject: [PATCH 015/107] fix: subtraction of INT_MIN was lowered to the
 addition of a wrapped immediate (wrong sign for long)

---
 NULLC/InstructionTreeRegVmLower.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index d6e5e57..430af94 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeRegVmLower.h"
 
+#include <limits.h>
+
 #include "ExpressionTree.h"
 #include "InstructionTreeVm.h"
 #include "InstructionTreeVmCommon.h"
@@ -2335,10 +2337,10 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, -constant->iValue);
+				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, int(0u - unsigned(constant->iValue)));
 				break;
 			}
-			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue)
+			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && ((constant->type == VmType::Int && constant->iValue != INT_MIN) || (constant->type == VmType::Long && int(constant->lValue) == constant->lValue && int(constant->lValue) != INT_MIN)))
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-- 
2.43.0


From 72c5f8e9b53604104bf16d902ce596efdbdc4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:08 +0000
Subject: [PATCH 016/107] fix: adding zero to a double was folded away (wrong
 for -0.0)

---
 NULLC/InstructionTreeVm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 4ee4667..c992d9f 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4394,9 +4394,9 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		switch(inst->cmd)
 		{
 		case VM_INST_ADD:
-			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types
+			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 + x, integer types (double can be -0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[1], &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types
+			else if(DoesConstantIntegerMatch(inst->arguments[1], 0)) // x + 0, integer types (double can be -0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_SUB:
-- 
2.43.0


From 1e0a848f91480317f16f21bc9d9b2f2da2ae368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:21 +0000
Subject: [PATCH 017/107] fix: two copies of a value sharing a color failed an
 assertion in the register allocation

---
 NULLC/InstructionTreeRegVmLower.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 430af94..40d81fd 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -3304,8 +3304,26 @@ void AllocateLiveInOutRegisters(ExpressionContext &ctx, RegVmLoweredFunction *lo
 
 		if(liveOut->regVmRegisters.empty())
 		{
-			if(liveOut->color != 0)
-				assert(lowFunction->colorRegisters[liveOut->color] == NULL);
+			// Copies of a single value that share the color also share the registers
+			if(liveOut->color != 0 && lowFunction->colorRegisters[liveOut->color])
+			{
+				VmInstruction *source = lowFunction->colorRegisters[liveOut->color];
+
+				CopyRegisters(liveOut, source);
+
+				for(unsigned k = 0; k < liveOut->regVmRegisters.size(); k++)
+				{
+					unsigned char reg = liveOut->regVmRegisters[k];
+
+					lowFunction->registerUsers[reg]++;
+
+					usedRegisters.push_back(reg);
+				}
+
+				UpdateSharedStorage(liveOut, lowFunction->vmFunction->nextSearchMarker++);
+
+				continue;
+			}
 
 			if(liveOut->type.type == VM_TYPE_INT || liveOut->type.type == VM_TYPE_LONG || liveOut->type.type == VM_TYPE_DOUBLE || liveOut->type.type == VM_TYPE_POINTER)
 			{
-- 
2.43.0


From c94e2c8f211ce4f35e80b2304b4d9c4611eb83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:14 +0000
Subject: [PATCH 018/107] fix: branch with the same block as several targets
 left a phi instruction argument unset (null pointer access in the optimizer)

---
 NULLC/InstructionTreeVm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index c992d9f..1dab835 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -2271,7 +2271,8 @@ void VmFunction::UpdateDominatorTree(VmModule *module, bool clear)
 
 			if(VmInstruction *inst = getType<VmInstruction>(user))
 			{
-				if(inst->cmd != VM_INST_PHI)
+				// Branch instruction might use the block multiple times, but it is still a single edge
+				if(inst->cmd != VM_INST_PHI && !curr->predecessors.contains(inst->parent))
 				{
 					curr->predecessors.push_back(inst->parent);
 					inst->parent->successors.push_back(curr);
-- 
2.43.0


From 51efd820ede9f895c92ab22110599bc586a2c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 019/107] fix: array expression of a for each loop was
 evaluated twice per iteration

---
 NULLC/ExpressionTree.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index eea27c5..d0c28c9 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11280,25 +11280,26 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 					type = valueType->subType;
 			}
 
-			ExprBase* wrapped = value;
-
-			if(ExprVariableAccess *node = getType<ExprVariableAccess>(value))
-			{
-				wrapped = new (ctx.get<ExprGetAddress>()) ExprGetAddress(value->source, ctx.GetReferenceType(value->type), new (ctx.get<VariableHandle>()) VariableHandle(node->source, node->variable));
-			}
-			else if(ExprDereference *node = getType<ExprDereference>(value))
+			// Evaluate array expression once, before the loop
+			if(ExprDereference *node = getType<ExprDereference>(value))
 			{
-				wrapped = node->value;
+				VariableData *storage = AllocateTemporary(ctx, value->source, node->value->type);
+
+				ExprBase *assignment = CreateAssignment(ctx, value->source, CreateVariableAccess(ctx, value->source, storage, false), node->value);
+
+				initializers.push_back(new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(value->source, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, storage), assignment));
+
+				value = new (ctx.get<ExprDereference>()) ExprDereference(value->source, value->type, CreateVariableAccess(ctx, value->source, storage, false));
 			}
-			else if(!isType<TypeRef>(wrapped->type))
+			else if(!isType<ExprVariableAccess>(value))
 			{
-				VariableData *storage = AllocateTemporary(ctx, value->source, wrapped->type);
+				VariableData *storage = AllocateTemporary(ctx, value->source, value->type);
 
 				ExprBase *assignment = CreateAssignment(ctx, value->source, CreateVariableAccess(ctx, value->source, storage, false), value);
 
-				ExprBase *definition = new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(value->source, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, storage), assignment);
+				initializers.push_back(new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(value->source, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, storage), assignment));
 
-				wrapped = CreateSequence(ctx, value->source, definition, CreateGetAddress(ctx, value->source, CreateVariableAccess(ctx, value->source, storage, false)));
+				value = CreateVariableAccess(ctx, value->source, storage, false);
 			}
 
 			// Create initializer
-- 
2.43.0


From 6d1e8094cc52f4e67cdfb1af620099871a49a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 020/107] fix: a numeric constant could share a constant pool
 slot with call microcode and change its value when the module was linked

---
 NULLC/InstructionTreeRegVmLower.cpp | 33 +++++++++++++++++++----------
 NULLC/InstructionTreeRegVmLower.h   |  7 +++++-
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 40d81fd..9007c5a 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -285,10 +285,12 @@ bool RegVmLoweredFunction::TransferRegisterTo(VmValue *value, unsigned char reg)
 
 unsigned RegVmLoweredModule::FindConstant(unsigned value)
 {
-	for(unsigned i = 0; i < constants.size(); i++)
+	for(unsigned i = 0; i < plainConstants.size(); i++)
 	{
-		if(constants[i] == value)
-			return i + 1;
+		unsigned pos = plainConstants[i];
+
+		if(constants[pos] == value)
+			return pos + 1;
 	}
 
 	return 0;
@@ -296,15 +298,24 @@ unsigned RegVmLoweredModule::FindConstant(unsigned value)
 
 unsigned RegVmLoweredModule::FindConstant(unsigned value1, unsigned value2)
 {
-	for(unsigned i = 0; i + 1 < constants.size(); i += 2)
+	for(unsigned i = 0; i + 1 < plainConstants.size(); i++)
 	{
-		if(constants[i] == value1 && constants[i + 1] == value2)
-			return i + 1;
+		unsigned pos = plainConstants[i];
+
+		if(pos % 2 == 0 && plainConstants[i + 1] == pos + 1 && constants[pos] == value1 && constants[pos + 1] == value2)
+			return pos + 1;
 	}
 
 	return 0;
 }
 
+void RegVmLoweredModule::AddPlainConstant(unsigned value)
+{
+	plainConstants.push_back(constants.size());
+
+	constants.push_back(value);
+}
+
 unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value);
 
 void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFunction, RegVmLoweredBlock *lowBlock, SmallArray<unsigned char, 32> &result, VmValue *value)
@@ -504,7 +515,7 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 			unsigned index = lowModule->constants.size() + 1;
 
-			lowModule->constants.push_back(constant->iValue);
+			lowModule->AddPlainConstant(constant->iValue);
 
 			return index;
 		}
@@ -521,8 +532,8 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 			unsigned index = lowModule->constants.size() + 1;
 
-			lowModule->constants.push_back(data[0]);
-			lowModule->constants.push_back(data[1]);
+			lowModule->AddPlainConstant(data[0]);
+			lowModule->AddPlainConstant(data[1]);
 
 			return index;
 		}
@@ -542,8 +553,8 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 			unsigned index = lowModule->constants.size() + 1;
 
-			lowModule->constants.push_back(data[0]);
-			lowModule->constants.push_back(data[1]);
+			lowModule->AddPlainConstant(data[0]);
+			lowModule->AddPlainConstant(data[1]);
 
 			return index;
 		}
diff --git a/NULLC/InstructionTreeRegVmLower.h b/NULLC/InstructionTreeRegVmLower.h
index 859d52e..d83782d 100644
--- a/NULLC/InstructionTreeRegVmLower.h
+++ b/NULLC/InstructionTreeRegVmLower.h
@@ -125,7 +125,7 @@ struct RegVmLoweredFunction
 
 struct RegVmLoweredModule
 {
-	RegVmLoweredModule(Allocator *allocator, VmModule *vmModule): allocator(allocator), vmModule(vmModule), functions(allocator), constants(allocator)
+	RegVmLoweredModule(Allocator *allocator, VmModule *vmModule): allocator(allocator), vmModule(vmModule), functions(allocator), constants(allocator), plainConstants(allocator)
 	{
 	}
 
@@ -133,6 +133,8 @@ struct RegVmLoweredModule
 	unsigned FindConstant(unsigned value);
 	unsigned FindConstant(unsigned value1, unsigned value2);
 
+	void AddPlainConstant(unsigned value);
+
 	Allocator *allocator;
 
 	VmModule *vmModule;
@@ -140,6 +142,9 @@ struct RegVmLoweredModule
 	SmallArray<RegVmLoweredFunction*, 32> functions;
 
 	SmallArray<unsigned, 256> constants;
+
+	// Positions of values that can be shared between instructions (microcode contains values that are updated when the module is linked)
+	SmallArray<unsigned, 256> plainConstants;
 };
 
 RegVmLoweredModule* RegVmLowerModule(ExpressionContext &ctx, VmModule *module);
-- 
2.43.0


From a75d05c4cb96eedb7f04902da2ac37de6c9a4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 021/107] fix: code after a break, continue or return statement
 was executed when the target block followed (and failed assertions)

---
 NULLC/InstructionTreeVm.cpp | 39 +++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 1dab835..2986b56 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4943,6 +4943,29 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		curr->successors.clear();
 	}
 
+	// Branches that follow the block terminator are never taken, they do not make the target block reachable
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+	{
+		VmInstruction *terminator = curr->firstInstruction;
+
+		while(terminator && !IsBlockTerminator(terminator->cmd))
+			terminator = terminator->nextSibling;
+
+		for(VmInstruction *inst = terminator ? terminator->nextSibling : NULL; inst;)
+		{
+			VmInstruction *next = inst->nextSibling;
+
+			if(IsBlockTerminator(inst->cmd))
+			{
+				module->deadCodeEliminations++;
+
+				curr->RemoveInstruction(inst);
+			}
+
+			inst = next;
+		}
+	}
+
 	// Resolve branches with a constant condition first, blocks that become unreachable because of that have to be removed by this pass
 	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 	{
@@ -5048,6 +5071,22 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		}
 	}
 
+	// Remove instructions after the block terminator
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+	{
+		VmInstruction *terminator = curr->firstInstruction;
+
+		while(terminator && !IsBlockTerminator(terminator->cmd))
+			terminator = terminator->nextSibling;
+
+		while(terminator && curr->lastInstruction != terminator && curr->lastInstruction->users.empty())
+		{
+			module->deadCodeEliminations++;
+
+			curr->RemoveInstruction(curr->lastInstruction);
+		}
+	}
+
 	VmBlock *curr = function->firstBlock;
 
 	while(curr)
-- 
2.43.0


From dd38265fcb26d840f5150f22d7a9113ea24990a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 022/107] fix: store through an index into a null array pointer
 crashed the optimizer

---
 NULLC/InstructionTreeVm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 2986b56..3a83d72 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1565,7 +1565,10 @@ namespace
 
 					assert(length && elemSize);
 
-					if(VmConstant *base = getType<VmConstant>(ptrArg->arguments[2]))
+					VmConstant *base = getType<VmConstant>(ptrArg->arguments[2]);
+
+					// Base address might be a constant null pointer without a container
+					if(base && base->container)
 					{
 						unsigned indexOffset = unsigned(base->iValue);
 						unsigned indexSize = length->iValue * elemSize->iValue;
-- 
2.43.0


From ad74e490ff40d8d243b82b6f40809910801c180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 023/107] fix: JIT instruction list overflowed on calls and
 returns of large structures

---
 NULLC/Executor_X86.cpp | 43 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 52b9b90..6be14e9 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1275,6 +1275,41 @@ void ExecutorX86::ClearNative()
 	codeRunning = false;
 }
 
+static unsigned GetMicrocodeSize(unsigned *constants, const RegVmCmd &cmd)
+{
+	unsigned *start = NULL;
+
+	if(cmd.code == rviCall)
+		start = constants + ((cmd.rA << 16) | (cmd.rB << 8) | cmd.rC);
+	else if(cmd.code == rviCallPtr)
+		start = constants + cmd.argument;
+	else if(cmd.code == rviReturn && cmd.rB != rvrVoid && cmd.rB != rvrError)
+		start = constants + cmd.argument + 2; // Skip type index and size
+	else
+		return 0;
+
+	unsigned *microcode = start;
+
+	while(*microcode != rvmiReturn)
+	{
+		switch(*microcode)
+		{
+		case rvmiCall:
+			microcode += 3;
+			break;
+		case rvmiPushMem:
+		case rvmiPopMem:
+			microcode += 4;
+			break;
+		default:
+			microcode += 2;
+			break;
+		}
+	}
+
+	return unsigned(microcode - start);
+}
+
 bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 {
 	TRACE_SCOPE("x86", "TranslateToNative");
@@ -1380,8 +1415,12 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 
 		unsigned int currSize = (int)(codeGenCtx->ctx.GetLastInstruction() - instList.data);
 		instList.count = currSize;
-		if(currSize + 64 >= instList.max)
-			instList.grow(currSize + 64);
+
+		// Amount of code that transfers values in calls and returns depends on the microcode size
+		unsigned reserveSize = 64 + GetMicrocodeSize(exRegVmConstants.data, cmd) * 4;
+
+		if(currSize + reserveSize >= instList.max)
+			instList.grow(currSize + reserveSize);
 
 		codeGenCtx->ctx.SetLastInstruction(instList.data + currSize, instList.data);
 
-- 
2.43.0


From 7ba2b7f810f5fd5e6066cd19b5e77b5ffbb83582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 024/107] fix: global variable offsets in the return value
 microcode were not relocated at link time

---
 NULLC/Linker.cpp | 14 ++++++++++++--
 NULLC/Linker.h   |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index e638069..f2f7761 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -788,6 +788,9 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			cmd.argument += oldRegVmConstantsSize;
 
 			exRegVmConstants[cmd.argument] = typeRemap[exRegVmConstants[cmd.argument]];
+
+			// Value push instructions follow the type index and size
+			FixupPushMicrocode(cmd.argument + 2, rvmiReturn, oldGlobalSize);
 			break;
 		case rviConvertPtr:
 			cmd.argument = typeRemap[cmd.argument];
@@ -1083,9 +1086,9 @@ const char*	Linker::GetLinkError()
 	return linkError;
 }
 
-void Linker::FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize)
+unsigned Linker::FixupPushMicrocode(unsigned microcode, unsigned endMicrocode, unsigned oldGlobalSize)
 {
-	while(exRegVmConstants[microcode] != rvmiCall)
+	while(exRegVmConstants[microcode] != endMicrocode)
 	{
 		switch(exRegVmConstants[microcode++])
 		{
@@ -1117,6 +1120,13 @@ void Linker::FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize)
 		}
 	}
 
+	return microcode;
+}
+
+void Linker::FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize)
+{
+	microcode = FixupPushMicrocode(microcode, rvmiCall, oldGlobalSize);
+
 	microcode += 3;
 
 	while(exRegVmConstants[microcode] != rvmiReturn)
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index cc8a3f6..c43723b 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -24,6 +24,7 @@ public:
 
 	const char*	GetLinkError();
 
+	unsigned	FixupPushMicrocode(unsigned microcode, unsigned endMicrocode, unsigned oldGlobalSize);
 	void	FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize);
 public:
 	char		linkError[LINK_ERROR_BUFFER_SIZE];
-- 
2.43.0


From 129b318438b1ed44eab54df6edc11df2cb25fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:45 +0000
Subject: [PATCH 025/107] fix: large structure variables of an imported module
 were passed and returned from a wrong address when optimized

---
 NULLC/InstructionTreeRegVmLower.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 9007c5a..1e43060 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -407,6 +407,15 @@ void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFun
 	}
 }
 
+unsigned GetMemoryMicrocodeOffset(VmConstant *constant)
+{
+	VariableData *container = constant->container;
+
+	unsigned moduleId = container->importModule ? container->importModule->importIndex << 24 : 0;
+
+	return constant->iValue + container->offset + moduleId;
+}
+
 bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 {
 	if(VmConstant *constant = getType<VmConstant>(value))
@@ -417,7 +426,7 @@ bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 		{
 			lowModule->constants.push_back(rvmiPushMem);
 			lowModule->constants.push_back(IsLocalScope(constant->container->scope) ? rvrrFrame : rvrrGlobals);
-			lowModule->constants.push_back(constant->container->offset + constant->iValue);
+			lowModule->constants.push_back(GetMemoryMicrocodeOffset(constant));
 			lowModule->constants.push_back(int(constant->type.size));
 
 			return true;
@@ -2092,7 +2101,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 			lowModule->constants.push_back(rvmiPopMem);
 			lowModule->constants.push_back(IsLocalScope(resultAddress->container->scope) ? rvrrFrame : rvrrGlobals);
-			lowModule->constants.push_back(resultAddress->container->offset + resultAddress->iValue);
+			lowModule->constants.push_back(GetMemoryMicrocodeOffset(resultAddress));
 			lowModule->constants.push_back(int(resultAddress->type.size));
 
 		}
-- 
2.43.0


From 3d4952c32f43f043e851e41ee80a0df52525f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 026/107] fix: JIT comparison used its result register as the
 source of the right operand

---
 NULLC/CodeGen_X86.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NULLC/CodeGen_X86.cpp b/NULLC/CodeGen_X86.cpp
index 087239a..57017be 100644
--- a/NULLC/CodeGen_X86.cpp
+++ b/NULLC/CodeGen_X86.cpp
@@ -613,6 +613,9 @@ void CodeGenGenericContext::LockAndInvalidateReg(x86Reg reg)
 {
 	LockReg(reg);
 	InvalidateDependand(reg);
+
+	// Register is going to be overwritten and its current contents should not be used as a source of a known value
+	genReg[reg].type = x86Argument::argNone;
 }
 
 bool CodeGenGenericContext::IsRegLocked(x86Reg reg)
-- 
2.43.0


From cbceba59c23bad95185ba1afa7a1521c2dbe5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 027/107] fix: missing return value error was reported in the
 function that follows in the code

---
 NULLC/Executor_Common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 4c7c8db..ace997d 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -148,10 +148,11 @@ unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, b
 
 	char *source = nullcDebugSource();
 
+	// Address is located after the instruction that is being executed in the frame
 	int funcID = -1;
 	for(unsigned int i = 0; i < exFunctionsSize; i++)
 	{
-		if(address >= exFunctions[i].regVmAddress && address < (exFunctions[i].regVmAddress + exFunctions[i].regVmCodeSize))
+		if(address > exFunctions[i].regVmAddress && address <= (exFunctions[i].regVmAddress + exFunctions[i].regVmCodeSize))
 			funcID = i;
 	}
 
-- 
2.43.0


From b02d6c8fbe11318844ecc41e48fadd9c41001a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:30 +0000
Subject: [PATCH 028/107] fix: JIT reported null pointer and division errors at
 a wrong instruction

---
 NULLC/Executor_X86.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 6be14e9..2ae5a50 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -136,6 +136,10 @@ namespace NULLC
 		if(index != 0 && address < uintptr_t(currExecutor->instAddress.data[index]))
 			index--;
 
+		// Skip instructions that didn't generate any code
+		while(index + 1 < currExecutor->instAddress.size() && currExecutor->instAddress.data[index + 1] == currExecutor->instAddress.data[index])
+			index++;
+
 		return index;
 	}
 
@@ -143,7 +147,8 @@ namespace NULLC
 	{
 		if(instruction != ~0u)
 		{
-			currExecutor->vmState.callStackTop->instruction = instruction;
+			// Call stack contains locations after the instruction that is being executed
+			currExecutor->vmState.callStackTop->instruction = instruction + 1;
 			currExecutor->vmState.callStackTop++;
 		}
 	}
-- 
2.43.0


From a86c5b46454160065c7571e0474efe4b0e5c8ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 029/107] fix: copy from a null pointer propagated into a call
 or return argument crashed the optimizer

---
 NULLC/InstructionTreeVm.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 3a83d72..14cd9dd 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5640,7 +5640,10 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 						{
 							if(VmInstruction* prevCopy = GetCopyInfo(module, constant, NULL, constant->type.size))
 							{
-								if(VmConstant *constAddress = getType<VmConstant>(prevCopy->arguments[2]))
+								VmConstant *constAddress = getType<VmConstant>(prevCopy->arguments[2]);
+
+								// Source might be a null pointer constant
+								if(constAddress && constAddress->container)
 								{
 									VmConstant *reference = new (module->get<VmConstant>()) VmConstant(ctx.allocator, constant->type, curr->source);
 
@@ -5689,7 +5692,10 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 						{
 							if(VmInstruction* prevCopy = GetCopyInfo(module, constant, NULL, constant->type.size))
 							{
-								if(VmConstant *constAddress = getType<VmConstant>(prevCopy->arguments[2]))
+								VmConstant *constAddress = getType<VmConstant>(prevCopy->arguments[2]);
+
+								// Source might be a null pointer constant
+								if(constAddress && constAddress->container)
 								{
 									VmConstant *reference = new (module->get<VmConstant>()) VmConstant(ctx.allocator, constant->type, curr->source);
 
-- 
2.43.0


From 7a5991c4c8d6ec401013af1516b8fe0c489cf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 030/107] fix: JIT reported the caller of a null function
 pointer twice in the call stack

---
 NULLC/CodeGenRegVm_X86.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 9a86cac..3ce05c3 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2229,8 +2229,7 @@ void ErrorInvalidFunctionPointer(CodeGenRegVmStateContext *vmState)
 {
 	CodeGenRegVmContext &ctx = *vmState->ctx;
 
-	vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
-	vmState->callStackTop++;
+	// Call prologue has already placed the call instruction on the call stack
 
 	ctx.x86rvm->Stop("ERROR: invalid function pointer");
 	longjmp(vmState->errorHandler, 1);
-- 
2.43.0


From 9400ffe8034b20abc1a3b77c89231e1cceb647fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:03 +0000
Subject: [PATCH 031/107] fix: closing a captured variable stopped at upvalues
 of other instances of it

---
 NULLC/ExpressionEval.cpp        | 19 +++++++++++++++++--
 NULLC/InstructionTreeVmEval.cpp | 22 ++++++++++++++++++++--
 NULLC/StdLib.cpp                | 17 ++++++++++-------
 NULLC/translation/runtime.cpp   | 17 ++++++++++-------
 4 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index 15d2e4d..f4a46bf 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -2707,13 +2707,28 @@ ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunc
 		};
 
 		Upvalue *upvalue = (Upvalue*)upvalueListHead->ptr;
+		Upvalue *remaining = upvalue;
+		Upvalue *prev = NULL;
 
 		assert(upvalue);
 
-		while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
+		// List can also contain upvalues of other instances of the variable
+		while (upvalue)
 		{
 			Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
 
+			if (ReadVmMemoryPointer(&upvalue->target) != variableLocation->ptr)
+			{
+				prev = upvalue;
+				upvalue = next;
+				continue;
+			}
+
+			if (prev)
+				WriteVmMemoryPointer(&prev->next, next);
+			else
+				remaining = next;
+
 			unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
 			memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
 			WriteVmMemoryPointer(&upvalue->target, copy);
@@ -2722,7 +2737,7 @@ ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunc
 			upvalue = next;
 		}
 
-		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)upvalue, (unsigned char*)upvalue + NULLC_PTR_SIZE)))
+		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)remaining, (unsigned char*)remaining + NULLC_PTR_SIZE)))
 			return NULL;
 
 		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index eac79e7..2c96ed6 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -2453,11 +2453,29 @@ VmConstant* EvaluateKnownExternalFunction(InstructionVMEvalContext &ctx, Functio
 		int upvalueVmPtr = upvalueListHead->iValue;
 		Upvalue *upvalueDataPtr = (Upvalue*)upvalueListHeadData;
 
-		while(upvalueDataPtr && ReadVmMemoryPointer(&upvalueDataPtr->target) == variableLocation->iValue)
+		int remainingVmPtr = upvalueVmPtr;
+		Upvalue *prevDataPtr = NULL;
+
+		// List can also contain upvalues of other instances of the variable
+		while(upvalueDataPtr)
 		{
 			int nextVmPtr = (int)ReadVmMemoryPointer(&upvalueDataPtr->next);
 			Upvalue *nextDataPtr = (Upvalue*)GetPointerDataPtr(ctx, nextVmPtr);
 
+			if(ReadVmMemoryPointer(&upvalueDataPtr->target) != variableLocation->iValue)
+			{
+				prevDataPtr = upvalueDataPtr;
+
+				upvalueVmPtr = nextVmPtr;
+				upvalueDataPtr = nextDataPtr;
+				continue;
+			}
+
+			if(prevDataPtr)
+				WriteVmMemoryPointer(&prevDataPtr->next, nextVmPtr);
+			else
+				remainingVmPtr = nextVmPtr;
+
 			char *variableLocationData = GetPointerDataPtr(ctx, variableLocation->iValue);
 
 			char *copy = (char*)upvalueDataPtr + offsetToCopy->iValue;
@@ -2469,7 +2487,7 @@ VmConstant* EvaluateKnownExternalFunction(InstructionVMEvalContext &ctx, Functio
 			upvalueDataPtr = nextDataPtr;
 		}
 
-		StoreFrameValue(ctx, upvalueListLocation, 0, CreateConstantPointer(ctx.allocator, NULL, upvalueVmPtr, NULL, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), false), NULLC_PTR_SIZE);
+		StoreFrameValue(ctx, upvalueListLocation, 0, CreateConstantPointer(ctx.allocator, NULL, remainingVmPtr, NULL, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), false), NULLC_PTR_SIZE);
 
 		return CreateConstantVoid(ctx.allocator);
 	}
diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4534252..78b8b07 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1615,19 +1615,22 @@ void NULLC::CloseUpvalue(void **upvalueList, void *variable, int offset, int siz
 		Upvalue *next;
 	};
 
-	Upvalue *upvalue = (Upvalue*)ReadVmMemoryPointer(upvalueList);
+	// List can also contain upvalues of other instances of the variable (other activations, coroutine states or already closed variables captured again)
+	void **link = upvalueList;
 
-	while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variable)
+	while (Upvalue *upvalue = (Upvalue*)ReadVmMemoryPointer(link))
 	{
-		Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
+		if (ReadVmMemoryPointer(&upvalue->target) != variable)
+		{
+			link = (void**)&upvalue->next;
+			continue;
+		}
+
+		WriteVmMemoryPointer(link, ReadVmMemoryPointer(&upvalue->next));
 
 		char *copy = (char*)upvalue + offset;
 		memcpy(copy, variable, unsigned(size));
 		WriteVmMemoryPointer(&upvalue->target, copy);
 		WriteVmMemoryPointer(&upvalue->next, NULL);
-
-		upvalue = next;
 	}
-
-	WriteVmMemoryPointer(upvalueList, upvalue);
 }
diff --git a/NULLC/translation/runtime.cpp b/NULLC/translation/runtime.cpp
index b77b9f1..f69a7e4 100644
--- a/NULLC/translation/runtime.cpp
+++ b/NULLC/translation/runtime.cpp
@@ -1605,21 +1605,24 @@ void __closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_(void **upvalueList,
 		Upvalue *next;
 	};
 
-	Upvalue *upvalue = *(Upvalue**)upvalueList;
+	// List can also contain upvalues of other instances of the variable (other activations, coroutine states or already closed variables captured again)
+	Upvalue **link = (Upvalue**)upvalueList;
 
-	while (upvalue && upvalue->target == variable)
+	while (Upvalue *upvalue = *link)
 	{
-		Upvalue *next = upvalue->next;
+		if (upvalue->target != variable)
+		{
+			link = &upvalue->next;
+			continue;
+		}
+
+		*link = upvalue->next;
 
 		char *copy = (char*)upvalue + offset;
 		memcpy(copy, variable, unsigned(size));
 		upvalue->target = copy;
 		upvalue->next = NULL;
-
-		upvalue = next;
 	}
-
-	*(Upvalue**)upvalueList = upvalue;
 }
 
 int float__str_610894668_precision__int_ref___(void* __context)
-- 
2.43.0


From 2775345aaf5bd58a7f64c9e6f8332be342693f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 032/107] fix: JIT modified the frame base register when it
 held the address being adjusted

---
 NULLC/CodeGen_X86.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/NULLC/CodeGen_X86.cpp b/NULLC/CodeGen_X86.cpp
index 57017be..726c86f 100644
--- a/NULLC/CodeGen_X86.cpp
+++ b/NULLC/CodeGen_X86.cpp
@@ -676,6 +676,16 @@ void CodeGenGenericContext::UnlockRegisters()
 	lockedXmmRegB = rXmmRegCount;
 }
 
+// Registers which hold pointers to the VM state, register file, frame and constants
+static bool IsBasePointerReg(x86Reg reg)
+{
+#if defined(_M_X64)
+	return reg == rRBX || reg == rR13 || reg == rR14 || reg == rR15;
+#else
+	return reg == rEBX || reg == rESI;
+#endif
+}
+
 x86Reg CodeGenGenericContext::FindRegAtMemory(x86Size size, x86Reg index, int multiplier, x86Reg base, unsigned shift, bool checkRegisters)
 {
 #ifdef NULLC_OPTIMIZE_X86
@@ -687,7 +697,8 @@ x86Reg CodeGenGenericContext::FindRegAtMemory(x86Size size, x86Reg index, int mu
 	{
 		memIndex--;
 
-		if(memCache[memIndex].value.type == x86Argument::argReg)
+		// Base pointer registers can't be returned because the result may be modified in-place
+		if(memCache[memIndex].value.type == x86Argument::argReg && !IsBasePointerReg(memCache[memIndex].value.reg))
 			return memCache[memIndex].value.reg;
 	}
 
-- 
2.43.0


From e7e550214530209d21000afa844bdd5469267e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:25 +0000
Subject: [PATCH 033/107] fix: captured variables were not closed when leaving
 a switch through its end

---
 NULLC/ExpressionTree.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index d0c28c9..7bd5fb6 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11562,6 +11562,14 @@ ExprSwitch* AnalyzeSwitch(ExpressionContext &ctx, SynSwitch *syntax)
 	IntrusiveList<ExprBase> blocks;
 	ExprBase *defaultBlock = NULL;
 
+	bool hasDefault = false;
+
+	for(SynSwitchCase *curr = syntax->cases.head; curr; curr = getType<SynSwitchCase>(curr->next))
+	{
+		if(!curr->value)
+			hasDefault = true;
+	}
+
 	for(SynSwitchCase *curr = syntax->cases.head; curr; curr = getType<SynSwitchCase>(curr->next))
 	{
 		if(curr->value)
@@ -11591,7 +11599,12 @@ ExprSwitch* AnalyzeSwitch(ExpressionContext &ctx, SynSwitch *syntax)
 		for(SynBase *expression = curr->expressions.head; expression; expression = expression->next)
 			expressions.push_back(AnalyzeStatement(ctx, expression));
 
-		ExprBase *block = new (ctx.get<ExprBlock>()) ExprBlock(ctx.MakeInternal(syntax), ctx.typeVoid, expressions, NULL);
+		// Control leaves the switch through the end of the default block or, if there is none, of the last case
+		bool isLast = hasDefault ? !curr->value : !curr->next;
+
+		ExprBase *closures = isLast ? CreateBlockUpvalueClose(ctx, ctx.MakeInternal(syntax), ctx.GetCurrentFunction(ctx.scope), ctx.scope) : NULL;
+
+		ExprBase *block = new (ctx.get<ExprBlock>()) ExprBlock(ctx.MakeInternal(syntax), ctx.typeVoid, expressions, closures);
 
 		if(curr->value)
 			blocks.push_back(block);
-- 
2.43.0


From 07df457815bc09352292356542451ec930377401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 034/107] fix: 0.0 and -0.0 were merged by common subexpression
 elimination

---
 NULLC/InstructionTreeVm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.h b/NULLC/InstructionTreeVm.h
index 4874af0..d0375c0 100644
--- a/NULLC/InstructionTreeVm.h
+++ b/NULLC/InstructionTreeVm.h
@@ -309,7 +309,7 @@ struct VmConstant: VmValue
 
 	bool operator==(const VmConstant& rhs) const
 	{
-		return type == rhs.type && iValue == rhs.iValue && dValue == rhs.dValue && lValue == rhs.lValue && sValue == rhs.sValue && bValue == rhs.bValue && fValue == rhs.fValue && container == rhs.container;
+		return type == rhs.type && iValue == rhs.iValue && memcmp(&dValue, &rhs.dValue, sizeof(double)) == 0 && lValue == rhs.lValue && sValue == rhs.sValue && bValue == rhs.bValue && fValue == rhs.fValue && container == rhs.container;
 	}
 
 	int iValue;
-- 
2.43.0


From 405ffd0d1647a3d5f46c82e2cc5e64bb8b029599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 035/107] fix: subtracting negative zero was folded away

---
 NULLC/InstructionTreeVm.cpp       |  2 +-
 NULLC/InstructionTreeVmCommon.cpp | 12 ++++++++++++
 NULLC/InstructionTreeVmCommon.h   |  1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 14cd9dd..b8eb1a0 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4406,7 +4406,7 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		case VM_INST_SUB:
 			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 - x, integer types
 				ChangeInstructionTo(module, inst, VM_INST_NEG, inst->arguments[1], NULL, NULL, NULL, NULL, &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x - 0, all types
+			else if(IsConstantZero(inst->arguments[1]) && !IsConstantNegativeZero(inst->arguments[1])) // x - 0, all types (except for -0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_MUL:
diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index 180b639..dbf567b 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -201,6 +201,18 @@ bool IsConstantZero(VmValue* value)
 	return DoesConstantMatchEither(value, 0, 0.0, 0ll);
 }
 
+bool IsConstantNegativeZero(VmValue* value)
+{
+	VmConstant *constant = getType<VmConstant>(value);
+
+	if(!constant || constant->type != VmType::Double)
+		return false;
+
+	double negativeZero = -0.0;
+
+	return memcmp(&constant->dValue, &negativeZero, sizeof(double)) == 0;
+}
+
 bool IsConstantDivisionOverflow(VmConstant *lhs, VmConstant *rhs)
 {
 	if(lhs->type == VmType::Int)
diff --git a/NULLC/InstructionTreeVmCommon.h b/NULLC/InstructionTreeVmCommon.h
index d389d43..cf82967 100644
--- a/NULLC/InstructionTreeVmCommon.h
+++ b/NULLC/InstructionTreeVmCommon.h
@@ -36,6 +36,7 @@ bool DoesConstantIntegerMatch(VmValue* value, long long number);
 bool DoesConstantMatchEither(VmValue* value, int iValue, double dValue, long long lValue);
 
 bool IsConstantZero(VmValue* value);
+bool IsConstantNegativeZero(VmValue* value);
 bool IsConstantDivisionOverflow(VmConstant *lhs, VmConstant *rhs);
 bool IsConstantOne(VmValue* value);
 
-- 
2.43.0


From fe045d799a95b97bc38d966eca0c433a3b3574f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:45 +0000
Subject: [PATCH 036/107] fix: class constants of small types were not
 converted to their type

---
 NULLC/ExpressionTree.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 7bd5fb6..e613a84 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -10453,6 +10453,22 @@ void AnalyzeClassConstants(ExpressionContext &ctx, SynBase *source, TypeBase *ty
 			value = new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(constant, ctx.typeInt, 0);
 		}
 
+		// Operations on small types have a wider result, constant has to fit the type
+		if(ExprIntegerLiteral *node = getType<ExprIntegerLiteral>(value))
+		{
+			if(node->type == ctx.typeBool)
+				value = new (ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(node->source, node->type, node->value != 0);
+			else if(node->type == ctx.typeChar)
+				value = new (ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(node->source, node->type, (signed char)node->value);
+			else if(node->type == ctx.typeShort)
+				value = new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(node->source, node->type, short(node->value));
+		}
+		else if(ExprRationalLiteral *node = getType<ExprRationalLiteral>(value))
+		{
+			if(node->type == ctx.typeFloat)
+				value = new (ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(node->source, node->type, float(node->value));
+		}
+
 		for(ConstantData *curr = target.head; curr; curr = curr->next)
 		{
 			if(constant->name->name == curr->name->name)
-- 
2.43.0


From 6e20477dea9daa5b4d593e4dc042352d316fddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:51 +0000
Subject: [PATCH 037/107] fix: negation of the smallest int during constant
 evaluation did not wrap

---
 NULLC/ExpressionEval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index f4a46bf..32b187f 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1407,7 +1407,7 @@ ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
 			case SYN_UNARY_OP_PLUS:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
 			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, value->type == ctx.ctx.typeLong ? -result : int(-result)));
 			case SYN_UNARY_OP_BIT_NOT:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
 			case SYN_UNARY_OP_LOGICAL_NOT:
-- 
2.43.0


From 016886554e53d9cf128e581cf2046b731b3cab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 038/107] fix: logical not of an integer was not a boolean
 constant during constant evaluation

---
 NULLC/ExpressionEval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index 32b187f..b33d79a 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1411,7 +1411,7 @@ ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
 			case SYN_UNARY_OP_BIT_NOT:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
 			case SYN_UNARY_OP_LOGICAL_NOT:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, !result));
+				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !result));
 			default:
 				assert(!"unknown unary operation");
 			}
-- 
2.43.0


From 35edf00c806cba2d18ce685aaa822319acb4f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 039/107] fix: compile-time evaluation narrowed intermediate
 results and kept wide results of stores

---
 NULLC/ExpressionEval.cpp | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index b33d79a..42de3ed 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -931,6 +931,26 @@ ExprBase* CheckType(ExprBase* expression, ExprBase *value)
 	return value;
 }
 
+// Operations on small types are performed in a wider type, this gives the value that is placed in memory
+ExprBase* CreateNarrowed(ExpressionEvalContext &ctx, ExprBase *value)
+{
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
+	{
+		if(expr->type == ctx.ctx.typeChar)
+			return new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expr->source, expr->type, (signed char)expr->value);
+
+		if(expr->type == ctx.ctx.typeShort)
+			return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expr->source, expr->type, (short)expr->value);
+	}
+	else if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
+	{
+		if(expr->type == ctx.ctx.typeFloat)
+			return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expr->source, expr->type, (float)expr->value);
+	}
+
+	return value;
+}
+
 ExprBase* EvaluateVoid(ExpressionEvalContext &ctx, ExprBase *expression)
 {
 	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
@@ -1048,7 +1068,7 @@ ExprBase* EvaluatePreModify(ExpressionEvalContext &ctx, ExprPreModify *expressio
 	if(!CreateStore(ctx, ptr, modified))
 		return NULL;
 
-	return CheckType(expression, modified);
+	return CheckType(expression, CreateNarrowed(ctx, modified));
 }
 
 ExprBase* EvaluatePostModify(ExpressionEvalContext &ctx, ExprPostModify *expression)
@@ -1103,10 +1123,10 @@ ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
 					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, expr->value != 0.0));
 
 				if(expression->type == ctx.ctx.typeChar)
-					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)expr->value));
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeChar, (int)expr->value));
 
 				if(expression->type == ctx.ctx.typeShort)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)expr->value));
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (int)expr->value));
 
 				if(expression->type == ctx.ctx.typeInt)
 					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)expr->value));
@@ -1120,10 +1140,10 @@ ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
 					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, result != 0));
 
 				if(expression->type == ctx.ctx.typeChar)
-					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)result));
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeChar, (int)result));
 
 				if(expression->type == ctx.ctx.typeShort)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)result));
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (int)result));
 
 				if(expression->type == ctx.ctx.typeInt)
 					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)result));
@@ -1139,7 +1159,7 @@ ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
 			if(TryTakeDouble(value, result))
 			{
 				if(expression->type == ctx.ctx.typeFloat)
-					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, (float)result));
+					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, result));
 
 				if(expression->type == ctx.ctx.typeDouble)
 					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, result));
@@ -1567,7 +1587,7 @@ ExprBase* EvaluateAssignment(ExpressionEvalContext &ctx, ExprAssignment *express
 	if(!CreateStore(ctx, lhs, rhs))
 		return NULL;
 
-	return CheckType(expression, rhs);
+	return CheckType(expression, CreateNarrowed(ctx, rhs));
 }
 
 ExprBase* EvaluateMemberAccess(ExpressionEvalContext &ctx, ExprMemberAccess *expression)
@@ -1697,7 +1717,7 @@ ExprBase* EvaluateReturn(ExpressionEvalContext &ctx, ExprReturn *expression)
 	if(ctx.stackFrames.empty())
 		return Report(ctx, "ERROR: no stack frame to return from");
 
-	frame->returnValue = value;
+	frame->returnValue = CreateNarrowed(ctx, value);
 
 	if(expression->coroutineStateUpdate)
 	{
@@ -1740,7 +1760,7 @@ ExprBase* EvaluateYield(ExpressionEvalContext &ctx, ExprYield *expression)
 	if(ctx.stackFrames.empty())
 		return Report(ctx, "ERROR: no stack frame to return from");
 
-	frame->returnValue = value;
+	frame->returnValue = CreateNarrowed(ctx, value);
 
 	if(expression->coroutineStateUpdate)
 	{
-- 
2.43.0


From c4e5cb2d173b024be8996a661a5ecba53704d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:00 +0000
Subject: [PATCH 040/107] fix: expression evaluator ran into the next switch
 case after continue or return

---
 NULLC/ExpressionEval.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index 42de3ed..e66b489 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -3077,6 +3077,10 @@ ExprBase* EvaluateSwitch(ExpressionEvalContext &ctx, ExprSwitch *expression)
 
 			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
 		}
+
+		// On continue of an outer loop and on return, next blocks are not executed
+		if(frame->continueDepth || frame->returnValue)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
 	}
 
 	if(expression->defaultBlock)
-- 
2.43.0


From d6050597257d9f1d61eab57b57b868f7075675e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:38 +0000
Subject: [PATCH 041/107] fix: float conversion did not narrow its argument in
 the expression evaluator

---
 NULLC/ExpressionEval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index e66b489..2435084 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -2147,7 +2147,7 @@ ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunc
 		if(!TryTakeDouble(arguments[0], value))
 			return Report(ctx, "ERROR: failed to evaluate value");
 
-		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, value));
+		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, float(value)));
 	}
 	else if(ptr->data->name->name == InplaceStr("double") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
 	{
-- 
2.43.0


From 076164fcf459c4f7e65f7b82474e323979eae3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:47 +0000
Subject: [PATCH 042/107] fix: intermediate code evaluator treated a function
 constant as a null function in conditions

---
 NULLC/InstructionTreeVmEval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 2c96ed6..81b80a3 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -824,7 +824,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		assert(arguments[1]->type == VmType::Block && arguments[1]->bValue);
 		assert(arguments[2]->type == VmType::Block && arguments[2]->bValue);
 
-		*nextBlock = arguments[0]->iValue == 0 ? arguments[1]->bValue : arguments[2]->bValue;
+		*nextBlock = arguments[0]->iValue == 0 && !arguments[0]->fValue ? arguments[1]->bValue : arguments[2]->bValue;
 
 		return NULL;
 	case VM_INST_JUMP_NZ:
@@ -832,7 +832,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		assert(arguments[1]->type == VmType::Block && arguments[1]->bValue);
 		assert(arguments[2]->type == VmType::Block && arguments[2]->bValue);
 
-		*nextBlock = arguments[0]->iValue != 0 ? arguments[1]->bValue : arguments[2]->bValue;
+		*nextBlock = arguments[0]->iValue != 0 || arguments[0]->fValue ? arguments[1]->bValue : arguments[2]->bValue;
 
 		return NULL;
 	case VM_INST_CALL:
-- 
2.43.0


From 3c9f09f81c6598c711adb624a8e458d3685cde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:54 +0000
Subject: [PATCH 043/107] fix: compare pointers by address in the intermediate
 code evaluator

---
 NULLC/InstructionTreeVmEval.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 81b80a3..067c677 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -448,6 +448,21 @@ void CopyConstantRaw(InstructionVMEvalContext &ctx, char *dst, unsigned dstSize,
 	}
 }
 
+bool IsSamePointer(InstructionVMEvalContext &ctx, VmConstant *lhs, VmConstant *rhs)
+{
+	if(lhs->container == rhs->container)
+		return lhs->iValue == rhs->iValue;
+
+	// Pointer to a variable might be compared to an address of the same variable that was loaded from memory
+	unsigned long long lhsValue = 0;
+	CopyConstantRaw(ctx, (char*)&lhsValue, sizeof(lhsValue), lhs, lhs->type.size);
+
+	unsigned long long rhsValue = 0;
+	CopyConstantRaw(ctx, (char*)&rhsValue, sizeof(rhsValue), rhs, rhs->type.size);
+
+	return lhsValue == rhsValue;
+}
+
 VmConstant* EvaluateOperand(InstructionVMEvalContext &ctx, VmValue *value)
 {
 	InstructionVMEvalContext::StackFrame *frame = ctx.stackFrames.back();
@@ -1084,7 +1099,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		else if(arguments[0]->type == VmType::Long)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue == arguments[1]->lValue);
 		else if(arguments[0]->type.type == VM_TYPE_POINTER)
-			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue == arguments[1]->iValue && arguments[0]->container == arguments[1]->container);
+			return CreateConstantInt(ctx.allocator, NULL, IsSamePointer(ctx, arguments[0], arguments[1]));
 
 		break;
 	case VM_INST_NOT_EQUAL:
@@ -1114,7 +1129,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		else if(arguments[0]->type == VmType::Long)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue != arguments[1]->lValue);
 		else if(arguments[0]->type.type == VM_TYPE_POINTER)
-			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue != arguments[1]->iValue || arguments[0]->container != arguments[1]->container);
+			return CreateConstantInt(ctx.allocator, NULL, !IsSamePointer(ctx, arguments[0], arguments[1]));
 
 		break;
 	case VM_INST_SHL:
@@ -1367,7 +1382,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			else if(arguments[0]->type == VmType::Long)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue == rhs->lValue);
 			else if(arguments[0]->type.type == VM_TYPE_POINTER)
-				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue == rhs->iValue && arguments[0]->container == rhs->container);
+				return CreateConstantInt(ctx.allocator, NULL, IsSamePointer(ctx, arguments[0], rhs));
 		}
 		else
 		{
@@ -1387,7 +1402,7 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			else if(arguments[0]->type == VmType::Long)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->lValue != rhs->lValue);
 			else if(arguments[0]->type.type == VM_TYPE_POINTER)
-				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue != rhs->iValue || arguments[0]->container != rhs->container);
+				return CreateConstantInt(ctx.allocator, NULL, !IsSamePointer(ctx, arguments[0], rhs));
 		}
 		else
 		{
-- 
2.43.0


From 86c076e429b44ef554536efd942d371898369a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:29 +0000
Subject: [PATCH 044/107] fix: nesting depth of a source text is limited, trace
 labels of any length, register overflow while allocating block exits,
 constants over 64 KB

---
 NULLC/InstructionTreeRegVmLower.cpp | 17 +++++++---
 NULLC/ParseTree.cpp                 | 49 +++++++++++++++++++++++++++--
 NULLC/ParseTree.h                   |  1 +
 NULLC/Trace.h                       |  6 +++-
 4 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 1e43060..f58a19a 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1192,8 +1192,6 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 			VmConstant *constantRhs = getType<VmConstant>(inst->arguments[2]);
 
-			assert((unsigned short)inst->arguments[2]->type.size == inst->arguments[2]->type.size);
-
 			if(constantRhs && inst->arguments[2]->type.type == VM_TYPE_STRUCT)
 			{
 				if(unsigned constantIndex = TryLowerConstantToMemory(lowBlock, inst->arguments[2]))
@@ -1309,8 +1307,6 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 			VmConstant *constantRhs = getType<VmConstant>(inst->arguments[2]);
 
-			assert((unsigned short)inst->arguments[2]->type.size == inst->arguments[2]->type.size);
-
 			if(constantRhs && inst->arguments[2]->type.type == VM_TYPE_STRUCT)
 			{
 				if(unsigned constantIndex = TryLowerConstantToMemory(lowBlock, inst->arguments[2]))
@@ -3366,6 +3362,13 @@ void AllocateLiveInOutRegisters(ExpressionContext &ctx, RegVmLoweredFunction *lo
 					lowFunction->AllocateRegister(liveOut, k, false);
 			}
 
+			if(lowFunction->hasRegisterOverflow)
+			{
+				lowFunction->registerOverflowLocation = liveOut;
+
+				return;
+			}
+
 			liveOut->regVmAllocated = true;
 
 			if(liveOut->color != 0)
@@ -3393,6 +3396,9 @@ void AllocateLiveInOutRegisters(ExpressionContext &ctx, RegVmLoweredFunction *lo
 		VmBlock *curr = vmBlock->dominanceChildren[i];
 
 		AllocateLiveInOutRegisters(ctx, lowFunction, curr);
+
+		if(lowFunction->hasRegisterOverflow)
+			return;
 	}
 
 	// Clear register users
@@ -3556,6 +3562,9 @@ RegVmLoweredFunction* RegVmLowerFunction(ExpressionContext &ctx, RegVmLoweredMod
 
 	AllocateLiveInOutRegisters(ctx, lowFunction, vmFunction->firstBlock);
 
+	if(lowFunction->hasRegisterOverflow)
+		return lowFunction;
+
 	for(unsigned i = 0; i < lowFunction->colorRegisters.size(); i++)
 		assert(lowFunction->colorRegisters[i] == NULL);
 
diff --git a/NULLC/ParseTree.cpp b/NULLC/ParseTree.cpp
index e7b332b..07e446b 100644
--- a/NULLC/ParseTree.cpp
+++ b/NULLC/ParseTree.cpp
@@ -331,6 +331,7 @@ ParseContext::ParseContext(Allocator *allocator, int optimizationLevel, ArrayVie
 	expressionGroupDepth = 0;
 	expressionBlockDepth = 0;
 	statementBlockDepth = 0;
+	nestingDepth = 0;
 
 	errorHandlerActive = false;
 	errorPos = NULL;
@@ -523,6 +524,36 @@ SynConstantSet* ParseConstantSet(ParseContext &ctx);
 SynClassStaticIf* ParseClassStaticIf(ParseContext &ctx, bool nested);
 IntrusiveList<SynCallArgument> ParseCallArguments(ParseContext &ctx);
 
+// Syntax tree is handled recursively, so the depth of the tree has to be limited
+const unsigned nestingLimit = 8192;
+
+void CheckNesting(ParseContext &ctx, unsigned depth)
+{
+	if(depth >= nestingLimit)
+		Stop(ctx, ctx.Current(), "ERROR: reached nesting limit of %d", nestingLimit);
+}
+
+struct ParseNestingScope
+{
+	ParseNestingScope(ParseContext &ctx): ctx(ctx)
+	{
+		CheckNesting(ctx, ctx.nestingDepth);
+
+		ctx.nestingDepth++;
+	}
+
+	~ParseNestingScope()
+	{
+		ctx.nestingDepth--;
+	}
+
+	ParseContext &ctx;
+
+private:
+	ParseNestingScope(const ParseNestingScope&);
+	ParseNestingScope& operator=(const ParseNestingScope&);
+};
+
 SynBase* ParseTerminalType(ParseContext &ctx, bool &shrBorrow)
 {
 	Lexeme *start = ctx.currentLexeme;
@@ -664,6 +695,8 @@ SynBase* ParseTerminalType(ParseContext &ctx, bool &shrBorrow)
 
 SynBase* ParseType(ParseContext &ctx, bool *shrBorrow, bool onlyType)
 {
+	ParseNestingScope nestingScope(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	if(ctx.nonTypeLocations.find(unsigned(start - ctx.firstLexeme) + 1))
@@ -692,8 +725,10 @@ SynBase* ParseType(ParseContext &ctx, bool *shrBorrow, bool onlyType)
 		}
 	}
 
-	while(ctx.At(lex_obracket) || ctx.At(lex_ref))
+	for(unsigned depth = ctx.nestingDepth; ctx.At(lex_obracket) || ctx.At(lex_ref); depth++)
 	{
+		CheckNesting(ctx, depth);
+
 		if(ctx.At(lex_obracket))
 		{
 			IntrusiveList<SynBase> sizes;
@@ -1101,8 +1136,10 @@ IntrusiveList<SynCallArgument> ParseCallArguments(ParseContext &ctx)
 
 SynBase* ParsePostExpressions(ParseContext &ctx, SynBase *node)
 {
-	while(ctx.At(lex_point) || ctx.At(lex_obracket) || ctx.At(lex_oparen) || ctx.At(lex_with))
+	for(unsigned depth = ctx.nestingDepth; ctx.At(lex_point) || ctx.At(lex_obracket) || ctx.At(lex_oparen) || ctx.At(lex_with); depth++)
 	{
+		CheckNesting(ctx, depth);
+
 		Lexeme *pos = ctx.currentLexeme;
 
 		if(ctx.Consume(lex_point))
@@ -1271,6 +1308,8 @@ SynBase* ParseComplexTerminal(ParseContext &ctx)
 
 SynBase* ParseTerminal(ParseContext &ctx)
 {
+	ParseNestingScope nestingScope(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	if(ctx.Consume(lex_true))
@@ -1425,6 +1464,8 @@ SynBase* ParseArithmetic(ParseContext &ctx)
 
 SynBase* ParseTernaryExpr(ParseContext &ctx)
 {
+	ParseNestingScope nestingScope(ctx);
+
 	if(SynBase *value = ParseArithmetic(ctx))
 	{
 		Lexeme *pos = ctx.currentLexeme;
@@ -1462,6 +1503,8 @@ SynBase* ParseTernaryExpr(ParseContext &ctx)
 
 SynBase* ParseAssignment(ParseContext &ctx)
 {
+	ParseNestingScope nestingScope(ctx);
+
 	if(SynBase *lhs = ParseTernaryExpr(ctx))
 	{
 		Lexeme *pos = ctx.currentLexeme;
@@ -2907,6 +2950,8 @@ SynShortFunctionDefinition* ParseShortFunctionDefinition(ParseContext &ctx)
 
 SynBase* ParseStatement(ParseContext &ctx)
 {
+	ParseNestingScope nestingScope(ctx);
+
 	if(SynBase *node = ParseClassDefinition(ctx))
 		return node;
 
diff --git a/NULLC/ParseTree.h b/NULLC/ParseTree.h
index 014c461..3821411 100644
--- a/NULLC/ParseTree.h
+++ b/NULLC/ParseTree.h
@@ -154,6 +154,7 @@ struct ParseContext
 	unsigned expressionGroupDepth;
 	unsigned expressionBlockDepth;
 	unsigned statementBlockDepth;
+	unsigned nestingDepth;
 
 	SmallArray<SynNamespaceElement*, 32> namespaceList;
 	SynNamespaceElement *currentNamespace;
diff --git a/NULLC/Trace.h b/NULLC/Trace.h
index 164e3fa..41f365d 100644
--- a/NULLC/Trace.h
+++ b/NULLC/Trace.h
@@ -280,7 +280,7 @@ namespace NULLC
 		TraceContext &context = *traceContext;
 
 		while(context.depth > depth)
-			TraceLeave(0.0, 0, 0);
+			TraceLeave(0.0, ~0u, 0);
 	}
 
 	inline void TraceLabel(const char *str)
@@ -316,6 +316,10 @@ namespace NULLC
 		if(!count)
 			return;
 
+		// Label might be created from a source text of any length
+		if(count + 1 >= context.labels.max)
+			count = context.labels.max - 2;
+
 		if(context.labels.count + count + 1 >= context.labels.max || context.events.count == context.events.max)
 			TraceDump();
 
-- 
2.43.0


From 99fad5f05b1b74e09fc6d69ca92b3a559932db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:29 +0000
Subject: [PATCH 045/107] fix: error about an import that could not be opened
 names the line

---
 NULLC/ParseTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/ParseTree.cpp b/NULLC/ParseTree.cpp
index 07e446b..07f6903 100644
--- a/NULLC/ParseTree.cpp
+++ b/NULLC/ParseTree.cpp
@@ -3094,7 +3094,7 @@ const char* GetBytecodeFromPath(ParseContext &ctx, Lexeme *start, IntrusiveList<
 
 				ctx.errorInfo.push_back(new (ctx.get<ErrorInfo>()) ErrorInfo(ctx.allocator, messageStart, messageEnd, start, start, pos));
 
-				AddErrorLocationInfo(ctx.code, pos, ctx.errorBufLocation, ctx.errorBufSize - unsigned(ctx.errorBufLocation - ctx.errorBuf));
+				AddErrorLocationInfo(ctx.code, pos ? pos : start->pos, ctx.errorBufLocation, ctx.errorBufSize - unsigned(ctx.errorBufLocation - ctx.errorBuf));
 
 				ctx.errorBufLocation += strlen(ctx.errorBufLocation);
 			}
-- 
2.43.0


From d640b73a4a12928ba1198c0247dae542f85c6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 046/107] fix: compiler crashes on ill-formed programs (failed
 generic instances, class named before a dot, coroutine prototypes, namespace
 variables without a value)

---
 NULLC/ExpressionTree.cpp      | 18 ++++++++++++++----
 NULLC/InstructionTreeLlvm.cpp |  4 ++--
 NULLC/ParseTree.cpp           |  2 ++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index e613a84..55e37f1 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -2747,6 +2747,9 @@ ExprBase* CreateAssignment(ExpressionContext &ctx, SynBase *source, ExprBase *lh
 
 	rhs = CreateCast(ctx, source, rhs, lhs->type, false);
 
+	if(isType<TypeError>(rhs->type))
+		return new (ctx.get<ExprError>()) ExprError(source, ctx.GetErrorType(), lhs, rhs);
+
 	return new (ctx.get<ExprAssignment>()) ExprAssignment(source, lhs->type, wrapped, rhs);
 }
 
@@ -7625,12 +7628,19 @@ ExprBase* CreateFunctionCallFinal(ExpressionContext &ctx, SynBase *source, ExprB
 					{
 						ExprClassDefinition *definition = getType<ExprClassDefinition>(proto->instances[k]);
 
+						// Skip instances that have failed to instantiate
+						if(!definition)
+							continue;
+
 						ExprBase *emptyContext = new (ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(source, ctx.GetReferenceType(definition->classType));
 
 						if(bestOverload.function->scope->ownerType->isGeneric)
 						{
 							FunctionValue instance = CreateGenericFunctionInstance(ctx, source, FunctionValue(source, el, emptyContext), generics, arguments, false);
 
+							if(!instance)
+								return new (ctx.get<ExprFunctionCall>()) ExprFunctionCall(source, ctx.GetErrorType(), value, actualArguments);
+
 							bestOverload.function = instance.function;
 
 							function = instance.function;
@@ -8472,7 +8482,7 @@ ExprBase* AnalyzeVariableDefinition(ExpressionContext &ctx, SynVariableDefinitio
 		if(isType<TypeError>(initializer->type))
 		{
 			if(!conflict)
-				ctx.scope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+				(ctx.scope->type == SCOPE_NAMESPACE ? ctx.globalScope : ctx.scope)->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
 
 			return new (ctx.get<ExprError>()) ExprError(syntax, ctx.GetErrorType(), initializer);
 		}
@@ -8484,7 +8494,7 @@ ExprBase* AnalyzeVariableDefinition(ExpressionContext &ctx, SynVariableDefinitio
 		if(isType<TypeError>(initializer->type))
 		{
 			if(!conflict)
-				ctx.scope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+				(ctx.scope->type == SCOPE_NAMESPACE ? ctx.globalScope : ctx.scope)->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
 
 			return new (ctx.get<ExprError>()) ExprError(syntax, ctx.GetErrorType(), initializer);
 		}
@@ -9855,9 +9865,9 @@ InplaceStr GetTypeConstructorName(InplaceStr functionName)
 	// TODO: add type scopes and lookup owner namespace
 	for(const char *pos = functionName.end; pos > functionName.begin; pos--)
 	{
-		if(*pos == '.')
+		if(*(pos - 1) == '.')
 		{
-			functionName = InplaceStr(pos + 1, functionName.end);
+			functionName = InplaceStr(pos, functionName.end);
 			break;
 		}
 	}
diff --git a/NULLC/InstructionTreeLlvm.cpp b/NULLC/InstructionTreeLlvm.cpp
index 21ff981..989dd04 100644
--- a/NULLC/InstructionTreeLlvm.cpp
+++ b/NULLC/InstructionTreeLlvm.cpp
@@ -2569,8 +2569,8 @@ LlvmModule* CompileLlvm(ExpressionContext &exprCtx, ExprModule *expression)
 
 		ctx.functions[function->functionIndex] = llvmFunction;
 
-		// Create an external function call wrapper
-		if(function->importModule == NULL && function->isPrototype)
+		// Create an external function call wrapper (coroutine can't be implemented externally)
+		if(function->importModule == NULL && function->isPrototype && !function->coroutine)
 			CompileLlvmExternalFunctionWrapper(ctx, function);
 	}
 
diff --git a/NULLC/ParseTree.cpp b/NULLC/ParseTree.cpp
index 07f6903..a6564f3 100644
--- a/NULLC/ParseTree.cpp
+++ b/NULLC/ParseTree.cpp
@@ -1914,6 +1914,8 @@ SynBlock* ParseBlock(ParseContext &ctx)
 
 SynIfElse* ParseIfElse(ParseContext &ctx, bool forceStaticIf)
 {
+	ParseNestingScope nestingScope(ctx);
+
 	Lexeme *start = ctx.currentLexeme;
 
 	bool staticIf = forceStaticIf || ctx.Consume(lex_at);
-- 
2.43.0


From 04680bc176aa4550ce7aecaea32826a6a867fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 047/107] fix: member function defined inside of an expression
 crashed the compiler

---
 NULLC/ExpressionTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 55e37f1..875eb2e 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -1566,10 +1566,10 @@ void ExpressionContext::HideFunction(FunctionData *function)
 	// Don't have to remove internal functions since they are never added to lookup
 	if(function->name->name.begin && *function->name->name.begin != '$')
 	{
-		if(scope->type == SCOPE_TYPE || scope->type == SCOPE_NAMESPACE)
+		if(function->scope->type == SCOPE_TYPE || function->scope->type == SCOPE_NAMESPACE)
 			globalScope->idLookupMap.remove(function->nameHash, IdentifierLookupResult(function));
 		else
-			scope->idLookupMap.remove(function->nameHash, IdentifierLookupResult(function));
+			function->scope->idLookupMap.remove(function->nameHash, IdentifierLookupResult(function));
 	}
 
 	SmallArray<FunctionData*, 2> &scopeFunctions = function->scope->functions;
-- 
2.43.0


From 2a760d58bb10c1ac5059706ec6bf3915d3b566cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:56 +0000
Subject: [PATCH 048/107] fix: zero initialization of a void member in an
 extendable class failed an assertion

---
 NULLC/InstructionTreeVm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index b8eb1a0..906de78 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -3585,7 +3585,7 @@ VmValue* CompileVmZeroInitialize(ExpressionContext &ctx, VmModule *module, ExprZ
 		if(vmType.size != 0)
 			CreateSetRange(module, node->source, address, vmType.size / 4, CreateConstantZero(ctx.allocator, node->source, VmType::Int), 4);
 	}
-	else// if(vmType != VmType::Void)
+	else if(vmType != VmType::Void)
 	{
 		assert(!"unknown type");
 	}
-- 
2.43.0


From 0e43b0f03fe34a1cc7553903376d500ead9746d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 049/107] fix: member initializer naming a member of an
 enclosing class accessed it through the wrong object

---
 NULLC/ExpressionTree.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 875eb2e..42a1666 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -4189,6 +4189,21 @@ ExprBase* CreateVariableAccess(ExpressionContext &ctx, SynBase *source, Variable
 		if(!thisAccess)
 			Stop(ctx, source, "ERROR: 'this' variable is not available");
 
+		// The variable might belong to a different class, which encloses the class of 'this'
+		if(TypeRef *thisType = getType<TypeRef>(thisAccess->type))
+		{
+			if(TypeStruct *structType = getType<TypeStruct>(thisType->subType))
+			{
+				bool found = false;
+
+				for(MemberHandle *curr = structType->members.head; curr && !found; curr = curr->next)
+					found = curr->variable == variable;
+
+				if(!found)
+					Stop(ctx, source, "ERROR: 'this' variable of type '%.*s' doesn't have a member '%.*s' of the enclosing class", FMT_ISTR(structType->name), FMT_ISTR(variable->name->name));
+			}
+		}
+
 		// Member access only shifts an address, so we are left with a reference to get value from
 		ExprMemberAccess *shift = new (ctx.get<ExprMemberAccess>()) ExprMemberAccess(source, ctx.GetReferenceType(variable->type), thisAccess, new (ctx.get<VariableHandle>()) VariableHandle(source, variable));
 
-- 
2.43.0


From 7c8b380fb61ce4c74307f89f294a4ffecd9d1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 050/107] fix: names with equal short hashes were taken for the
 same name (aR and b1)

---
 NULLC/StrAlgo.cpp             | 19 ++++++++-----------
 NULLC/translation/runtime.cpp |  5 +++--
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/NULLC/StrAlgo.cpp b/NULLC/StrAlgo.cpp
index 1f2111c..82406d0 100644
--- a/NULLC/StrAlgo.cpp
+++ b/NULLC/StrAlgo.cpp
@@ -1,34 +1,31 @@
 #include "StrAlgo.h"
 
+// Names are identified by their hash (FNV-1a), the function has to keep short names that differ in a few characters apart
+static const unsigned int hashStart = 2166136261u;
+static const unsigned int hashPrime = 16777619u;
+
 unsigned int NULLC::GetStringHash(const char *str)
 {
-	unsigned int hash = 5381;
-	int c;
-	while((c = *str++) != 0)
-		hash = ((hash << 5) + hash) + c;
-	return hash;
+	return StringHashContinue(hashStart, str);
 }
 
 unsigned int NULLC::GetStringHash(const char *str, const char *end)
 {
-	unsigned int hash = 5381;
-	while(str != end)
-		hash = ((hash << 5) + hash) + (*str++);
-	return hash;
+	return StringHashContinue(hashStart, str, end);
 }
 
 unsigned int NULLC::StringHashContinue(unsigned int hash, const char *str)
 {
 	int c;
 	while((c = *str++) != 0)
-		hash = ((hash << 5) + hash) + c;
+		hash = (hash ^ (unsigned char)c) * hashPrime;
 	return hash;
 }
 
 unsigned int NULLC::StringHashContinue(unsigned int hash, const char *str, const char *end)
 {
 	while(str != end)
-		hash = ((hash << 5) + hash) + (*str++);
+		hash = (hash ^ (unsigned char)(*str++)) * hashPrime;
 	return hash;
 }
 
diff --git a/NULLC/translation/runtime.cpp b/NULLC/translation/runtime.cpp
index f69a7e4..62d9c22 100644
--- a/NULLC/translation/runtime.cpp
+++ b/NULLC/translation/runtime.cpp
@@ -1660,10 +1660,11 @@ __nullcFunctionArray* __nullcGetFunctionTable()
 
 unsigned int __nullcGetStringHash(const char *str)
 {
-	unsigned int hash = 5381;
+	// Same function as NULLC::GetStringHash
+	unsigned int hash = 2166136261u;
 	int c;
 	while((c = *str++) != 0)
-		hash = ((hash << 5) + hash) + c;
+		hash = (hash ^ (unsigned char)c) * 16777619u;
 	return hash;
 }
 
-- 
2.43.0


From 69ca024a6a92dbe13ef456e60a687a8cfee3ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:36 +0000
Subject: [PATCH 051/107] fix: line of a missing return value error when the
 function has no other code

---
 NULLC/InstructionTreeVm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 906de78..1c17e4e 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -3760,7 +3760,7 @@ VmValue* CompileVmFunctionDefinition(ExpressionContext &ctx, VmModule *module, E
 	for(ExprBase *value = node->expressions.head; value; value = value->next)
 		CompileVm(ctx, module, value);
 
-	CreateAbortNoReturn(module, NULL);
+	CreateAbortNoReturn(module, node->source);
 
 	// Restore state
 	module->currentFunction = currentFunction;
-- 
2.43.0


From 236711a7a4d06cb593846ee5fdf08b3ec1f50f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 052/107] fix: comparison of a generic function with nullptr
 crashed the compiler

---
 NULLC/ExpressionTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 42a1666..153c8ce 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -3020,6 +3020,12 @@ ExprBase* CreateBinaryOp(ExpressionContext &ctx, SynBase *source, SynBinaryOpTyp
 	{
 		if(lhs->type != rhs->type)
 		{
+			if(lhs->type == ctx.typeNullPtr || rhs->type == ctx.typeNullPtr)
+			{
+				if(!AssertValueExpression(ctx, source, lhs) || !AssertValueExpression(ctx, source, rhs))
+					return new (ctx.get<ExprBinaryOp>()) ExprBinaryOp(source, ctx.GetErrorType(), op, lhs, rhs);
+			}
+
 			if(lhs->type == ctx.typeNullPtr)
 				lhs = CreateCast(ctx, source, lhs, rhs->type, false);
 
-- 
2.43.0


From a903f3e15aff6294d46fe2768ce2e194231f435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:52 +0000
Subject: [PATCH 053/107] fix: link error about a redefined function read the
 module name outside of its buffer

---
 NULLC/Linker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index f2f7761..d25046c 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -600,8 +600,8 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 				// Try to find module where previous definition was found
 				for(unsigned k = 0; k < exModules.size(); k++)
 				{
-					if(exModules[k].funcStart >= index && index < exModules[k].funcStart + exModules[k].funcCount)
-						NULLC::SafeSprintf(linkError, LINK_ERROR_BUFFER_SIZE, "Link Error: redefinition of module %s function '%s'", symbolInfo + exModules[k].nameOffset, symbolInfo + fInfo->offsetToName);
+					if(exModules[k].funcStart <= index && index < exModules[k].funcStart + exModules[k].funcCount)
+						NULLC::SafeSprintf(linkError, LINK_ERROR_BUFFER_SIZE, "Link Error: redefinition of module %s function '%s'", exSymbols.data + exModules[k].nameOffset, symbolInfo + fInfo->offsetToName);
 				}
 				return false;
 			}
-- 
2.43.0


From 0a9282c18e21bf1cd3f97a6ed3999fd5af862da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 054/107] fix: source lines of imported modules in a listing
 started at random places

---
 NULLC/InstructionTreeRegVmLowerGraph.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLowerGraph.cpp b/NULLC/InstructionTreeRegVmLowerGraph.cpp
index 864f5c6..bf714e7 100644
--- a/NULLC/InstructionTreeRegVmLowerGraph.cpp
+++ b/NULLC/InstructionTreeRegVmLowerGraph.cpp
@@ -696,9 +696,8 @@ void PrintInstruction(InstructionRegVmLowerGraphContext &ctx, char *constantData
 		const char *start = lowInstruction->location->pos.begin;
 		const char *end = start + 1;
 
-		// TODO: handle source locations from imported modules
-		while(start > ctx.code && *(start - 1) != '\r' && *(start - 1) != '\n')
-			start--;
+		// Location might belong to the source of an imported module
+		start -= lowInstruction->location->begin->column;
 
 		while(*end && *end != '\r' && *end != '\n')
 			end++;
-- 
2.43.0


From 9f0ae42314d5ca580ea1042763577172da301f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 055/107] fix: for each over a value with a void hasnext or a
 replaced index operator failed assertions

---
 NULLC/ExpressionTree.cpp     |   6 +-
 NULLC/expr_graph.txt         | 393 +++++++++++++++++++++++++++++++++++
 NULLC/inst_graph.txt         |  22 ++
 NULLC/inst_graph_opt.txt     |  22 ++
 NULLC/inst_graph_reg_low.txt |   7 +
 NULLC/syntax_graph.txt       | 110 ++++++++++
 NULLC/time_stats.txt         |  17 ++
 expr_graph.txt               | 230 ++++++++++++++++++++
 syntax_graph.txt             |  18 ++
 9 files changed, 822 insertions(+), 3 deletions(-)
 create mode 100644 NULLC/expr_graph.txt
 create mode 100644 NULLC/inst_graph.txt
 create mode 100644 NULLC/inst_graph_opt.txt
 create mode 100644 NULLC/inst_graph_reg_low.txt
 create mode 100644 NULLC/syntax_graph.txt
 create mode 100644 NULLC/time_stats.txt
 create mode 100644 expr_graph.txt
 create mode 100644 syntax_graph.txt

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 153c8ce..b553de8 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -11379,10 +11379,10 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 
 			ExprBase *arrayIndex = CreateArrayIndex(ctx, curr, value, arguments);
 
-			assert(isType<ExprDereference>(arrayIndex));
-
 			if(ExprDereference *node = getType<ExprDereference>(arrayIndex))
 				arrayIndex = node->value;
+			else
+				Stop(ctx, curr, "ERROR: cannot get a reference to an element of type '%.*s'", FMT_ISTR(value->type->name));
 
 			definitions.push_back(new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(curr, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, variable), CreateAssignment(ctx, curr, CreateVariableAccess(ctx, curr, variable, false), arrayIndex)));
 
@@ -11490,7 +11490,7 @@ ExprFor* AnalyzeForEach(ExpressionContext &ctx, SynForEach *syntax)
 			initializers.push_back(new (ctx.get<ExprVariableDefinition>()) ExprVariableDefinition(sourceInternal, ctx.typeVoid, new (ctx.get<VariableHandle>()) VariableHandle(NULL, iterator), iteratorInitializer));
 
 			// Create condition
-			conditions.push_back(CreateFunctionCall(ctx, curr, CreateMemberAccess(ctx, sourceInternal, CreateVariableAccess(ctx, sourceInternal, iterator, false), new (ctx.get<SynIdentifier>()) SynIdentifier(InplaceStr("hasnext")), false), IntrusiveList<TypeHandle>(), NULL, false));
+			conditions.push_back(CreateConditionCast(ctx, curr, CreateFunctionCall(ctx, curr, CreateMemberAccess(ctx, sourceInternal, CreateVariableAccess(ctx, sourceInternal, iterator, false), new (ctx.get<SynIdentifier>()) SynIdentifier(InplaceStr("hasnext")), false), IntrusiveList<TypeHandle>(), NULL, false)));
 
 			// Create definition
 			ExprBase *call = CreateFunctionCall(ctx, curr, CreateMemberAccess(ctx, sourceInternal, CreateVariableAccess(ctx, sourceInternal, iterator, false), new (ctx.get<SynIdentifier>()) SynIdentifier(InplaceStr("next")), false), IntrusiveList<TypeHandle>(), NULL, false);
diff --git a/NULLC/expr_graph.txt b/NULLC/expr_graph.txt
new file mode 100644
index 0000000..18ae091
--- /dev/null
+++ b/NULLC/expr_graph.txt
@@ -0,0 +1,393 @@
+void ExprModule(){ // SynModule [1:0]-[14:32]
+  ScopeData(SCOPE_EXPLICIT, {}: s0000) @ 0x0-0xc {
+    types{
+      __FinalizeProxy: size(0) align(0) padding(0) from $base$.nc
+    }
+    functions{
+      void ref(int) assert: f0000
+      void ref(int,char[]) assert: f0001
+      int ref(char[],char[]) ==: f0002
+      int ref(char[],char[]) !=: f0003
+      char[] ref(char[],char[]) +: f0004
+      char[] ref(char[] ref,char[]) +=: f0005
+      bool ref(bool) bool: f0006
+      char ref(char) char: f0007
+      short ref(short) short: f0008
+      int ref(int) int: f0009
+      long ref(long) long: f000a
+      float ref(float) float: f000b
+      double ref(double) double: f000c
+      int ref(char) as_unsigned: f0014
+      int ref(short) as_unsigned: f0015
+      long ref(int) as_unsigned: f0016
+      short ref(char[]) short: f0017
+      int ref(char[]) int: f0019
+      long ref(char[]) long: f001b
+      float ref(char[]) float: f001d
+      double ref(char[]) double: f001f
+      void ref ref(int,int) __newS: f0021
+      int[] ref(int,int,int) __newA: f0022
+      auto ref ref(auto ref) duplicate: f0023
+      void ref(auto[] ref,auto[]) __duplicate_array: f0024
+      auto[] ref(auto[]) duplicate: f0025
+      auto ref ref(auto ref,auto ref) replace: f0026
+      void ref(auto ref,auto ref) swap: f0027
+      int ref(auto ref,auto ref) equal: f0028
+      void ref(auto ref,auto ref) assign: f0029
+      void ref(auto[],auto[]) array_copy: f002a
+      void ref(generic,int,generic,int,int) array_copy: f002b
+      void ref() ref(auto ref,__function[] ref) __redirect: f002c
+      void ref() ref(auto ref,__function[] ref) __redirect_ptr: f002d
+      char[] ref ref(char[] ref,int[]) __aassign_itoc: f002e
+      short[] ref ref(short[] ref,int[]) __aassign_itos: f002f
+      float[] ref ref(float[] ref,double[]) __aassign_dtof: f0030
+      typeid ref(auto ref) typeid: f0031
+      int ref(typeid,typeid) ==: f0033
+      int ref(typeid,typeid) !=: f0034
+      int ref(auto ref,auto ref) __rcomp: f0035
+      int ref(auto ref,auto ref) __rncomp: f0036
+      bool ref(auto ref,auto ref) <: f0037
+      bool ref(auto ref,auto ref) <=: f0038
+      bool ref(auto ref,auto ref) >: f0039
+      bool ref(auto ref,auto ref) >=: f003a
+      int ref(auto ref) hash_value: f003b
+      int ref(void ref(int),void ref(int)) __pcomp: f003c
+      int ref(void ref(int),void ref(int)) __pncomp: f003d
+      int ref(auto[],auto[]) __acomp: f003e
+      int ref(auto[],auto[]) __ancomp: f003f
+      int ref() __typeCount: f0040
+      auto[] ref ref(auto[] ref,auto ref) =: f0041
+      auto ref ref(auto ref,auto[] ref) __aaassignrev: f0042
+      auto ref ref(auto[] ref,int) []: f0043
+      int ref(auto ref) isStackPointer: f0044
+      void ref(auto[] ref,typeid,int) auto_array_impl: f0045
+      auto[] ref(typeid,int) auto_array: f0046
+      void ref(auto[] ref,int) __force_size: f0048
+      int ref(auto ref) isCoroutineReset: f0049
+      void ref(auto ref) __assertCoroutine: f004a
+      auto ref[] ref() __getFinalizeList: f004b
+      void ref() __finalizeObjects: f004d
+      bool ref(generic,generic[]) in: f004e
+      bool ref(auto ref,typeid) is_derived_from: f004f
+      void ref ref(void ref,typeid) __assert_derived_from: f0050
+      auto ref(@T ref()) __gen_list: f0051
+      void ref(@T[]) __init_array: f0052
+      void ref(void ref ref,void ref,int,int) __closeUpvalue: f0053
+      int ref() float::str_1247550254_precision$: f0054
+      bool ref() float::str_1247550254_showExponent$: f0055
+      int ref() double::str_1247550254_precision$: f0056
+      bool ref() double::str_1247550254_showExponent$: f0057
+    }
+    variables{
+      __function[] $vtbl3494183789finalize: v0006 @ 0x0 gc_check
+    }
+    aliases{
+      typedef: auto[] auto_array: a0000
+    }
+    ScopeData(SCOPE_TYPE, {bool}: s0013){
+      functions{
+        void ref(bool) bool::bool: f000d
+      }
+    }
+    ScopeData(SCOPE_TYPE, {char}: s0015){
+      functions{
+        void ref(char) char::char: f000e
+      }
+    }
+    ScopeData(SCOPE_TYPE, {short}: s0017){
+      functions{
+        void ref(short) short::short: f000f
+      }
+    }
+    ScopeData(SCOPE_TYPE, {int}: s0019){
+      functions{
+        void ref(int) int::int: f0010
+      }
+    }
+    ScopeData(SCOPE_TYPE, {long}: s001b){
+      functions{
+        void ref(long) long::long: f0011
+      }
+    }
+    ScopeData(SCOPE_TYPE, {float}: s001d){
+      functions{
+        void ref(float) float::float: f0012
+      }
+    }
+    ScopeData(SCOPE_TYPE, {double}: s001f){
+      functions{
+        void ref(double) double::double: f0013
+      }
+    }
+    ScopeData(SCOPE_TYPE, {short}: s0025){
+      functions{
+        char[] ref() short::str: f0018
+      }
+    }
+    ScopeData(SCOPE_TYPE, {int}: s0028){
+      functions{
+        char[] ref() int::str: f001a
+      }
+    }
+    ScopeData(SCOPE_TYPE, {long}: s002b){
+      functions{
+        char[] ref() long::str: f001c
+      }
+    }
+    ScopeData(SCOPE_TYPE, {float}: s002e){
+      functions{
+        char[] ref(int,bool) float::str: f001e
+      }
+    }
+    ScopeData(SCOPE_TYPE, {double}: s0031){
+      functions{
+        char[] ref(int,bool) double::str: f0020
+      }
+    }
+    ScopeData(SCOPE_TYPE, {typeid}: s0048){
+      functions{
+        int ref() typeid::size$: f0032
+      }
+    }
+    ScopeData(SCOPE_TYPE, {auto[]}: s005e){
+      functions{
+        void ref(auto ref,int) auto[]::set: f0047
+      }
+    }
+    ScopeData(SCOPE_TYPE, {__FinalizeProxy}: s0065){
+      functions{
+        void ref() __FinalizeProxy::finalize: f004c
+      }
+    }
+  }
+  ScopeData(SCOPE_EXPLICIT, {}: s0000) @ 0x0-0xc {
+    types{
+      void: size(0) align(0) padding(0)
+      bool: size(1) align(0) padding(0)
+      char: size(1) align(0) padding(0)
+      short: size(2) align(2) padding(0)
+      int: size(4) align(4) padding(0)
+      long: size(8) align(8) padding(0)
+      float: size(4) align(4) padding(0)
+      double: size(8) align(8) padding(0)
+      typeid: size(4) align(4) padding(0)
+      __function: size(4) align(4) padding(0)
+      __nullptr: size(8) align(4) padding(0)
+      generic: generic from $base$.nc
+      auto: size(0) align(0) padding(0)
+      auto ref: size(12) align(4) padding(0) gc_check
+      auto[]: size(16) align(4) padding(0) gc_check
+      list_node: size(8) align(4) padding(0) gc_check
+      list_iterator: size(0) align(0) padding(0)
+    }
+    functions{
+    }
+    variables{
+      list_node list: v00ed @ 0x0 gc_check
+    }
+    aliases{
+    }
+    ScopeData(SCOPE_TYPE, {auto ref}: s0001){
+      variables{
+        typeid type: v0000 @ 0x0 readonly
+        void ref ptr: v0001 @ 0x4 readonly gc_check
+      }
+    }
+    ScopeData(SCOPE_TYPE, {auto[]}: s0002){
+      variables{
+        typeid type: v0002 @ 0x0 readonly
+        void ref ptr: v0003 @ 0x4 readonly gc_check
+        int size: v0004 @ 0xc readonly
+      }
+    }
+    ScopeData(SCOPE_TYPE, {list_node}: s0074){
+      variables{
+        list_node ref next: v00e7 @ 0x0 gc_check
+      }
+    }
+    ScopeData(SCOPE_TYPE, {list_node}: s0075){
+      variables{
+        list_node ref next: v00e7 @ 0x0 gc_check
+      }
+    }
+    ScopeData(SCOPE_TYPE, {list_node}: s0078){
+      functions{
+        list_iterator ref() list_node::start: f0058
+      }
+      variables{
+        list_node ref next: v00e7 @ 0x0 gc_check
+      }
+      ScopeData(SCOPE_FUNCTION, {list_node::start: f0058}: s0079) @ 0x0-0x8 {
+        variables{
+          list_node ref this: v00e8 @ 0x0 gc_check
+          list_iterator ret: v00e9 @ 0x8
+        }
+      }
+    }
+    ScopeData(SCOPE_TYPE, {list_iterator}: s007a){
+      functions{
+        void ref() list_iterator::hasnext: f0059
+      }
+      ScopeData(SCOPE_FUNCTION, {list_iterator::hasnext: f0059}: s007b) @ 0x0-0x8 {
+        variables{
+          list_iterator ref this: v00ea @ 0x0 gc_check
+        }
+      }
+    }
+    ScopeData(SCOPE_TYPE, {list_iterator}: s007c){
+      functions{
+        int ref() list_iterator::next: f005a
+      }
+      ScopeData(SCOPE_FUNCTION, {list_iterator::next: f005a}: s007d) @ 0x0-0xc {
+        variables{
+          list_iterator ref this: v00eb @ 0x0 gc_check
+          int ret: v00ec @ 0x8
+        }
+      }
+    }
+    ScopeData(SCOPE_LOOP, {}: s007e) @ 0x8-0x0 {
+      variables{
+        list_iterator $temp0: v00ee @ 0xffffffff
+        int i: v00ef @ 0x8
+      }
+    }
+  }
+  definitions: {
+    list_iterator ref() ExprFunctionDefinition(list_node::start: f0058){ // SynFunctionDefinition [3:0]-[7:1]
+      contextArgument: void ExprVariableDefinition(list_node ref this: v00e8){
+        initializer: null
+      }
+      arguments: {
+      }
+      coroutineStateRead: null
+      expressions: {
+        void ExprVariableDefinitions(){ // SynVariableDefinitions [5:4]-[5:22]
+          void ExprVariableDefinition(list_iterator ret: v00e9){ // SynVariableDefinition [5:18]-[5:21]
+            initializer: null
+          }
+        }
+        void ExprReturn(){ // SynReturn [6:4]-[6:15]
+          value: list_iterator ExprVariableAccess(ret: v00e9) // SynTypeSimple [6:11]-[6:14]
+          coroutineStateUpdate: null
+          closures: void ExprSequence(){
+          }
+        }
+      }
+    }
+    void ref() ExprFunctionDefinition(list_iterator::hasnext: f0059){ // SynFunctionDefinition [8:0]-[8:30]
+      contextArgument: void ExprVariableDefinition(list_iterator ref this: v00ea){
+        initializer: null
+      }
+      arguments: {
+      }
+      coroutineStateRead: null
+      expressions: {
+        void ExprReturn(){
+          value: void ExprVoid()
+          coroutineStateUpdate: null
+          closures: void ExprSequence(){
+          }
+        }
+      }
+    }
+    int ref() ExprFunctionDefinition(list_iterator::next: f005a){ // SynFunctionDefinition [9:0]-[13:1]
+      contextArgument: void ExprVariableDefinition(list_iterator ref this: v00eb){
+        initializer: null
+      }
+      arguments: {
+      }
+      coroutineStateRead: null
+      expressions: {
+        void ExprVariableDefinitions(){ // SynVariableDefinitions [11:4]-[11:12]
+          void ExprVariableDefinition(int ret: v00ec){ // SynVariableDefinition [11:8]-[11:11]
+            initializer: void ExprZeroInitialize(){
+              address: int ref ExprGetAddress(ret: v00ec) // SynIdentifier [11:8]-[11:11]
+            }
+          }
+        }
+        void ExprReturn(){ // SynReturn [12:4]-[12:15]
+          value: int ExprVariableAccess(ret: v00ec) // SynTypeSimple [12:11]-[12:14]
+          coroutineStateUpdate: null
+          closures: void ExprSequence(){
+          }
+        }
+      }
+    }
+  }
+  setup: {
+    void ExprBlock(){
+      closures: null
+    }
+  }
+  expressions: {
+    void ExprClassDefinition(list_node){ // SynClassDefinition [1:0]-[1:38]
+      variables: {
+        list_node ref next: v00e7 @ 0x0
+      }
+      functions: {
+      }
+      constants: {
+      }
+    }
+    void ExprClassDefinition(list_iterator){ // SynClassDefinition [2:0]-[2:26]
+      variables: {
+      }
+      functions: {
+      }
+      constants: {
+      }
+    }
+    list_iterator ref() ExprFunctionDefinition(list_node::start: f0058); // SynFunctionDefinition [3:0]-[7:1]
+    void ref() ExprFunctionDefinition(list_iterator::hasnext: f0059); // SynFunctionDefinition [8:0]-[8:30]
+    int ref() ExprFunctionDefinition(list_iterator::next: f005a); // SynFunctionDefinition [9:0]-[13:1]
+    void ExprVariableDefinitions(){ // SynVariableDefinitions [14:0]-[14:15]
+      void ExprVariableDefinition(list_node list: v00ed){ // SynVariableDefinition [14:10]-[14:14]
+        initializer: null
+      }
+    }
+    void ExprFor(){ // SynForEach [14:15]-[14:32]
+      initializer: void ExprBlock(){ // SynForEach [14:15]-[14:32]
+        void ExprVariableDefinition(list_iterator $temp0: v00ee){
+          initializer: list_iterator ExprAssignment(){
+            lhs: list_iterator ref ExprGetAddress($temp0: v00ee)
+            rhs: list_iterator ExprFunctionCall(){
+              function: list_iterator ref() ExprFunctionAccess(list_node::start: f0058){ // SynTypeSimple [14:24]-[14:28]
+                context: list_node ref ExprGetAddress(list: v00ed) // SynTypeSimple [14:24]-[14:28]
+              }
+              arguments: {
+              }
+            }
+          }
+        }
+        closures: null
+      }
+      condition: void ExprFunctionCall(){ // SynForEachIterator [14:19]-[14:28]
+        function: void ref() ExprFunctionAccess(list_iterator::hasnext: f0059){
+          context: list_iterator ref ExprGetAddress($temp0: v00ee)
+        }
+        arguments: {
+        }
+      }
+      increment: void ExprBlock(){ // SynForEach [14:15]-[14:32]
+        closures: null
+      }
+      body: void ExprBlock(){ // SynForEach [14:15]-[14:32]
+        void ExprVariableDefinition(int i: v00ef){ // SynForEachIterator [14:19]-[14:28]
+          initializer: int ExprAssignment(){
+            lhs: int ref ExprGetAddress(i: v00ef)
+            rhs: int ExprFunctionCall(){ // SynForEachIterator [14:19]-[14:28]
+              function: int ref() ExprFunctionAccess(list_iterator::next: f005a){
+                context: list_iterator ref ExprGetAddress($temp0: v00ee)
+              }
+              arguments: {
+              }
+            }
+          }
+        }
+        int ExprVariableAccess(i: v00ef) // SynTypeSimple [14:30]-[14:31]
+        closures: void ExprSequence(){
+        }
+      }
+    }
+  }
+}
diff --git a/NULLC/inst_graph.txt b/NULLC/inst_graph.txt
new file mode 100644
index 0000000..a96a7fa
--- /dev/null
+++ b/NULLC/inst_graph.txt
@@ -0,0 +1,22 @@
+function global()
+// imported 0x0: __function[] $vtbl3494183789finalize [] noalias from '$base$.nc'
+{
+[global] start.b1:
+  // predecessor blocks: []
+  // successor blocks: []
+  // immediate dominator: []
+  // dominance frontier: []
+  // dominance children: []
+  // live variables going in: []
+  // live variables going out: []
+
+}
+
+// Peephole optimizations: 0
+// Constant propagations: 0
+// Dead code eliminations: 0
+// Control flow simplifications: 0
+// Load store propagation: 0
+// Common subexpression eliminations: 0
+// Dead alloca store eliminations: 0
+// Function inlines: 0
diff --git a/NULLC/inst_graph_opt.txt b/NULLC/inst_graph_opt.txt
new file mode 100644
index 0000000..a96a7fa
--- /dev/null
+++ b/NULLC/inst_graph_opt.txt
@@ -0,0 +1,22 @@
+function global()
+// imported 0x0: __function[] $vtbl3494183789finalize [] noalias from '$base$.nc'
+{
+[global] start.b1:
+  // predecessor blocks: []
+  // successor blocks: []
+  // immediate dominator: []
+  // dominance frontier: []
+  // dominance children: []
+  // live variables going in: []
+  // live variables going out: []
+
+}
+
+// Peephole optimizations: 0
+// Constant propagations: 0
+// Dead code eliminations: 0
+// Control flow simplifications: 0
+// Load store propagation: 0
+// Common subexpression eliminations: 0
+// Dead alloca store eliminations: 0
+// Function inlines: 0
diff --git a/NULLC/inst_graph_reg_low.txt b/NULLC/inst_graph_reg_low.txt
new file mode 100644
index 0000000..411c4c7
--- /dev/null
+++ b/NULLC/inst_graph_reg_low.txt
@@ -0,0 +1,7 @@
+function global()
+// imported 0x0: __function[] $vtbl3494183789finalize noalias from '$base$.nc'
+{
+start.b1:
+
+}
+
diff --git a/NULLC/syntax_graph.txt b/NULLC/syntax_graph.txt
new file mode 100644
index 0000000..bd65a66
--- /dev/null
+++ b/NULLC/syntax_graph.txt
@@ -0,0 +1,110 @@
+SynModule(){
+  imports: {
+  }
+  expressions: {
+    SynClassDefinition(list_node){
+      align: null
+      aliases: {
+      }
+      baseClass: null
+      elements: SynClassElements(){
+        members: {
+          SynVariableDefinitions(){
+            align: null
+            type: SynTypeReference(){
+              type: SynTypeSimple(list_node){
+              }
+            }
+            definitions: {
+              SynVariableDefinition(next)
+            }
+          }
+        }
+      }
+    }
+    SynClassDefinition(list_iterator){
+      align: null
+      aliases: {
+      }
+      baseClass: null
+      elements: SynClassElements(){
+      }
+    }
+    SynFunctionDefinition(start){
+      parentType: SynTypeSimple(list_node){
+      }
+      returnType: SynTypeAuto()
+      aliases: {
+      }
+      arguments: {
+      }
+      expressions: {
+        SynVariableDefinitions(){
+          align: null
+          type: SynTypeSimple(list_iterator){
+          }
+          definitions: {
+            SynVariableDefinition(ret)
+          }
+        }
+        SynReturn(){
+          value: SynTypeSimple(ret){
+          }
+        }
+      }
+    }
+    SynFunctionDefinition(hasnext){
+      parentType: SynTypeSimple(list_iterator){
+      }
+      returnType: SynTypeAuto()
+      aliases: {
+      }
+      arguments: {
+      }
+      expressions: {
+      }
+    }
+    SynFunctionDefinition(next){
+      parentType: SynTypeSimple(list_iterator){
+      }
+      returnType: SynTypeAuto()
+      aliases: {
+      }
+      arguments: {
+      }
+      expressions: {
+        SynVariableDefinitions(){
+          align: null
+          type: SynTypeSimple(int){
+          }
+          definitions: {
+            SynVariableDefinition(ret)
+          }
+        }
+        SynReturn(){
+          value: SynTypeSimple(ret){
+          }
+        }
+      }
+    }
+    SynVariableDefinitions(){
+      align: null
+      type: SynTypeSimple(list_node){
+      }
+      definitions: {
+        SynVariableDefinition(list)
+      }
+    }
+    SynForEach(){
+      iterators: {
+        SynForEachIterator(i){
+          type: null
+          value: SynTypeSimple(list){
+          }
+        }
+      }
+      body: SynTypeSimple(i){
+      }
+    }
+  }
+}
diff --git a/NULLC/time_stats.txt b/NULLC/time_stats.txt
new file mode 100644
index 0000000..3f38536
--- /dev/null
+++ b/NULLC/time_stats.txt
@@ -0,0 +1,17 @@
+          lexer      0ms (  7%)
+          parse      0ms ( 23%)
+         import      1ms ( 28%)
+        analyze      0ms (  7%)
+     (finalize)      0ms (  0%)
+      (cleanup)      0ms (  0%)
+        codegen      0ms (  3%)
+           llvm      0ms (  2%)
+   optimization      0ms (  3%)
+     (finalize)      0ms (  1%)
+          lower      0ms (  1%)
+       bytecode      0ms (  4%)
+        (cache)      0ms (  2%)
+           logs      0ms ( 10%)
+          trace      0ms (  0%)
+          extra      0ms (  2%)
+          total      3ms (     4ms)
diff --git a/expr_graph.txt b/expr_graph.txt
new file mode 100644
index 0000000..b288791
--- /dev/null
+++ b/expr_graph.txt
@@ -0,0 +1,230 @@
+void ExprModule(){ // SynModule [1:0]-[1:15]
+  ScopeData(SCOPE_EXPLICIT, {}: s0000) @ 0x0-0x0 {
+    types{
+      __FinalizeProxy: size(0) align(0) padding(0) from $base$.nc
+    }
+    functions{
+      void ref(int) assert: f0000
+      void ref(int,char[]) assert: f0001
+      int ref(char[],char[]) ==: f0002
+      int ref(char[],char[]) !=: f0003
+      char[] ref(char[],char[]) +: f0004
+      char[] ref(char[] ref,char[]) +=: f0005
+      bool ref(bool) bool: f0006
+      char ref(char) char: f0007
+      short ref(short) short: f0008
+      int ref(int) int: f0009
+      long ref(long) long: f000a
+      float ref(float) float: f000b
+      double ref(double) double: f000c
+      int ref(char) as_unsigned: f0014
+      int ref(short) as_unsigned: f0015
+      long ref(int) as_unsigned: f0016
+      short ref(char[]) short: f0017
+      int ref(char[]) int: f0019
+      long ref(char[]) long: f001b
+      float ref(char[]) float: f001d
+      double ref(char[]) double: f001f
+      void ref ref(int,int) __newS: f0021
+      int[] ref(int,int,int) __newA: f0022
+      auto ref ref(auto ref) duplicate: f0023
+      void ref(auto[] ref,auto[]) __duplicate_array: f0024
+      auto[] ref(auto[]) duplicate: f0025
+      auto ref ref(auto ref,auto ref) replace: f0026
+      void ref(auto ref,auto ref) swap: f0027
+      int ref(auto ref,auto ref) equal: f0028
+      void ref(auto ref,auto ref) assign: f0029
+      void ref(auto[],auto[]) array_copy: f002a
+      void ref(generic,int,generic,int,int) array_copy: f002b
+      void ref() ref(auto ref,__function[] ref) __redirect: f002c
+      void ref() ref(auto ref,__function[] ref) __redirect_ptr: f002d
+      char[] ref ref(char[] ref,int[]) __aassign_itoc: f002e
+      short[] ref ref(short[] ref,int[]) __aassign_itos: f002f
+      float[] ref ref(float[] ref,double[]) __aassign_dtof: f0030
+      typeid ref(auto ref) typeid: f0031
+      int ref(typeid,typeid) ==: f0033
+      int ref(typeid,typeid) !=: f0034
+      int ref(auto ref,auto ref) __rcomp: f0035
+      int ref(auto ref,auto ref) __rncomp: f0036
+      bool ref(auto ref,auto ref) <: f0037
+      bool ref(auto ref,auto ref) <=: f0038
+      bool ref(auto ref,auto ref) >: f0039
+      bool ref(auto ref,auto ref) >=: f003a
+      int ref(auto ref) hash_value: f003b
+      int ref(void ref(int),void ref(int)) __pcomp: f003c
+      int ref(void ref(int),void ref(int)) __pncomp: f003d
+      int ref(auto[],auto[]) __acomp: f003e
+      int ref(auto[],auto[]) __ancomp: f003f
+      int ref() __typeCount: f0040
+      auto[] ref ref(auto[] ref,auto ref) =: f0041
+      auto ref ref(auto ref,auto[] ref) __aaassignrev: f0042
+      auto ref ref(auto[] ref,int) []: f0043
+      int ref(auto ref) isStackPointer: f0044
+      void ref(auto[] ref,typeid,int) auto_array_impl: f0045
+      auto[] ref(typeid,int) auto_array: f0046
+      void ref(auto[] ref,int) __force_size: f0048
+      int ref(auto ref) isCoroutineReset: f0049
+      void ref(auto ref) __assertCoroutine: f004a
+      auto ref[] ref() __getFinalizeList: f004b
+      void ref() __finalizeObjects: f004d
+      bool ref(generic,generic[]) in: f004e
+      bool ref(auto ref,typeid) is_derived_from: f004f
+      void ref ref(void ref,typeid) __assert_derived_from: f0050
+      auto ref(@T ref()) __gen_list: f0051
+      void ref(@T[]) __init_array: f0052
+      void ref(void ref ref,void ref,int,int) __closeUpvalue: f0053
+      int ref() float::str_1247550254_precision$: f0054
+      bool ref() float::str_1247550254_showExponent$: f0055
+      int ref() double::str_1247550254_precision$: f0056
+      bool ref() double::str_1247550254_showExponent$: f0057
+    }
+    variables{
+      __function[] $vtbl3494183789finalize: v0006 @ 0x0 gc_check
+    }
+    aliases{
+      typedef: auto[] auto_array: a0000
+    }
+    ScopeData(SCOPE_TYPE, {bool}: s0013){
+      functions{
+        void ref(bool) bool::bool: f000d
+      }
+    }
+    ScopeData(SCOPE_TYPE, {char}: s0015){
+      functions{
+        void ref(char) char::char: f000e
+      }
+    }
+    ScopeData(SCOPE_TYPE, {short}: s0017){
+      functions{
+        void ref(short) short::short: f000f
+      }
+    }
+    ScopeData(SCOPE_TYPE, {int}: s0019){
+      functions{
+        void ref(int) int::int: f0010
+      }
+    }
+    ScopeData(SCOPE_TYPE, {long}: s001b){
+      functions{
+        void ref(long) long::long: f0011
+      }
+    }
+    ScopeData(SCOPE_TYPE, {float}: s001d){
+      functions{
+        void ref(float) float::float: f0012
+      }
+    }
+    ScopeData(SCOPE_TYPE, {double}: s001f){
+      functions{
+        void ref(double) double::double: f0013
+      }
+    }
+    ScopeData(SCOPE_TYPE, {short}: s0025){
+      functions{
+        char[] ref() short::str: f0018
+      }
+    }
+    ScopeData(SCOPE_TYPE, {int}: s0028){
+      functions{
+        char[] ref() int::str: f001a
+      }
+    }
+    ScopeData(SCOPE_TYPE, {long}: s002b){
+      functions{
+        char[] ref() long::str: f001c
+      }
+    }
+    ScopeData(SCOPE_TYPE, {float}: s002e){
+      functions{
+        char[] ref(int,bool) float::str: f001e
+      }
+    }
+    ScopeData(SCOPE_TYPE, {double}: s0031){
+      functions{
+        char[] ref(int,bool) double::str: f0020
+      }
+    }
+    ScopeData(SCOPE_TYPE, {typeid}: s0048){
+      functions{
+        int ref() typeid::size$: f0032
+      }
+    }
+    ScopeData(SCOPE_TYPE, {auto[]}: s005e){
+      functions{
+        void ref(auto ref,int) auto[]::set: f0047
+      }
+    }
+    ScopeData(SCOPE_TYPE, {__FinalizeProxy}: s0065){
+      functions{
+        void ref() __FinalizeProxy::finalize: f004c
+      }
+    }
+  }
+  ScopeData(SCOPE_EXPLICIT, {}: s0000) @ 0x0-0x0 {
+    types{
+      void: size(0) align(0) padding(0)
+      bool: size(1) align(0) padding(0)
+      char: size(1) align(0) padding(0)
+      short: size(2) align(2) padding(0)
+      int: size(4) align(4) padding(0)
+      long: size(8) align(8) padding(0)
+      float: size(4) align(4) padding(0)
+      double: size(8) align(8) padding(0)
+      typeid: size(4) align(4) padding(0)
+      __function: size(4) align(4) padding(0)
+      __nullptr: size(8) align(4) padding(0)
+      generic: generic from $base$.nc
+      auto: size(0) align(0) padding(0)
+      auto ref: size(12) align(4) padding(0) gc_check
+      auto[]: size(16) align(4) padding(0) gc_check
+      __$func0_88_cls: size(0) align(0) padding(0)
+    }
+    functions{
+      auto ref(generic) $func0: f0058
+    }
+    variables{
+    }
+    aliases{
+    }
+    ScopeData(SCOPE_TYPE, {auto ref}: s0001){
+      variables{
+        typeid type: v0000 @ 0x0 readonly
+        void ref ptr: v0001 @ 0x4 readonly gc_check
+      }
+    }
+    ScopeData(SCOPE_TYPE, {auto[]}: s0002){
+      variables{
+        typeid type: v0002 @ 0x0 readonly
+        void ref ptr: v0003 @ 0x4 readonly gc_check
+        int size: v0004 @ 0xc readonly
+      }
+    }
+  }
+  definitions: {
+  }
+  setup: {
+    void ExprBlock(){
+      closures: null
+    }
+  }
+  expressions: {
+    int ExprFunctionCall(){ // SynBinaryOp [1:5]-[1:7]
+      function: int ref(void ref(int),void ref(int)) ExprFunctionAccess(__pcomp: f003c){ // SynBinaryOp [1:5]-[1:7]
+        context: void ref ExprNullptrLiteral()
+      }
+      arguments: {
+        void ref(int) ExprTypeCast(EXPR_CAST_REINTERPRET){ // SynShortFunctionDefinition [1:0]-[1:5]
+          value: auto ref(generic) ExprGenericFunctionPrototype($func0: f0058){ // SynShortFunctionDefinition [1:0]-[1:5]
+            contextVariables: {
+            }
+          }
+        }
+        void ref(int) ExprTypeCast(EXPR_CAST_REINTERPRET){ // SynBinaryOp [1:5]-[1:7]
+          value: auto ref(generic) ExprTypeCast(EXPR_CAST_NULL_TO_FUNCTION){ // SynBinaryOp [1:5]-[1:7]
+            value: __nullptr ExprNullptrLiteral() // SynNullptr [1:7]-[1:14]
+          }
+        }
+      }
+    }
+  }
+}
diff --git a/syntax_graph.txt b/syntax_graph.txt
new file mode 100644
index 0000000..216acd0
--- /dev/null
+++ b/syntax_graph.txt
@@ -0,0 +1,18 @@
+SynModule(){
+  imports: {
+  }
+  expressions: {
+    SynBinaryOp(==){
+      lhs: SynShortFunctionDefinition(){
+        arguments: {
+          SynShortFunctionArgument(i){
+            type: null
+          }
+        }
+        expressions: {
+        }
+      }
+      rhs: SynNullptr()
+    }
+  }
+}
-- 
2.43.0


From 93cdc6bcd242c2f2145971b6ac91986bf3549278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:15 +0000
Subject: [PATCH 056/107] fix: bytecode, listing, translation and evaluation
 requests without a compiled module crashed the host

---
 NULLC/nullc.cpp  |  53 +++++++++++
 expr_graph.txt   | 230 -----------------------------------------------
 syntax_graph.txt |  18 ----
 3 files changed, 53 insertions(+), 248 deletions(-)
 delete mode 100644 expr_graph.txt
 delete mode 100644 syntax_graph.txt

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 5e2b026..51aaa58 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -54,6 +54,10 @@ namespace NULLC
 
 	CompilerContext *compilerCtx = NULL;
 
+	// Results that are available in the active compiler context
+	bool compilerCtxAnalyzed = false;
+	bool compilerCtxCompiled = false;
+
 	bool enableLogFiles = false;
 	bool enableExternalDebugger = false;
 
@@ -518,6 +522,8 @@ nullres nullcAnalyze(const char* code)
 	nullcLastError = "";
 
 	NULLC::destruct(compilerCtx);
+	compilerCtxAnalyzed = false;
+	compilerCtxCompiled = false;
 
 	allocator.Clear();
 
@@ -554,6 +560,8 @@ nullres nullcAnalyze(const char* code)
 		return 0;
 	}
 
+	compilerCtxAnalyzed = true;
+
 	return 1;
 }
 
@@ -574,6 +582,8 @@ nullres	nullcCompileWithModuleRoot(const char* code, const char *moduleRoot)
 	nullcLastError = "";
 
 	NULLC::destruct(compilerCtx);
+	compilerCtxAnalyzed = false;
+	compilerCtxCompiled = false;
 
 	allocator.Clear();
 
@@ -611,6 +621,9 @@ nullres	nullcCompileWithModuleRoot(const char* code, const char *moduleRoot)
 		return 0;
 	}
 
+	compilerCtxAnalyzed = true;
+	compilerCtxCompiled = true;
+
 	return 1;
 }
 
@@ -627,6 +640,12 @@ unsigned nullcGetBytecode(char **bytecode)
 		return 0;
 	}
 
+	if(!compilerCtxCompiled)
+	{
+		nullcLastError = "ERROR: no bytecode was built";
+		return 0;
+	}
+
 	unsigned size = GetBytecode(*compilerCtx, bytecode);
 
 	// Load it into cache
@@ -647,6 +666,12 @@ unsigned nullcGetBytecodeNoCache(char **bytecode)
 		return 0;
 	}
 
+	if(!compilerCtxCompiled)
+	{
+		nullcLastError = "ERROR: no bytecode was built";
+		return 0;
+	}
+
 	return GetBytecode(*compilerCtx, bytecode);
 }
 
@@ -663,6 +688,12 @@ nullres nullcSaveListing(const char *fileName)
 		return 0;
 	}
 
+	if(!compilerCtxCompiled)
+	{
+		nullcLastError = "ERROR: no bytecode was built";
+		return 0;
+	}
+
 	if(!SaveListing(*compilerCtx, fileName))
 	{
 		nullcLastError = compilerCtx->errorBuf;
@@ -685,6 +716,12 @@ nullres	nullcTranslateToC(const char *fileName, const char *mainName, void (*add
 		return 0;
 	}
 
+	if(!compilerCtxAnalyzed)
+	{
+		nullcLastError = "ERROR: there is no analyzed module";
+		return 0;
+	}
+
 	if(!TranslateToC(*compilerCtx, fileName, mainName, addDependency))
 	{
 		nullcLastError = compilerCtx->errorBuf;
@@ -714,6 +751,8 @@ void nullcClean()
 	nullcLastError = "";
 
 	NULLC::destruct(compilerCtx);
+	compilerCtxAnalyzed = false;
+	compilerCtxCompiled = false;
 	compilerCtx = NULL;
 
 	allocator.Clear();
@@ -1662,6 +1701,8 @@ void nullcTerminate()
 		return;
 
 	NULLC::destruct(compilerCtx);
+	compilerCtxAnalyzed = false;
+	compilerCtxCompiled = false;
 	compilerCtx = NULL;
 
 	allocator.Reset();
@@ -1716,6 +1757,12 @@ nullres nullcTestEvaluateExpressionTree(char *resultBuf, unsigned resultBufSize)
 		return 0;
 	}
 
+	if(!compilerCtxAnalyzed)
+	{
+		nullcLastError = "ERROR: there is no analyzed module";
+		return 0;
+	}
+
 	if(!TestEvaluation(compilerCtx->exprCtx, compilerCtx->exprModule, resultBuf, resultBufSize, compilerCtx->errorBuf, compilerCtx->errorBufSize))
 	{
 		nullcLastError = compilerCtx->errorBuf;
@@ -1738,6 +1785,12 @@ nullres nullcTestEvaluateInstructionTree(char *resultBuf, unsigned resultBufSize
 		return 0;
 	}
 
+	if(!compilerCtxCompiled)
+	{
+		nullcLastError = "ERROR: no bytecode was built";
+		return 0;
+	}
+
 	if(!TestEvaluation(compilerCtx->exprCtx, compilerCtx->vmModule, resultBuf, resultBufSize, compilerCtx->errorBuf, compilerCtx->errorBufSize))
 	{
 		nullcLastError = compilerCtx->errorBuf;
diff --git a/expr_graph.txt b/expr_graph.txt
deleted file mode 100644
index b288791..0000000
--- a/expr_graph.txt
+++ /dev/null
@@ -1,230 +0,0 @@
-void ExprModule(){ // SynModule [1:0]-[1:15]
-  ScopeData(SCOPE_EXPLICIT, {}: s0000) @ 0x0-0x0 {
-    types{
-      __FinalizeProxy: size(0) align(0) padding(0) from $base$.nc
-    }
-    functions{
-      void ref(int) assert: f0000
-      void ref(int,char[]) assert: f0001
-      int ref(char[],char[]) ==: f0002
-      int ref(char[],char[]) !=: f0003
-      char[] ref(char[],char[]) +: f0004
-      char[] ref(char[] ref,char[]) +=: f0005
-      bool ref(bool) bool: f0006
-      char ref(char) char: f0007
-      short ref(short) short: f0008
-      int ref(int) int: f0009
-      long ref(long) long: f000a
-      float ref(float) float: f000b
-      double ref(double) double: f000c
-      int ref(char) as_unsigned: f0014
-      int ref(short) as_unsigned: f0015
-      long ref(int) as_unsigned: f0016
-      short ref(char[]) short: f0017
-      int ref(char[]) int: f0019
-      long ref(char[]) long: f001b
-      float ref(char[]) float: f001d
-      double ref(char[]) double: f001f
-      void ref ref(int,int) __newS: f0021
-      int[] ref(int,int,int) __newA: f0022
-      auto ref ref(auto ref) duplicate: f0023
-      void ref(auto[] ref,auto[]) __duplicate_array: f0024
-      auto[] ref(auto[]) duplicate: f0025
-      auto ref ref(auto ref,auto ref) replace: f0026
-      void ref(auto ref,auto ref) swap: f0027
-      int ref(auto ref,auto ref) equal: f0028
-      void ref(auto ref,auto ref) assign: f0029
-      void ref(auto[],auto[]) array_copy: f002a
-      void ref(generic,int,generic,int,int) array_copy: f002b
-      void ref() ref(auto ref,__function[] ref) __redirect: f002c
-      void ref() ref(auto ref,__function[] ref) __redirect_ptr: f002d
-      char[] ref ref(char[] ref,int[]) __aassign_itoc: f002e
-      short[] ref ref(short[] ref,int[]) __aassign_itos: f002f
-      float[] ref ref(float[] ref,double[]) __aassign_dtof: f0030
-      typeid ref(auto ref) typeid: f0031
-      int ref(typeid,typeid) ==: f0033
-      int ref(typeid,typeid) !=: f0034
-      int ref(auto ref,auto ref) __rcomp: f0035
-      int ref(auto ref,auto ref) __rncomp: f0036
-      bool ref(auto ref,auto ref) <: f0037
-      bool ref(auto ref,auto ref) <=: f0038
-      bool ref(auto ref,auto ref) >: f0039
-      bool ref(auto ref,auto ref) >=: f003a
-      int ref(auto ref) hash_value: f003b
-      int ref(void ref(int),void ref(int)) __pcomp: f003c
-      int ref(void ref(int),void ref(int)) __pncomp: f003d
-      int ref(auto[],auto[]) __acomp: f003e
-      int ref(auto[],auto[]) __ancomp: f003f
-      int ref() __typeCount: f0040
-      auto[] ref ref(auto[] ref,auto ref) =: f0041
-      auto ref ref(auto ref,auto[] ref) __aaassignrev: f0042
-      auto ref ref(auto[] ref,int) []: f0043
-      int ref(auto ref) isStackPointer: f0044
-      void ref(auto[] ref,typeid,int) auto_array_impl: f0045
-      auto[] ref(typeid,int) auto_array: f0046
-      void ref(auto[] ref,int) __force_size: f0048
-      int ref(auto ref) isCoroutineReset: f0049
-      void ref(auto ref) __assertCoroutine: f004a
-      auto ref[] ref() __getFinalizeList: f004b
-      void ref() __finalizeObjects: f004d
-      bool ref(generic,generic[]) in: f004e
-      bool ref(auto ref,typeid) is_derived_from: f004f
-      void ref ref(void ref,typeid) __assert_derived_from: f0050
-      auto ref(@T ref()) __gen_list: f0051
-      void ref(@T[]) __init_array: f0052
-      void ref(void ref ref,void ref,int,int) __closeUpvalue: f0053
-      int ref() float::str_1247550254_precision$: f0054
-      bool ref() float::str_1247550254_showExponent$: f0055
-      int ref() double::str_1247550254_precision$: f0056
-      bool ref() double::str_1247550254_showExponent$: f0057
-    }
-    variables{
-      __function[] $vtbl3494183789finalize: v0006 @ 0x0 gc_check
-    }
-    aliases{
-      typedef: auto[] auto_array: a0000
-    }
-    ScopeData(SCOPE_TYPE, {bool}: s0013){
-      functions{
-        void ref(bool) bool::bool: f000d
-      }
-    }
-    ScopeData(SCOPE_TYPE, {char}: s0015){
-      functions{
-        void ref(char) char::char: f000e
-      }
-    }
-    ScopeData(SCOPE_TYPE, {short}: s0017){
-      functions{
-        void ref(short) short::short: f000f
-      }
-    }
-    ScopeData(SCOPE_TYPE, {int}: s0019){
-      functions{
-        void ref(int) int::int: f0010
-      }
-    }
-    ScopeData(SCOPE_TYPE, {long}: s001b){
-      functions{
-        void ref(long) long::long: f0011
-      }
-    }
-    ScopeData(SCOPE_TYPE, {float}: s001d){
-      functions{
-        void ref(float) float::float: f0012
-      }
-    }
-    ScopeData(SCOPE_TYPE, {double}: s001f){
-      functions{
-        void ref(double) double::double: f0013
-      }
-    }
-    ScopeData(SCOPE_TYPE, {short}: s0025){
-      functions{
-        char[] ref() short::str: f0018
-      }
-    }
-    ScopeData(SCOPE_TYPE, {int}: s0028){
-      functions{
-        char[] ref() int::str: f001a
-      }
-    }
-    ScopeData(SCOPE_TYPE, {long}: s002b){
-      functions{
-        char[] ref() long::str: f001c
-      }
-    }
-    ScopeData(SCOPE_TYPE, {float}: s002e){
-      functions{
-        char[] ref(int,bool) float::str: f001e
-      }
-    }
-    ScopeData(SCOPE_TYPE, {double}: s0031){
-      functions{
-        char[] ref(int,bool) double::str: f0020
-      }
-    }
-    ScopeData(SCOPE_TYPE, {typeid}: s0048){
-      functions{
-        int ref() typeid::size$: f0032
-      }
-    }
-    ScopeData(SCOPE_TYPE, {auto[]}: s005e){
-      functions{
-        void ref(auto ref,int) auto[]::set: f0047
-      }
-    }
-    ScopeData(SCOPE_TYPE, {__FinalizeProxy}: s0065){
-      functions{
-        void ref() __FinalizeProxy::finalize: f004c
-      }
-    }
-  }
-  ScopeData(SCOPE_EXPLICIT, {}: s0000) @ 0x0-0x0 {
-    types{
-      void: size(0) align(0) padding(0)
-      bool: size(1) align(0) padding(0)
-      char: size(1) align(0) padding(0)
-      short: size(2) align(2) padding(0)
-      int: size(4) align(4) padding(0)
-      long: size(8) align(8) padding(0)
-      float: size(4) align(4) padding(0)
-      double: size(8) align(8) padding(0)
-      typeid: size(4) align(4) padding(0)
-      __function: size(4) align(4) padding(0)
-      __nullptr: size(8) align(4) padding(0)
-      generic: generic from $base$.nc
-      auto: size(0) align(0) padding(0)
-      auto ref: size(12) align(4) padding(0) gc_check
-      auto[]: size(16) align(4) padding(0) gc_check
-      __$func0_88_cls: size(0) align(0) padding(0)
-    }
-    functions{
-      auto ref(generic) $func0: f0058
-    }
-    variables{
-    }
-    aliases{
-    }
-    ScopeData(SCOPE_TYPE, {auto ref}: s0001){
-      variables{
-        typeid type: v0000 @ 0x0 readonly
-        void ref ptr: v0001 @ 0x4 readonly gc_check
-      }
-    }
-    ScopeData(SCOPE_TYPE, {auto[]}: s0002){
-      variables{
-        typeid type: v0002 @ 0x0 readonly
-        void ref ptr: v0003 @ 0x4 readonly gc_check
-        int size: v0004 @ 0xc readonly
-      }
-    }
-  }
-  definitions: {
-  }
-  setup: {
-    void ExprBlock(){
-      closures: null
-    }
-  }
-  expressions: {
-    int ExprFunctionCall(){ // SynBinaryOp [1:5]-[1:7]
-      function: int ref(void ref(int),void ref(int)) ExprFunctionAccess(__pcomp: f003c){ // SynBinaryOp [1:5]-[1:7]
-        context: void ref ExprNullptrLiteral()
-      }
-      arguments: {
-        void ref(int) ExprTypeCast(EXPR_CAST_REINTERPRET){ // SynShortFunctionDefinition [1:0]-[1:5]
-          value: auto ref(generic) ExprGenericFunctionPrototype($func0: f0058){ // SynShortFunctionDefinition [1:0]-[1:5]
-            contextVariables: {
-            }
-          }
-        }
-        void ref(int) ExprTypeCast(EXPR_CAST_REINTERPRET){ // SynBinaryOp [1:5]-[1:7]
-          value: auto ref(generic) ExprTypeCast(EXPR_CAST_NULL_TO_FUNCTION){ // SynBinaryOp [1:5]-[1:7]
-            value: __nullptr ExprNullptrLiteral() // SynNullptr [1:7]-[1:14]
-          }
-        }
-      }
-    }
-  }
-}
diff --git a/syntax_graph.txt b/syntax_graph.txt
deleted file mode 100644
index 216acd0..0000000
--- a/syntax_graph.txt
+++ /dev/null
@@ -1,18 +0,0 @@
-SynModule(){
-  imports: {
-  }
-  expressions: {
-    SynBinaryOp(==){
-      lhs: SynShortFunctionDefinition(){
-        arguments: {
-          SynShortFunctionArgument(i){
-            type: null
-          }
-        }
-        expressions: {
-        }
-      }
-      rhs: SynNullptr()
-    }
-  }
-}
-- 
2.43.0


From 883f288f7d13c95f4dff861a3bd2fc3c8def24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:49 +0000
Subject: [PATCH 057/107] fix: a local function of an imported module made a
 global function with the same name and type a link-time redefinition

---
 NULLC/Linker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index d25046c..f3e8921 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -548,7 +548,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			{
 				ExternFuncInfo &prev = exFunctions[curr->value];
 
-				if(curr->value < oldFunctionCount && prev.funcType == remappedType && prev.explicitTypeCount == fInfo->explicitTypeCount)
+				if(curr->value < oldFunctionCount && prev.isVisible && prev.funcType == remappedType && prev.explicitTypeCount == fInfo->explicitTypeCount)
 				{
 					bool explicitTypeMatch = true;
 
-- 
2.43.0


From cc1e8d566ce858aa2ebe1153e8c712521498041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:32 +0000
Subject: [PATCH 058/107] fix: importing nested namespaces failed, imported
 generic functions of a class did not see its members first

---
 NULLC/ExpressionTree.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index b553de8..c2bc061 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12273,24 +12273,13 @@ void ImportModuleNamespaces(ExpressionContext &ctx, SynBase *source, ModuleConte
 
 		unsigned nameHash = InplaceStr(symbols + namespaceData.offsetToName).hash();
 
-		NamespaceData *prev = NULL;
-
-		for(unsigned k = 0; k < ctx.namespaces.size(); k++)
-		{
-			if(ctx.namespaces[k]->nameHash == nameHash)
-			{
-				prev = ctx.namespaces[k];
-				break;
-			}
-		}
-
 		NamespaceData *parent = NULL;
 
 		if(namespaceData.parentHash != ~0u)
 		{
 			for(unsigned k = 0; k < ctx.namespaces.size(); k++)
 			{
-				if(ctx.namespaces[k]->nameHash == namespaceData.parentHash)
+				if(ctx.namespaces[k]->fullNameHash == namespaceData.parentHash)
 				{
 					parent = ctx.namespaces[k];
 					break;
@@ -12301,7 +12290,18 @@ void ImportModuleNamespaces(ExpressionContext &ctx, SynBase *source, ModuleConte
 				Stop(ctx, source, "ERROR: namespace %s parent not found", symbols + namespaceData.offsetToName);
 		}
 
-		if(prev && prev->parent == parent)
+		NamespaceData *prev = NULL;
+
+		for(unsigned k = 0; k < ctx.namespaces.size(); k++)
+		{
+			if(ctx.namespaces[k]->nameHash == nameHash && ctx.namespaces[k]->parent == parent)
+			{
+				prev = ctx.namespaces[k];
+				break;
+			}
+		}
+
+		if(prev)
 			continue;
 
 		NamespaceData *ns = new (ctx.get<NamespaceData>()) NamespaceData(ctx.allocator, source, ctx.scope, parent, SynIdentifier(InplaceStr(symbols + namespaceData.offsetToName)), ctx.uniqueNamespaceId++);
@@ -13104,8 +13104,9 @@ void ImportModuleFunctions(ExpressionContext &ctx, SynBase *source, ModuleContex
 		bool accessor = *(functionName.end - 1) == '$';
 		bool isOperator = function.isOperator != 0;
 
+		// Generic functions of a class are instantiated in this scope and have to find class members in it
 		if(parentType)
-			ctx.PushScope(parentType);
+			RestoreParentTypeScope(ctx, source, parentType);
 
 		ModuleData *importModule = moduleCtx.data;
 
-- 
2.43.0


From 5143da3a1bfe6b3aef20585fcfbf0becad709d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:30 +0000
Subject: [PATCH 059/107] fix: a generic function local to an instance of an
 imported generic function had a definition position outside of the module

---
 NULLC/Compiler.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index da32c03..4423380 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -1690,16 +1690,13 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 
 			funcInfo.retType = ExternFuncInfo::RETURN_VOID;
 
-			if(ModuleData *moduleData = function->importModule)
-			{
-				funcInfo.genericOffsetStart = unsigned(function->declaration->source->begin - moduleData->lexStream);
-				assert(funcInfo.genericOffsetStart < moduleData->lexStreamSize);
-			}
+			// Local generic function inside an instance of an imported generic function is placed in a different module and cannot be instantiated outside
+			Lexeme *definitionStart = function->declaration->source->begin;
+
+			if(definitionStart >= sourceStreamStart && definitionStart < sourceStreamStart + sourceStreamSize)
+				funcInfo.genericOffsetStart = unsigned(definitionStart - sourceStreamStart);
 			else
-			{
-				funcInfo.genericOffsetStart = unsigned(function->declaration->source->begin - ctx.parseCtx.lexer.GetStreamStart());
-				assert(funcInfo.genericOffsetStart < ctx.parseCtx.lexer.GetStreamSize());
-			}
+				funcInfo.genericOffsetStart = 0;
 
 			funcInfo.genericOffset = ~0u;
 			funcInfo.genericReturnType = returnType->typeIndex;
-- 
2.43.0


From 15ebffbf672315abd313202a337c2ed8f87dded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:21 +0000
Subject: [PATCH 060/107] fix: instances of imported generic classes had no
 methods in calls through auto ref, object construction bodies of imported
 modules were in conflict with the ones of the program

---
 NULLC/ExpressionTree.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index c2bc061..729d6b3 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -7645,15 +7645,27 @@ ExprBase* CreateFunctionCallFinal(ExpressionContext &ctx, SynBase *source, ExprB
 
 				if(TypeGenericClassProto *proto = getType<TypeGenericClassProto>(el->scope->ownerType))
 				{
+					SmallArray<TypeClass*, 16> instanceTypes(ctx.allocator);
+
 					for(unsigned k = 0; k < proto->instances.size(); k++)
 					{
-						ExprClassDefinition *definition = getType<ExprClassDefinition>(proto->instances[k]);
-
 						// Skip instances that have failed to instantiate
-						if(!definition)
-							continue;
+						if(ExprClassDefinition *definition = getType<ExprClassDefinition>(proto->instances[k]))
+							instanceTypes.push_back(definition->classType);
+					}
 
-						ExprBase *emptyContext = new (ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(source, ctx.GetReferenceType(definition->classType));
+					// Instances that were created in imported modules
+					for(unsigned k = 0; k < ctx.types.size(); k++)
+					{
+						TypeClass *classType = getType<TypeClass>(ctx.types[k]);
+
+						if(classType && classType->proto == proto && classType->importModule && !classType->isGeneric)
+							instanceTypes.push_back(classType);
+					}
+
+					for(unsigned k = 0; k < instanceTypes.size(); k++)
+					{
+						ExprBase *emptyContext = new (ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(source, ctx.GetReferenceType(instanceTypes[k]));
 
 						if(bestOverload.function->scope->ownerType->isGeneric)
 						{
@@ -13144,6 +13156,10 @@ void ImportModuleFunctions(ExpressionContext &ctx, SynBase *source, ModuleContex
 		if(function.funcCat == ExternFuncInfo::LOCAL)
 			data->isHidden = true;
 
+		// Bodies of custom construction expressions are not accessible outside of their module
+		if(strstr(symbols + function.offsetToName, "::$func"))
+			data->isHidden = true;
+
 		data->attributes = function.attributes;
 
 		ctx.AddFunction(data);
-- 
2.43.0


From 466bb15de846822c503ba42b0fcc6509a50adddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:25 +0000
Subject: [PATCH 061/107] fix: optimizer assumed that no other module has
 pointers to global variables

---
 NULLC/InstructionTreeVmCommon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index dbf567b..513c70c 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -312,6 +312,10 @@ bool HasAddressTaken(VariableData *container)
 	if(container->isVmRegSpill)
 		return false;
 
+	// Code of other modules can take the address of a global variable
+	if(IsGlobalScope(container->scope) && !container->isAlloca)
+		return true;
+
 	for(unsigned userPos = 0, userCount = container->users.count; userPos < userCount; userPos++)
 	{
 		VmConstant *user = container->users.data[userPos];
-- 
2.43.0


From 712da62208e06e4066ee79d6be3baaa68b9b276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:27 +0000
Subject: [PATCH 062/107] fix: methods of instances of an imported generic
 class were not found in calls through auto ref

---
 NULLC/ExpressionTree.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 729d6b3..8b1af95 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -4978,7 +4978,18 @@ ExprBase* CreateAutoRefFunctionSet(ExpressionContext &ctx, SynBase *source, Expr
 		{
 			if(TypeGenericClassProto *proto = getType<TypeGenericClassProto>(function->scope->ownerType))
 			{
-				if(proto->instances.empty())
+				bool hasInstance = !proto->instances.empty();
+
+				// Instances that were created in imported modules
+				for(unsigned k = 0; k < ctx.types.size() && !hasInstance; k++)
+				{
+					TypeClass *classType = getType<TypeClass>(ctx.types[k]);
+
+					if(classType && classType->proto == proto && classType->importModule && !classType->isGeneric)
+						hasInstance = true;
+				}
+
+				if(!hasInstance)
 					continue;
 			}
 		}
-- 
2.43.0


From 5ca6a527c7e0791d685573a10a033b6cecd2050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:27 +0000
Subject: [PATCH 063/107] fix: lexemes of a module loaded from bytecode could
 have an owner that is not found

---
 NULLC/ExpressionTree.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 8b1af95..90ac237 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -13324,8 +13324,16 @@ void ImportModule(ExpressionContext &ctx, SynBase *source, ByteCode* bytecode, L
 	ctx.imports.push_back(moduleData);
 	moduleData->importIndex = ctx.imports.size();
 
-	if(!ctx.uniqueDependencyMap.find(InplaceStr(name)))
+	if(ModuleData **uniqueModuleData = ctx.uniqueDependencyMap.find(InplaceStr(name)))
+	{
+		// Lexemes of a module must have a single owner
+		lexStream = (*uniqueModuleData)->lexStream;
+		lexStreamSize = (*uniqueModuleData)->lexStreamSize;
+	}
+	else
+	{
 		ctx.uniqueDependencies.push_back(moduleData);
+	}
 
 	moduleData->bytecode = bytecode;
 
-- 
2.43.0


From 9637b2e29e90bffaa4411fad5516d7456c7f2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:19 +0000
Subject: [PATCH 064/107] fix: visibility of a definition in imported code
 depended on the memory location of the module source

---
 NULLC/ExpressionTree.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 90ac237..7bb6d44 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -517,6 +517,21 @@ namespace
 		return NULL;
 	}
 
+	bool IsVisibleFromLookupLocation(ExpressionContext &ctx, ScopeData *scope, SynBase *source)
+	{
+		if(source->begin && ctx.lookupLocation->begin)
+		{
+			ModuleData *sourceOwner = ctx.GetSourceOwner(source->begin);
+			ModuleData *locationOwner = ctx.GetSourceOwner(ctx.lookupLocation->begin);
+
+			// Positions in different modules can't be compared, imported code doesn't see the definitions of current module
+			if(sourceOwner != locationOwner)
+				return sourceOwner || scope->ownerFunction || scope->ownerType || (scope != ctx.globalScope && !scope->ownerNamespace);
+		}
+
+		return source->pos.begin <= ctx.lookupLocation->pos.begin;
+	}
+
 	IdentifierLookupResult* LookupObjectByName(ExpressionContext &ctx, unsigned nameHash)
 	{
 		typedef DirectChainedMap<IdentifierLookupResult>::NodeIterator Node;
@@ -532,7 +547,7 @@ namespace
 					VariableData *variable = lookup.node->value.variable;
 
 					// Skip variables that are not visible from current point
-					while(variable && !variable->importModule && variable->source->pos.begin > ctx.lookupLocation->pos.begin)
+					while(variable && !variable->importModule && !IsVisibleFromLookupLocation(ctx, scope, variable->source))
 					{
 						lookup = scope->idLookupMap.next(lookup);
 
@@ -595,7 +610,7 @@ namespace
 						else if(TypeGenericClassProto *exact = getType<TypeGenericClassProto>(type))
 							typeLocation = exact->definition;
 
-						if(typeLocation && typeLocation->pos.begin > ctx.lookupLocation->pos.begin)
+						if(typeLocation && !IsVisibleFromLookupLocation(ctx, scope, typeLocation))
 						{
 							scope = scope->scope;
 							continue;
@@ -608,7 +623,7 @@ namespace
 				// Check alias visibility
 				if(ctx.lookupLocation && !scope->unrestricted && !lookup->alias->importModule)
 				{
-					if(lookup->alias->source->pos.begin > ctx.lookupLocation->pos.begin)
+					if(!IsVisibleFromLookupLocation(ctx, scope, lookup->alias->source))
 					{
 						scope = scope->scope;
 						continue;
-- 
2.43.0


From 262958cf3f8a846dcfa3333b23abeaadd202f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:53 +0000
Subject: [PATCH 065/107] fix: padding of imported classes was lost and derived
 classes had a different layout

---
 NULLC/ExpressionTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 7bb6d44..5f47354 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12763,6 +12763,7 @@ void ImportModuleTypes(ExpressionContext &ctx, SynBase *source, ModuleContext &m
 
 				importedType->alignment = type.defaultAlign;
 				importedType->size = type.size;
+				importedType->padding = type.padding;
 
 				importedType->hasPointers = type.pointerCount != 0;
 
-- 
2.43.0


From 25eae229f0883bd37fee5691e0ee75eb2e46cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:05 +0000
Subject: [PATCH 066/107] fix: aliases of an imported class were in conflict
 with the names of other types and aliases

---
 NULLC/ExpressionTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 5f47354..61f4a1f 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12974,6 +12974,10 @@ void ImportModuleTypedefs(ExpressionContext &ctx, SynBase *source, ModuleContext
 	{
 		ExternTypedefInfo &alias = aliasList[i];
 
+		// Type aliases were imported during type import
+		if(alias.parentType != ~0u)
+			continue;
+
 		InplaceStr aliasName = InplaceStr(symbols + alias.offsetToName);
 
 		SynIdentifier *aliasNameIdentifier = new (ctx.get<SynIdentifier>()) SynIdentifier(aliasName);
@@ -12991,10 +12995,6 @@ void ImportModuleTypedefs(ExpressionContext &ctx, SynBase *source, ModuleContext
 			if(type != targetType)
 				Stop(ctx, source, "ERROR: type '%.*s' alias '%s' is equal to previously imported alias", FMT_ISTR(targetType->name), symbols + alias.offsetToName);
 		}
-		else if(alias.parentType != ~0u)
-		{
-			// Type alises were imported during type import
-		}
 		else
 		{
 			AliasData *alias = new (ctx.get<AliasData>()) AliasData(source, ctx.scope, targetType, aliasNameIdentifier, ctx.uniqueAliasId++);
-- 
2.43.0


From 126579f5ff58fd6046f9f11eed780ab80256f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 067/107] fix: member generic function instances of imported
 modules were instantiated again in calls through auto ref

---
 NULLC/ExpressionTree.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 61f4a1f..04fc9aa 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -6954,6 +6954,29 @@ FunctionValue CreateGenericFunctionInstance(ExpressionContext &ctx, SynBase *sou
 		return FunctionValue(source, function->instances[i], context);
 	}
 
+	// Search for a member function instance that was created in an imported module
+	if(parentType)
+	{
+		for(unsigned i = 0; i < ctx.functions.size(); i++)
+		{
+			FunctionData *data = ctx.functions[i];
+
+			if(!data->importModule || !data->isGenericInstance || data->nameHash != function->nameHash)
+				continue;
+
+			if(parentType != data->scope->ownerType)
+				continue;
+
+			if(!SameGenerics(data->generics, generics))
+				continue;
+
+			if(!SameArguments(data->type, instance))
+				continue;
+
+			return FunctionValue(source, data, proto.context);
+		}
+	}
+
 	TRACE_SCOPE("analyze", "CreateGenericFunctionInstance");
 
 	if(proto.function->name && proto.function->name->begin)
-- 
2.43.0


From 1dfd8c93cae5c385ec8ae3d45959b170cbeb7bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:58 +0000
Subject: [PATCH 068/107] fix: vector kept the elements that were removed
 before a resize and returned them from aggregate functions of an empty vector

---
 Modules/std/vector.nc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Modules/std/vector.nc b/Modules/std/vector.nc
index f66d2a7..a27750e 100644
--- a/Modules/std/vector.nc
+++ b/Modules/std/vector.nc
@@ -89,8 +89,8 @@ void vector:resize(int size)
 	assert(size >= 0);
 
 	T[] nArr = new T[size];
-	for(i in data, j in nArr)
-		j = i;
+	for(int i = 0; i < count && i < size; i++)
+		nArr[i] = data[i];
 	data = nArr;
 	count = size;
 }
@@ -166,6 +166,7 @@ auto vector:average(generic ref(T) f)
 
 auto vector:min_element()
 {
+	assert(count);
 	int min = 0;
 	for(int i = 1; i < count; i++)
 		min = data[i] < data[min] ? i : min;
@@ -174,6 +175,7 @@ auto vector:min_element()
 
 auto vector:max_element()
 {
+	assert(count);
 	int max = 0;
 	for(int i = 1; i < count; i++)
 		max = data[i] > data[max] ? i : max;
@@ -182,6 +184,7 @@ auto vector:max_element()
 
 auto vector:min_element(generic ref(T) f)
 {
+	assert(count);
 	typeof(f).return min = f(data[0]), tmp;
 	for(int i = 1; i < count; i++)
 	{
@@ -193,6 +196,7 @@ auto vector:min_element(generic ref(T) f)
 
 auto vector:max_element(generic ref(T) f)
 {
+	assert(count);
 	typeof(f).return max = f(data[0]), tmp;
 	for(int i = 1; i < count; i++)
 	{
@@ -273,6 +277,7 @@ auto vector:fill(generic[] arr)
 
 auto vector:foldl(generic ref(T, T) f)
 {
+	assert(count);
 	auto tmp = data[0];
 	for(int i = 1; i < count; i++)
 		tmp = f(tmp, data[i]);
@@ -281,6 +286,7 @@ auto vector:foldl(generic ref(T, T) f)
 
 auto vector:foldr(generic ref(T, T) f)
 {
+	assert(count);
 	auto tmp = data[count - 1];
 	for(int i = count - 2; i >= 0; i--)
 		tmp = f(tmp, data[i]);
-- 
2.43.0


From 5fbe46627f17625ea088cf235538fd918cd0626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:58 +0000
Subject: [PATCH 069/107] fix: list kept the removed elements reachable and
 lost the last element after an insertion

---
 Modules/std/list.nc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Modules/std/list.nc b/Modules/std/list.nc
index 626f653..ce498f1 100644
--- a/Modules/std/list.nc
+++ b/Modules/std/list.nc
@@ -60,13 +60,23 @@ void list:pop_back()
 {
 	if(!last)
 		assert(0, "list::pop_back list is empty");
+	last.parent = nullptr;
 	last = last.prev;
+	if(last)
+		last.next = nullptr;
+	else
+		first = nullptr;
 }
 void list:pop_front()
 {
 	if(!first)
-		assert(0, "list::pop_back list is empty");
+		assert(0, "list::pop_front list is empty");
+	first.parent = nullptr;
 	first = first.next;
+	if(first)
+		first.prev = nullptr;
+	else
+		last = nullptr;
 }
 void list:insert(list_node<T> ref it, T elem)
 {
@@ -80,6 +90,8 @@ void list:insert(list_node<T> ref it, T elem)
 	it.next.parent = this;
 	if(next)
 		next.prev = it.next;
+	else
+		last = it.next;
 }
 void list:erase(list_node<T> ref it)
 {
@@ -94,6 +106,7 @@ void list:erase(list_node<T> ref it)
 		first = first.next;
 	if(it == last)
 		last = last.prev;
+	it.parent = nullptr;
 }
 void list:clear()
 {
-- 
2.43.0


From a5294f322171e2da16cd11f5857cc9580896eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:04 +0000
Subject: [PATCH 070/107] fix: bind_first and bind_last did not support
 functions with three and more arguments

---
 Modules/std/algorithm.nc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/Modules/std/algorithm.nc b/Modules/std/algorithm.nc
index 5197c1d..5a9fd75 100644
--- a/Modules/std/algorithm.nc
+++ b/Modules/std/algorithm.nc
@@ -204,19 +204,19 @@ auto bind_first(generic f, v)
 		return auto(){ return f(v); };
 	else if(typeof(f).argument.size == 2)
 		return auto(typeof(f).argument[1] v1){ return f(v, v1); };
-	else if(typeof(f).argument.size == 2)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v, v1, v2); };
 	else if(typeof(f).argument.size == 3)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v, v1, v2, v3); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v, v1, v2); };
 	else if(typeof(f).argument.size == 4)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v, v1, v2, v3, v4); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v, v1, v2, v3); };
 	else if(typeof(f).argument.size == 5)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v, v1, v2, v3, v4, v5); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v, v1, v2, v3, v4); };
 	else if(typeof(f).argument.size == 6)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v, v1, v2, v3, v4, v5, v6); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v, v1, v2, v3, v4, v5); };
 	else if(typeof(f).argument.size == 7)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v, v1, v2, v3, v4, v5, v6, v7); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v, v1, v2, v3, v4, v5, v6); };
 	else if(typeof(f).argument.size == 8)
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v, v1, v2, v3, v4, v5, v6, v7); };
+	else if(typeof(f).argument.size == 9)
 		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7, typeof(f).argument[8] v8){ return f(v, v1, v2, v3, v4, v5, v6, v7, v8); };
 	else
 		_unsupported_argument_count_;
@@ -228,19 +228,19 @@ auto bind_last(generic f, v)
 		return auto(){ return f(v); };
 	else if(typeof(f).argument.size == 2)
 		return auto(typeof(f).argument[1] v1){ return f(v1, v); };
-	else if(typeof(f).argument.size == 2)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v1, v2, v); };
 	else if(typeof(f).argument.size == 3)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v1, v2, v3, v); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2){ return f(v1, v2, v); };
 	else if(typeof(f).argument.size == 4)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v1, v2, v3, v4, v); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3){ return f(v1, v2, v3, v); };
 	else if(typeof(f).argument.size == 5)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v1, v2, v3, v4, v5, v); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4){ return f(v1, v2, v3, v4, v); };
 	else if(typeof(f).argument.size == 6)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v1, v2, v3, v4, v5, v6, v); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5){ return f(v1, v2, v3, v4, v5, v); };
 	else if(typeof(f).argument.size == 7)
-		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v1, v2, v3, v4, v5, v6, v7, v); };
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6){ return f(v1, v2, v3, v4, v5, v6, v); };
 	else if(typeof(f).argument.size == 8)
+		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7){ return f(v1, v2, v3, v4, v5, v6, v7, v); };
+	else if(typeof(f).argument.size == 9)
 		return auto(typeof(f).argument[1] v1, typeof(f).argument[2] v2, typeof(f).argument[3] v3, typeof(f).argument[4] v4, typeof(f).argument[5] v5, typeof(f).argument[6] v6, typeof(f).argument[7] v7, typeof(f).argument[8] v8){ return f(v1, v2, v3, v4, v5, v6, v7, v8, v); };
 	else
 		_unsupported_argument_count_;
-- 
2.43.0


From 96a7142583a0accdbf4f6a950d59bb77f26be4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:20 +0000
Subject: [PATCH 071/107] fix: comparison of strings failed if one of them was
 empty

---
 Modules/std/string.nc | 57 ++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/Modules/std/string.nc b/Modules/std/string.nc
index c351e97..e4ee71a 100644
--- a/Modules/std/string.nc
+++ b/Modules/std/string.nc
@@ -570,29 +570,32 @@ string operator+(string ref left, char[] right)
 	return left + string(right);
 }
 
+// Compare null-terminated character arrays, empty array represents an empty string
+int __string_compare(char[] left, right)
+{
+	if(left.size <= 1 || right.size <= 1)
+		return (left.size > 1) - (right.size > 1);
+
+	return strcmp(left, right);
+}
+
 // Compare strings for equality
 bool operator==(string ref left, string ref right)
 {
 	if(left.size != right.size)
 		return false;
 
-	return left.data == right.data;
+	return left.size == 0 || left.data == right.data;
 }
 
 bool operator==(string ref left, char[] right)
 {
-	if(right.size > 1)
-		return strcmp(left.data, right) == 0;
-
-	return left.size == 0;
+	return __string_compare(left.data, right) == 0;
 }
 
 bool operator==(char[] left, string ref right)
 {
-	if(left.size > 1)
-		return strcmp(left, right.data) == 0;
-
-	return right.size == 0;
+	return __string_compare(left, right.data) == 0;
 }
 
 // Compare strings for inequality
@@ -601,82 +604,76 @@ bool operator!=(string ref left, string ref right)
 	if(left.size != right.size)
 		return true;
 	
-	return left.data != right.data;
+	return left.size != 0 && left.data != right.data;
 }
 
 bool operator!=(string ref left, char[] right)
 {
-	if(right.size > 1)
-		return strcmp(left.data, right) != 0;
-	
-	return left.size != 0;
+	return __string_compare(left.data, right) != 0;
 }
 
 bool operator!=(char[] left, string ref right)
 {
-	if(left.size > 1)
-		return strcmp(left, right.data) != 0;
-	
-	return right.size != 0;
+	return __string_compare(left, right.data) != 0;
 }
 
 // String ordering
 bool operator<(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) < 0;
+	return __string_compare(left.data, right.data) < 0;
 }
 
 bool operator<(string ref left, char[] right)
 {
-	return strcmp(left.data, right) < 0;
+	return __string_compare(left.data, right) < 0;
 }
 
 bool operator<(char[] left, string ref right)
 {
-	return strcmp(left, right.data) < 0;
+	return __string_compare(left, right.data) < 0;
 }
 
 bool operator<=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) <= 0;
+	return __string_compare(left.data, right.data) <= 0;
 }
 
 bool operator<=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) <= 0;
+	return __string_compare(left.data, right) <= 0;
 }
 
 bool operator<=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) <= 0;
+	return __string_compare(left, right.data) <= 0;
 }
 
 bool operator>(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) > 0;
+	return __string_compare(left.data, right.data) > 0;
 }
 
 bool operator>(string ref left, char[] right)
 {
-	return strcmp(left.data, right) > 0;
+	return __string_compare(left.data, right) > 0;
 }
 
 bool operator>(char[] left, string ref right)
 {
-	return strcmp(left, right.data) > 0;
+	return __string_compare(left, right.data) > 0;
 }
 
 bool operator>=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) >= 0;
+	return __string_compare(left.data, right.data) >= 0;
 }
 
 bool operator>=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) >= 0;
+	return __string_compare(left.data, right) >= 0;
 }
 
 bool operator>=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) >= 0;
+	return __string_compare(left, right.data) >= 0;
 }
-- 
2.43.0


From 0b17dbde0e4c0a96e56b0c7c848bf0092d2c2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:20 +0000
Subject: [PATCH 072/107] fix: string erase could remove the null terminator
 and replace with an empty string damaged the result

---
 Modules/std/string.nc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Modules/std/string.nc b/Modules/std/string.nc
index e4ee71a..f376a4c 100644
--- a/Modules/std/string.nc
+++ b/Modules/std/string.nc
@@ -252,7 +252,7 @@ string ref string:insert(int offset, int count, char ch)
 // If the length is not specified, erases all the characters starting from the specified character
 string ref string:erase(int offset, int length = -1)
 {
-	if(length < 0 || length > data.size - offset)
+	if(length < 0 || length >= data.size - offset)
 		length = data.size - offset - 1;
 	if(length == 0)
 		return this;
@@ -279,19 +279,19 @@ string ref string:replace(int offset, int length, string ref str)
 {
 	assert(offset == 0 || (offset > 0 && offset < data.size));
 
-	if(length < 0 || length >= data.size - offset)
-		length = data.size - offset - 1;
+	if(length < 0 || length > size - offset)
+		length = size - offset;
 
-	auto buf = new char[data.size - length + str.data.size - 1];
+	auto buf = new char[size - length + str.size + 1];
 	
 	for(int i = 0; i < offset; i++)
 		buf[i] = data[i];
 
-	for(int i = 0; i < str.data.size - 1; i++)
+	for(int i = 0; i < str.size; i++)
 		buf[i + offset] = str.data[i];
 
-	for(int i = offset + length; i < data.size - 1; i++)
-		buf[i - length + str.data.size - 1] = data[i];
+	for(int i = offset + length; i < size; i++)
+		buf[i - length + str.size] = data[i];
 
 	data = buf;
 	return this;
-- 
2.43.0


From 11a47f74afae3586b57001f59a98eb01d9e9da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:32 +0000
Subject: [PATCH 073/107] fix: text of a floating point number was cut at 255
 characters

---
 NULLC/StdLib.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 78b8b07..97fd36d 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -25,6 +25,21 @@ typedef uintptr_t markerType;
 
 namespace
 {
+	NULLCArray FormatNumber(double value, int precision, bool exponent)
+	{
+		const char *format = exponent ? "%.*e" : "%.*f";
+
+		char buf[256];
+		int length = snprintf(buf, 256, format, precision, value);
+
+		NULLCArray arr = NULLC::AllocArray(1, length < 0 ? 1 : length + 1, NULLC_TYPE_CHAR);
+
+		if(arr.ptr && length >= 0)
+			snprintf(arr.ptr, arr.len, format, precision, value);
+
+		return arr;
+	}
+
 	void* ReadVmMemoryPointer(void* address)
 	{
 		void *result;
@@ -1151,11 +1166,7 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 		return arr;
 	}
 
-	char buf[256];
-	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
-	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
-	memcpy(arr.ptr, buf, arr.len);
-	return arr;
+	return FormatNumber(*r, precision, exponent);
 }
 
 double NULLC::StrToDouble(NULLCArray str)
@@ -1172,11 +1183,7 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 		return arr;
 	}
 
-	char buf[256];
-	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
-	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
-	memcpy(arr.ptr, buf, arr.len);
-	return arr;
+	return FormatNumber(*r, precision, exponent);
 }
 
 NULLCFuncPtr NULLC::FunctionRedirect(NULLCRef r, NULLCArray* arr)
-- 
2.43.0


From 1cae99fa5c7124e9f8ab4edb378bed589d5ceb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:53 +0000
Subject: [PATCH 074/107] fix: conversion of a character array without a
 terminator to a number was reading past the end of the array

---
 NULLC/StdLib.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 97fd36d..147f9d0 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -40,6 +40,21 @@ namespace
 		return arr;
 	}
 
+	// Null-terminated text for the conversion to a number, array of characters might not have a terminator
+	const char* TerminatedText(NULLCArray str, FastVector<char> &buf)
+	{
+		if(!str.ptr || !str.len)
+			return "";
+
+		if(memchr(str.ptr, 0, str.len))
+			return str.ptr;
+
+		buf.push_back(str.ptr, str.len);
+		buf.push_back('\0');
+
+		return buf.data;
+	}
+
 	void* ReadVmMemoryPointer(void* address)
 	{
 		void *result;
@@ -1033,7 +1048,8 @@ long long NULLC::UnsignedValueInt(unsigned int a)
 
 int NULLC::StrToShort(NULLCArray str)
 {
-	return str.ptr ? short(atoi(str.ptr)) : 0;
+	FastVector<char> buf;
+	return short(atoi(TerminatedText(str, buf)));
 }
 
 NULLCArray NULLC::ShortToStr(short* r)
@@ -1069,7 +1085,8 @@ NULLCArray NULLC::ShortToStr(short* r)
 
 int NULLC::StrToInt(NULLCArray str)
 {
-	return str.ptr ? atoi(str.ptr) : 0;
+	FastVector<char> buf;
+	return atoi(TerminatedText(str, buf));
 }
 
 NULLCArray NULLC::IntToStr(int* r)
@@ -1105,10 +1122,8 @@ NULLCArray NULLC::IntToStr(int* r)
 
 long long NULLC::StrToLong(NULLCArray str)
 {
-	if(!str.ptr)
-		return 0;
-
-	const char *p = str.ptr;
+	FastVector<char> buf;
+	const char *p = TerminatedText(str, buf);
 
 	bool negative = *p == '-';
 	if(negative)
@@ -1154,7 +1169,8 @@ NULLCArray NULLC::LongToStr(long long* r)
 
 float NULLC::StrToFloat(NULLCArray str)
 {
-	return str.ptr ? float(atof(str.ptr)) : 0;
+	FastVector<char> buf;
+	return float(atof(TerminatedText(str, buf)));
 }
 
 NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
@@ -1171,7 +1187,8 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 
 double NULLC::StrToDouble(NULLCArray str)
 {
-	return str.ptr ? atof(str.ptr) : 0;
+	FastVector<char> buf;
+	return atof(TerminatedText(str, buf));
 }
 
 NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
-- 
2.43.0


From b7ebad0d10fce8eeefb0ee4c104867c12aca5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 075/107] fix: appending an empty string removed the last
 character of a string

---
 Modules/std/string.nc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Modules/std/string.nc b/Modules/std/string.nc
index f376a4c..630afef 100644
--- a/Modules/std/string.nc
+++ b/Modules/std/string.nc
@@ -199,14 +199,14 @@ char ref string:back()
 // Appends the string at the end
 string ref operator+=(string ref left, string ref right)
 {
-	left.data = left.data + right.data;
+	if(right.size)
+		left.data = left.data + right.data;
 	return left;
 }
 
 string ref operator+=(string ref left, char[] right)
 {
-	left.data = left.data + right;
-	return left;
+	return left += string(right);
 }
 
 // Inserts a string before the specified character
-- 
2.43.0


From fa69e015214d211fe295da8acd5d8e19a3980fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:31 +0000
Subject: [PATCH 076/107] fix: object was collected while a function value of
 its native member function was still in use

---
 NULLC/Executor_Common.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index ace997d..c1ea906 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -943,10 +943,6 @@ namespace GC
 
 		const ExternFuncInfo &func = NULLC::commonLinker->exFunctions[fPtr->id];
 
-		// External functions shouldn't be checked
-		if(func.regVmAddress == -1)
-			return;
-
 		// If context is "this" pointer
 		if(func.contextType != ~0u)
 			CheckPointer((char*)&fPtr->context);
-- 
2.43.0


From 5a93e440bfc4a1f4fc3cd533db6016f62ad4fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:31 +0000
Subject: [PATCH 077/107] fix: finalization of objects with references crashed
 if memory was never collected before

---
 NULLC/Executor_Common.cpp | 5 +----
 NULLC/StdLib.cpp          | 3 +++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index c1ea906..bdfd657 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -718,7 +718,7 @@ namespace GC
 	unsigned int	autoArrayName = NULLC::GetStringHash("auto[]");
 
 	FastVector<char*> rootsA, rootsB;
-	FastVector<char*> *curr = NULL, *next = NULL;
+	FastVector<char*> *curr = &rootsA, *next = &rootsB;
 
 	HashMap<int> functionIDs;
 
@@ -1214,9 +1214,6 @@ void GC::MarkUsedBlocks()
 
 void GC::MarkPendingRoots()
 {
-	if(!GC::next)
-		return;
-
 	if(GC::next->empty())
 		return;
 
diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 147f9d0..0ec7fe4 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -824,6 +824,9 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
+	// Reachable objects are not marked here, nothing is freed
+	blocksToFree.clear();
+
 	(void)nullcRunFunction("__finalizeObjects");
 	finalizeList.clear();
 }
-- 
2.43.0


From cc90243cea28cd11b685d9621def8d8343974756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:01 +0000
Subject: [PATCH 078/107] fix: unused hidden global variables without storage
 were scanned by the garbage collector

---
 NULLC/Compiler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index 4423380..fadf654 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -868,6 +868,9 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
 			continue;
 
+		if(variable->isAlloca && variable->users.empty())
+			continue;
+
 		externVariableInfoCount++;
 
 		globalVarCount++;
@@ -1476,6 +1479,9 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
 			continue;
 
+		if(variable->isAlloca && variable->users.empty())
+			continue;
+
 		if(variable->scope != ctx.exprCtx.globalScope && !variable->scope->ownerNamespace)
 			continue;
 
@@ -1501,6 +1507,9 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
 			continue;
 
+		if(variable->isAlloca && variable->users.empty())
+			continue;
+
 		if(variable->scope == ctx.exprCtx.globalScope || variable->scope->ownerNamespace)
 			continue;
 
-- 
2.43.0


From 5f350b3af23d40f3b7ab2ffa8399122d192bac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:33 +0000
Subject: [PATCH 079/107] fix: nested call of a generic function with an
 explicit alias list reported a duplicate definition

---
 NULLC/ExpressionTree.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 04fc9aa..760ac4c 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -927,13 +927,13 @@ namespace
 		return NULL;
 	}
 
-	bool SameGenerics(IntrusiveList<MatchData> a, IntrusiveList<TypeHandle> b)
+	bool SameGenerics(IntrusiveList<MatchData> a, IntrusiveList<MatchData> b)
 	{
 		if(a.size() != b.size())
 			return false;
 
 		MatchData *ca = a.head;
-		TypeHandle *cb = b.head;
+		MatchData *cb = b.head;
 
 		for(; ca && cb; ca = ca->next, cb = cb->next)
 		{
@@ -944,17 +944,22 @@ namespace
 		return true;
 	}
 
-	bool SameGenerics(IntrusiveList<MatchData> a, IntrusiveList<MatchData> b)
+	bool SameGenericsByName(IntrusiveList<MatchData> generics, IntrusiveList<MatchData> aliases)
 	{
-		if(a.size() != b.size())
-			return false;
+		for(MatchData *curr = generics.head; curr; curr = curr->next)
+		{
+			bool matched = false;
 
-		MatchData *ca = a.head;
-		MatchData *cb = b.head;
+			for(MatchData *alias = aliases.head; alias; alias = alias->next)
+			{
+				if(curr->name->name == alias->name->name)
+				{
+					matched = curr->type == alias->type;
+					break;
+				}
+			}
 
-		for(; ca && cb; ca = ca->next, cb = cb->next)
-		{
-			if(ca->type != cb->type)
+			if(!matched)
 				return false;
 		}
 
@@ -6936,7 +6941,8 @@ FunctionValue CreateGenericFunctionInstance(ExpressionContext &ctx, SynBase *sou
 		if(parentType != data->scope->ownerType)
 			continue;
 
-		if(!SameGenerics(data->generics, generics))
+		// Explicit type list might be missing or partial, compare with complete list of resolved aliases
+		if(!SameGenericsByName(data->generics, aliases))
 			continue;
 
 		if(!SameArguments(data->type, instance))
@@ -6967,7 +6973,7 @@ FunctionValue CreateGenericFunctionInstance(ExpressionContext &ctx, SynBase *sou
 			if(parentType != data->scope->ownerType)
 				continue;
 
-			if(!SameGenerics(data->generics, generics))
+			if(!SameGenericsByName(data->generics, aliases))
 				continue;
 
 			if(!SameArguments(data->type, instance))
-- 
2.43.0


From 3b01f62729009d8916ab480eaabb2e83a23c4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:33 +0000
Subject: [PATCH 080/107] fix: overload with a base class value argument was
 selected for a derived class value which can't be converted to it

---
 NULLC/ExpressionTree.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 760ac4c..6905235 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -5944,18 +5944,6 @@ unsigned GetFunctionRating(ExpressionContext &ctx, FunctionData *function, TypeF
 				}
 			}
 
-			if(isType<TypeClass>(expectedType) && isType<TypeClass>(actualType))
-			{
-				TypeClass *lClass = getType<TypeClass>(expectedType);
-				TypeClass *rClass = getType<TypeClass>(actualType);
-
-				if(IsDerivedFrom(rClass, lClass))
-				{
-					rating += 5;
-					continue;
-				}
-			}
-
 			if(isType<TypeFunction>(expectedType))
 			{
 				TypeFunction *lFunction = getType<TypeFunction>(expectedType);
-- 
2.43.0


From 9039d6cef7156df3e37847d3fa647463b090a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 081/107] fix: typeid of a null reference to an extendable
 class crashed

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 0ec7fe4..dbc3e81 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1275,7 +1275,7 @@ NULLC::TypeIDHelper NULLC::Typeid(NULLCRef r)
 {
 	TypeIDHelper help;
 
-	if(linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+	if(r.ptr && (linker->exTypes[r.typeID].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE))
 		help.id = *(int*)r.ptr;
 	else
 		help.id = r.typeID;
-- 
2.43.0


From 13b5058f62f5b5e39d336ab1c7396755e75862d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 082/107] fix: objects of extendable classes created by native
 functions had no type, and only the first element of an auto array was
 scanned by the garbage collector

---
 NULLC/StdLib.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++++++--
 NULLC/StdLib.h   |  3 +++
 NULLC/nullc.cpp  |  6 ++---
 3 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index dbc3e81..57fb622 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -572,6 +572,62 @@ NULLCArray NULLC::AllocArray(unsigned size, unsigned count, unsigned type)
 	return ret;
 }
 
+// Objects of extendable classes start with an ID of the actual type, it has to be set when object is not created by the compiled code
+void NULLC::InitTypeID(char* ptr, unsigned type)
+{
+	ExternTypeInfo &typeInfo = linker->exTypes[type];
+
+	if(typeInfo.subCat == ExternTypeInfo::CAT_CLASS)
+	{
+		if(typeInfo.typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+			memcpy(ptr, &type, sizeof(type));
+
+		for(unsigned i = 0; i < typeInfo.memberCount; i++)
+		{
+			ExternMemberInfo &member = linker->exTypeExtra[typeInfo.memberOffset + i];
+
+			InitTypeID(ptr + member.offset, member.type);
+		}
+	}
+	else if(typeInfo.subCat == ExternTypeInfo::CAT_ARRAY && typeInfo.arrSize != ~0u)
+	{
+		ExternTypeInfo &subType = linker->exTypes[typeInfo.subType];
+
+		if(subType.subCat != ExternTypeInfo::CAT_CLASS && subType.subCat != ExternTypeInfo::CAT_ARRAY)
+			return;
+
+		for(unsigned i = 0; i < typeInfo.arrSize; i++)
+			InitTypeID(ptr + i * subType.size, typeInfo.subType);
+	}
+}
+
+void* NULLC::AllocObjectTyped(unsigned type)
+{
+	char *ptr = (char*)AllocObject(linker->exTypes[type].size, type);
+
+	if(ptr)
+		InitTypeID(ptr, type);
+
+	return ptr;
+}
+
+NULLCArray NULLC::AllocArrayTyped(unsigned type, unsigned count)
+{
+	unsigned size = linker->exTypes[type].size;
+
+	NULLCArray arr = AllocArray(size, count, type);
+
+	ExternTypeInfo::SubCategory subCat = linker->exTypes[type].subCat;
+
+	if(arr.ptr && (subCat == ExternTypeInfo::CAT_CLASS || subCat == ExternTypeInfo::CAT_ARRAY))
+	{
+		for(unsigned i = 0; i < count; i++)
+			InitTypeID(arr.ptr + i * size, type);
+	}
+
+	return arr;
+}
+
 void NULLC::MarkBlock(Range& curr)
 {
 	markerType *marker = (markerType*)((char*)curr.start + 4);
@@ -1470,9 +1526,11 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 		return;
 	}
 
+	NULLCArray data = AllocArrayTyped(type, count);
+
 	arr->typeID = type;
-	arr->len = count;
-	arr->ptr = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	arr->len = data.len;
+	arr->ptr = data.ptr;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
diff --git a/NULLC/StdLib.h b/NULLC/StdLib.h
index 068b7c1..27f4f1b 100644
--- a/NULLC/StdLib.h
+++ b/NULLC/StdLib.h
@@ -46,6 +46,9 @@ namespace NULLC
 	
 	void*		AllocObject(int size, unsigned type);
 	NULLCArray	AllocArray(unsigned size, unsigned count, unsigned type);
+	void		InitTypeID(char* ptr, unsigned type);
+	void*		AllocObjectTyped(unsigned type);
+	NULLCArray	AllocArrayTyped(unsigned type, unsigned count);
 	NULLCRef	CopyObject(NULLCRef ptr);
 	void		CopyArray(NULLCAutoArray* dst, NULLCAutoArray src);
 	NULLCRef	ReplaceObject(NULLCRef l, NULLCRef r);
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 51aaa58..a8377f8 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1654,7 +1654,7 @@ void* nullcAllocateTyped(unsigned typeID)
 	using namespace NULLC;
 	NULLC_CHECK_INITIALIZED(0);
 
-	return NULLC::AllocObject(nullcGetTypeSize(typeID), typeID);
+	return NULLC::AllocObjectTyped(typeID);
 }
 
 NULLCRef nullcAllocateObjectTyped(unsigned typeID)
@@ -1663,7 +1663,7 @@ NULLCRef nullcAllocateObjectTyped(unsigned typeID)
 	NULLCRef r = { 0, 0 };
 	NULLC_CHECK_INITIALIZED(r);
 
-	r.ptr = (char*)NULLC::AllocObject(nullcGetTypeSize(typeID), typeID);
+	r.ptr = (char*)NULLC::AllocObjectTyped(typeID);
 	r.typeID = typeID;
 
 	return r;
@@ -1675,7 +1675,7 @@ NULLCArray nullcAllocateArrayTyped(unsigned typeID, unsigned count)
 	NULLCArray arr = { 0, 0 };
 	NULLC_CHECK_INITIALIZED(arr);
 	
-	return NULLC::AllocArray(nullcGetTypeSize(typeID), count, typeID);
+	return NULLC::AllocArrayTyped(typeID, count);
 }
 
 int nullcInitTypeinfoModule()
-- 
2.43.0


From 5c43c15c82a6ee9bc35d5f1661352035c1c91534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 083/107] fix: only the first element of a duplicated auto
 array was scanned by the garbage collector

---
 NULLC/StdLib.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 57fb622..36848a0 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -965,10 +965,14 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 		return;
 	}
 	dst->typeID = src.typeID;
-	dst->len = src.len;
-	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
 
-	if(src.len)
+
+	NULLCArray data = AllocArray(linker->exTypes[src.typeID].size, src.len, src.typeID);
+
+	dst->len = data.len;
+	dst->ptr = data.ptr;
+
+	if(data.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
 }
 
-- 
2.43.0


From 235ba615d522d215dc71e82351cc328f07d052fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 084/107] fix: auto_array.set past the end wrote out of the
 array bounds

---
 NULLC/StdLib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 36848a0..9880665 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1555,8 +1555,8 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 	{
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
-			newSize = pos;
-		NULLCAutoArray n;
+			newSize = pos + 1;
+		NULLCAutoArray n = { 0, 0, 0 };
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
 			return;
-- 
2.43.0


From c848ea7c1308a704407fa32a50555e1f57ceb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 085/107] fix: object copy, replace, swap, compare and assign
 functions crashed on a null reference

---
 NULLC/StdLib.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 9880665..a6f9e14 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -952,7 +952,14 @@ NULLCRef NULLC::CopyObject(NULLCRef ptr)
 	NULLCRef ret;
 	ret.typeID = ptr.typeID;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
+	if(!ptr.ptr && objSize)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ptr;
+	}
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
+	if(!ret.ptr)
+		return ret;
 	memcpy(ret.ptr, ptr.ptr, objSize);
 	return ret;
 }
@@ -983,6 +990,11 @@ NULLCRef NULLC::ReplaceObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: cannot convert from %s ref to %s ref", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return l;
 	}
+	if((!l.ptr || !r.ptr) && linker->exTypes[r.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return l;
+	}
 	memcpy(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
 	return l;
 }
@@ -996,9 +1008,17 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 	}
 	unsigned size = linker->exTypes[l.typeID].size;
 
+	if((!l.ptr || !r.ptr) && size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
 	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, l.typeID);
+	if(!tmp)
+		return;
 	memcpy(tmp, l.ptr, size);
 	memcpy(l.ptr, r.ptr, size);
 	memcpy(r.ptr, tmp, size);
@@ -1011,6 +1031,11 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return 0;
 	}
+	if((!l.ptr || !r.ptr) && linker->exTypes[l.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	return 0 == memcmp(l.ptr, r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -1021,6 +1046,11 @@ void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	memcpy(l.ptr, &r.ptr, linker->exTypes[l.typeID].size);
 }
 
-- 
2.43.0


From 8c98a8eda584bbf4a358185440894f118505458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:55 +0000
Subject: [PATCH 086/107] fix: type information functions crashed on a null
 reference to a function or a pointer

---
 NULLC/includes/typeinfo.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/NULLC/includes/typeinfo.cpp b/NULLC/includes/typeinfo.cpp
index b770bb2..851e898 100644
--- a/NULLC/includes/typeinfo.cpp
+++ b/NULLC/includes/typeinfo.cpp
@@ -116,6 +116,14 @@ namespace NULLCTypeInfo
 			return r;
 		}
 
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+
+			NULLCRef r = { 0, 0 };
+			return r;
+		}
+
 		NULLCRef r;
 		r.ptr = *(char**)obj.ptr;
 		r.typeID = type.subType;
@@ -340,6 +348,12 @@ namespace NULLCTypeInfo
 			return getTypeID(0);
 		}
 
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return getTypeID(0);
+		}
+
 		ExternFuncInfo &function = linker->exFunctions[*(int*)(obj.ptr + NULLC_PTR_SIZE)];
 		return getTypeID(function.contextType != ~0u ? function.contextType : 0);
 	}
@@ -359,6 +373,14 @@ namespace NULLCTypeInfo
 			return ret;
 		}
 
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			ret.ptr = NULL;
+			ret.typeID = 0;
+			return ret;
+		}
+
 		NULLCFuncPtr *ptr = (NULLCFuncPtr*)obj.ptr;
 
 		ExternFuncInfo &function = linker->exFunctions[ptr->id];
@@ -386,6 +408,12 @@ namespace NULLCTypeInfo
 			return;
 		}
 
+		if(!obj.ptr)
+		{
+			nullcThrowError("ERROR: null pointer access");
+			return;
+		}
+
 		NULLCFuncPtr *ptr = (NULLCFuncPtr*)obj.ptr;
 
 		ExternFuncInfo &function = linker->exFunctions[ptr->id];
-- 
2.43.0


From 50c3206bcb1bb9babd1ad486b3571534db4ac2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:42 +0000
Subject: [PATCH 087/107] fix: instance of a generic function made an otherwise
 resolved call ambiguous after a previous call of the generic function

---
 NULLC/ExpressionTree.cpp | 54 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 6905235..e521e46 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -6853,6 +6853,60 @@ FunctionValue SelectBestFunction(ExpressionContext &ctx, SynBase *source, ArrayV
 	}
 	else
 	{
+		// If regular function has the same rating as an existing instance of a generic function that is also being considered, instance is hidden just like the generic function it came from
+		for(unsigned i = 0; i < functions.count; i++)
+		{
+			FunctionData *instance = functions.data[i].function;
+
+			if(bestRating == ~0u || ratings.data[i] != bestRating || !(instance->proto || instance->isGenericInstance))
+				continue;
+
+			bool hasRegular = false;
+			FunctionValue regular;
+			bool hasGeneric = false;
+
+			for(unsigned k = 0; k < functions.count; k++)
+			{
+				FunctionData *function = functions.data[k].function;
+
+				if(ratings.data[k] != bestRating)
+					continue;
+
+				if(!ctx.IsGenericFunction(function))
+				{
+					if(!function->proto && !function->isGenericInstance)
+					{
+						hasRegular = true;
+						regular = functions.data[k];
+					}
+
+					continue;
+				}
+
+				if((instance->proto && instance->proto != function) || instanceTypes[i]->arguments.size() != instanceTypes[k]->arguments.size())
+					continue;
+
+				bool sameArguments = true;
+
+				for(unsigned arg = 0; arg < instanceTypes[i]->arguments.size(); arg++)
+				{
+					if(instanceTypes[i]->arguments[arg]->type != instanceTypes[k]->arguments[arg]->type)
+						sameArguments = false;
+				}
+
+				if(sameArguments)
+					hasGeneric = true;
+			}
+
+			if(regular && hasGeneric)
+			{
+				ratings.data[i] = ~0u;
+
+				if(bestFunction.function == instance)
+					bestFunction = regular;
+			}
+		}
+
 		// Hide all generic functions from selection
 		for(unsigned i = 0; i < functions.count; i++)
 		{
-- 
2.43.0


From 66336767c2879f8245f8ae0895f2397af55e057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:04 +0000
Subject: [PATCH 088/107] fix: fault in a nested run of the JIT executor left
 an error handler of a finished function call

---
 NULLC/Executor_X86.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 2ae5a50..94d96c1 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1009,13 +1009,13 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		NULLC::JmpBufData data;
 		NULLC::copyMemory(data.data, NULLC::errorHandler, sizeof(sigjmp_buf));
 
+		jmp_buf prevErrorHandler;
+		NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
+
 		if(!(errorCode = sigsetjmp(NULLC::errorHandler, 1)))
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1026,14 +1026,14 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		else
 		{
 			resultType = rvrError;
 		}
 
+		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
+
 		// Disable signal handlers only from top-level Run
 		if(lastFinalReturn == 0)
 		{
-- 
2.43.0


From 3ef4acf2c7348ff27d9c2f922a252278b6f7c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:07 +0000
Subject: [PATCH 089/107] fix: members of a class passed to a script function
 by the host were placed without regard to their offsets

---
 NULLC/nullc.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index a8377f8..05b0b49 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -999,34 +999,37 @@ const char*	nullcGetArgumentVector(unsigned functionID, uintptr_t extra, va_list
 				argPos += sizeof(NULLCAutoArray);
 			}else if(tInfo.subCat == ExternTypeInfo::CAT_CLASS){
 				ExternMemberInfo *memberList = &linker->exTypeExtra[tInfo.memberOffset];
+				memset(argPos, 0, tInfo.size);
 				for(unsigned k = 0; k < tInfo.memberCount; k++)
 				{
 					const ExternTypeInfo &subType = linker->exTypes[memberList[k].type];
+					char *memberPos = argPos + memberList[k].offset;
 					switch(subType.type)
 					{
 					case ExternTypeInfo::TYPE_CHAR:
+						*(char*)memberPos = (char)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_SHORT:
+						*(short*)memberPos = (short)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_INT:
-						*(int*)argPos = va_arg(args, int);
-						argPos += 4;
+						*(int*)memberPos = va_arg(args, int);
 						break;
 					case ExternTypeInfo::TYPE_LONG:
-						*(long long*)argPos = va_arg(args, long long);
-						argPos += 8;
+						*(long long*)memberPos = va_arg(args, long long);
 						break;
 					case ExternTypeInfo::TYPE_FLOAT:
-						*(float*)argPos = (float)va_arg(args, double);
-						argPos += 4;
+						*(float*)memberPos = (float)va_arg(args, double);
 						break;
 					case ExternTypeInfo::TYPE_DOUBLE:
-						*(double*)argPos = va_arg(args, double);
-						argPos += 8;
+						*(double*)memberPos = va_arg(args, double);
 						break;
 					default:
 						nullcLastError = "ERROR: unsupported complex function parameter";
 						return NULL;
 					}
 				}
+				argPos += tInfo.size;
 			}else{
 				nullcLastError = "ERROR: unsupported complex function parameter";
 				return NULL;
-- 
2.43.0


From dd6957b50d8b2c0cbf22f9a32211b401a5867e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:09 +0000
Subject: [PATCH 090/107] fix: debugger stopped inside of a call lost the place
 to return to when more breakpoints were added, and missed a step back to the
 same instruction

---
 NULLC/Executor_RegVm.cpp | 82 +++++++++++++++++++++++-----------------
 NULLC/Executor_RegVm.h   |  6 ++-
 2 files changed, 53 insertions(+), 35 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index d8e87d4..911bfa0 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -94,6 +94,8 @@ ExecutorRegVm::~ExecutorRegVm()
 
 	NULLC::dealloc(regFileArrayBase);
 
+	FreeBreakBlocks();
+
 #if !defined(NULLC_NO_RAW_EXTERNAL_CALL)
 	if(dcCallVM)
 		dcFree(dcCallVM);
@@ -1293,12 +1295,18 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			return NULL;
 		}
 
+		RegVmCmd *breakBlock = breakCode[target];
+
+		// This breakpoint works only once (step command might place it on the same instruction again)
+		if(cmd.rB == EXEC_BREAK_ONCE)
+			*instruction = *breakBlock;
+
 		// Step command - set breakpoint on the next instruction, if there is no breakpoint already
 		if(response)
 		{
 			// Next instruction for step command
 			RegVmCmd *nextCommand = instruction + 1;
-			RegVmCmd& breakCmd = breakCode[target];
+			RegVmCmd& breakCmd = *breakBlock;
 
 			// Step command - handle unconditional jump step
 			if(breakCmd.code == rviJmp)
@@ -1327,23 +1335,15 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 
 			if(nextCommand->code != rviNop)
 			{
-				unsigned pos = breakCode.size();
-				breakCode.push_back(*nextCommand);
+				unsigned pos = CreateBreakBlock(unsigned(nextCommand - &exLinker->exRegVmCode[0]));
 				nextCommand->code = rviNop;
 				nextCommand->rB = EXEC_BREAK_ONCE;
 				nextCommand->argument = pos;
 			}
 		}
-		// This flag means that breakpoint works only once
-		if(cmd.rB == EXEC_BREAK_ONCE)
-		{
-			*instruction = breakCode[target];
-
-			return instruction;
-		}
 
 		// Jump to external code
-		return &breakCode[target];
+		return breakBlock;
 	}
 
 	return codeBase + cmd.argument;
@@ -1766,11 +1766,14 @@ unsigned ExecutorRegVm::GetCallStackAddress(unsigned frame)
 
 	RegVmCmd *instruction = callStack[frame];
 
-	if(instruction >= breakCode.data && instruction < breakCode.data + breakCode.count)
+	// Call made from the breakpoint code returns to the jump back
+	if(instruction < exLinker->exRegVmCode.data || instruction > exLinker->exRegVmCode.data + exLinker->exRegVmCode.size())
 	{
-		assert(instruction->code == rviNop);
-
-		return instruction->argument;
+		for(unsigned i = 0; i < breakCode.size(); i++)
+		{
+			if(instruction == breakCode[i] + 1)
+				return instruction->argument;
+		}
 	}
 
 	return unsigned(instruction - codeBase);
@@ -1800,8 +1803,31 @@ void ExecutorRegVm::ClearBreakpoints()
 		// nop instruction is used for breaks
 		// break structure: cmdOriginal, cmdNop
 		if(exLinker->exRegVmCode[i].code == rviNop)
-			exLinker->exRegVmCode[i] = breakCode[exLinker->exRegVmCode[i].argument];	// replace it with original instruction
+			exLinker->exRegVmCode[i] = *breakCode[exLinker->exRegVmCode[i].argument];	// replace it with original instruction
 	}
+
+	// Active calls might still return to the breakpoint code
+	if(!codeRunning)
+		FreeBreakBlocks();
+}
+
+unsigned ExecutorRegVm::CreateBreakBlock(unsigned instruction)
+{
+	RegVmCmd *block = (RegVmCmd*)NULLC::alloc(sizeof(RegVmCmd) * 2);
+
+	block[0] = exLinker->exRegVmCode[instruction];
+	block[1] = RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1);
+
+	breakCode.push_back(block);
+
+	return breakCode.size() - 1;
+}
+
+void ExecutorRegVm::FreeBreakBlocks()
+{
+	for(unsigned i = 0; i < breakCode.size(); i++)
+		NULLC::dealloc(breakCode[i]);
+
 	breakCode.clear();
 }
 
@@ -1814,8 +1840,6 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	unsigned pos = breakCode.size();
-
 	if(exLinker->exRegVmCode[instruction].code == rviNop)
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: cannot set breakpoint on breakpoint");
@@ -1823,22 +1847,12 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	if(oneHit)
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_ONCE;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
-	else
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		breakCode.push_back(RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1));
+	unsigned pos = CreateBreakBlock(instruction);
+
+	exLinker->exRegVmCode[instruction].code = rviNop;
+	exLinker->exRegVmCode[instruction].rB = oneHit ? EXEC_BREAK_ONCE : EXEC_BREAK_SIGNAL;
+	exLinker->exRegVmCode[instruction].argument = pos;
 
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_SIGNAL;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
 	return true;
 }
 
@@ -1858,7 +1872,7 @@ bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 		return false;
 	}
 
-	exLinker->exRegVmCode[instruction] = breakCode[exLinker->exRegVmCode[instruction].argument];
+	exLinker->exRegVmCode[instruction] = *breakCode[exLinker->exRegVmCode[instruction].argument];
 	return true;
 }
 
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index fe9aad7..a1f9f52 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -99,7 +99,11 @@ private:
 	void *breakFunctionContext;
 	unsigned (*breakFunction)(void*, unsigned);
 
-	FastVector<RegVmCmd>	breakCode;
+	// Every breakpoint has its own block with the original instruction and a jump back (blocks do not move because active calls may return to them)
+	FastVector<RegVmCmd*>	breakCode;
+
+	unsigned CreateBreakBlock(unsigned instruction);
+	void FreeBreakBlocks();
 
 	static RegVmReturnType RunCode(RegVmCmd *instruction, RegVmRegister * const regFilePtr, ExecutorRegVm *rvm, RegVmCmd *codeBase);
 
-- 
2.43.0


From 9c132f26a2fca9ed68aa80a0a71c84fab463b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:58 +0000
Subject: [PATCH 091/107] fix: debugger step over the return to the host placed
 a breakpoint behind the end of the function

---
 NULLC/Executor_RegVm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 911bfa0..a8fb9bc 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1318,8 +1318,8 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			if(breakCmd.code == rviJmpnz && regFilePtr[cmd.rC].intValue != 0)
 				nextCommand = codeBase + breakCmd.argument;
 			// Step command - handle "return" step
-			if(breakCmd.code == rviReturn && callStack.size() != lastFinalReturn)
-				nextCommand = callStack.back();
+			if(breakCmd.code == rviReturn)
+				nextCommand = callStack.size() != lastFinalReturn ? callStack.back() : NULL;
 
 			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCall && exFunctions[breakCmd.argument].regVmAddress != -1)
 				nextCommand = codeBase + exFunctions[breakCmd.argument].regVmAddress;
@@ -1330,10 +1330,10 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 				nextCommand = callStack.back();
 
 			// If the next instruction is the breakpoint pseudo-command to return to regular code, place a one time breakpoint on its target
-			if(nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
+			if(nextCommand && nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
 				nextCommand = &exLinker->exRegVmCode[nextCommand->argument];
 
-			if(nextCommand->code != rviNop)
+			if(nextCommand && nextCommand->code != rviNop)
 			{
 				unsigned pos = CreateBreakBlock(unsigned(nextCommand - &exLinker->exRegVmCode[0]));
 				nextCommand->code = rviNop;
-- 
2.43.0


From 97f63269262d980820fd0b392b419f690093431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:04 +0000
Subject: [PATCH 092/107] fix: nullc_exec aborted after a script which does not
 return an 'int'

---
 nullc_exec/main.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nullc_exec/main.cpp b/nullc_exec/main.cpp
index e90a662..fba4abf 100644
--- a/nullc_exec/main.cpp
+++ b/nullc_exec/main.cpp
@@ -227,7 +227,21 @@ int main(int argc, char** argv)
 
 				result = 0;
 			}else{
-				result = nullcGetResultInt();
+				// The result is the exit status when it is a number
+				switch(nullcGetResultType())
+				{
+				case NULLC_TYPE_INT:
+					result = nullcGetResultInt();
+					break;
+				case NULLC_TYPE_LONG:
+					result = (int)nullcGetResultLong();
+					break;
+				case NULLC_TYPE_DOUBLE:
+					result = (int)nullcGetResultDouble();
+					break;
+				default:
+					result = 0;
+				}
 			}
 		}else{
 			printf("Execution failed: %s\n", nullcGetLastError());
-- 
2.43.0


From b968a37880da27b61cc594737a57c78b936369ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:44 +0000
Subject: [PATCH 093/107] fix: command line tools crashed on damaged or
 unreadable input files and reported success after errors

---
 nullc_exec/main.cpp | 92 +++++++++++++++++++++++++++++++++------------
 nullcl/main.cpp     | 76 ++++++++++++++++++++++++++-----------
 2 files changed, 121 insertions(+), 47 deletions(-)

diff --git a/nullc_exec/main.cpp b/nullc_exec/main.cpp
index fba4abf..ff73877 100644
--- a/nullc_exec/main.cpp
+++ b/nullc_exec/main.cpp
@@ -1,4 +1,5 @@
 #include "../NULLC/nullc.h"
+#include "../NULLC/Bytecode.h"
 
 #if defined(_MSC_VER)
 	#define BUILD_FOR_WINDOWS
@@ -33,6 +34,41 @@
 	#include "../NULLC/includes/window.h"
 #endif
 
+char* ReadFile(const char *fileName, unsigned &size)
+{
+	size = 0;
+
+	FILE *file = fopen(fileName, "rb");
+
+	if(!file)
+		return NULL;
+
+	// Folder can be opened on some platforms
+	long fileSize = fseek(file, 0, SEEK_END) == 0 ? ftell(file) : -1;
+
+	if(fileSize < 0 || fileSize > 0x7ffffff0 || fseek(file, 0, SEEK_SET) != 0)
+	{
+		fclose(file);
+		return NULL;
+	}
+
+	char *fileContent = new char[fileSize + 1];
+	size = (unsigned)fread(fileContent, 1, fileSize, file);
+	fileContent[size] = 0;
+
+	bool complete = size == (unsigned)fileSize;
+
+	fclose(file);
+
+	if(!complete)
+	{
+		delete[] fileContent;
+		return NULL;
+	}
+
+	return fileContent;
+}
+
 typedef nullres (*externalInit)(nullres (*)(const char*, const char*), nullres (*)(const char*, void (*)(), const char*, int));
 
 int main(int argc, char** argv)
@@ -67,7 +103,7 @@ int main(int argc, char** argv)
 	if(!fileName)
 	{
 		printf("File must be specified\n");
-		return 0;
+		return 1;
 	}
 
 	nullcInit();
@@ -79,7 +115,8 @@ int main(int argc, char** argv)
 	#define X64_LIB "nullclib_x64.ncm"
 #endif
 
-	FILE *modulePack = fopen(sizeof(void*) == sizeof(int) ? "nullclib.ncm" : X64_LIB, "rb");
+	unsigned modulePackSize = 0;
+	char *modulePack = ReadFile(sizeof(void*) == sizeof(int) ? "nullclib.ncm" : X64_LIB, modulePackSize);
 	if(!modulePack)
 	{
 		if(verbose)
@@ -90,24 +127,34 @@ int main(int argc, char** argv)
 	}
 	else
 	{
-		fseek(modulePack, 0, SEEK_END);
-		unsigned int fileSize = ftell(modulePack);
-		fseek(modulePack, 0, SEEK_SET);
-		char *fileContent = new char[fileSize];
-		fread(fileContent, 1, fileSize, modulePack);
-		fclose(modulePack);
-
-		char *filePos = fileContent;
-		while((unsigned int)(filePos - fileContent) < fileSize)
+		char *filePos = modulePack;
+		char *fileEnd = modulePack + modulePackSize;
+
+		while(filePos < fileEnd)
 		{
 			char *moduleName = filePos;
-			filePos += strlen(moduleName) + 1;
-			char *binaryCode = filePos;
-			filePos += *(unsigned int*)binaryCode;
+			char *binaryCode = filePos + strlen(moduleName) + 1;
+
+			unsigned binarySize = 0;
+
+			if(binaryCode < fileEnd && unsigned(fileEnd - binaryCode) >= sizeof(ByteCode))
+				memcpy(&binarySize, binaryCode, sizeof(binarySize));
+
+			if(binarySize < sizeof(ByteCode) || binarySize > unsigned(fileEnd - binaryCode))
+			{
+				printf("ERROR: precompiled module file is damaged\n");
+
+				delete[] modulePack;
+				nullcTerminate();
+				return 1;
+			}
+
 			nullcLoadModuleByBinary(moduleName, binaryCode);
+
+			filePos = binaryCode + binarySize;
 		}
 
-		delete[] fileContent;
+		delete[] modulePack;
 	}
 
 	if(!nullcInitTypeinfoModule() && verbose)
@@ -181,19 +228,14 @@ int main(int argc, char** argv)
 	if(logging)
 		nullcSetEnableLogFiles(true, NULL, NULL, NULL);
 
-	FILE *ncFile = fopen(fileName, "rb");
-	if(!ncFile)
+	unsigned textSize = 0;
+	char *fileContent = ReadFile(fileName, textSize);
+	if(!fileContent)
 	{
 		printf("File not found\n");
-		return 0;
+		nullcTerminate();
+		return 1;
 	}
-	fseek(ncFile, 0, SEEK_END);
-	unsigned int textSize = ftell(ncFile);
-	fseek(ncFile, 0, SEEK_SET);
-	char *fileContent = new char[textSize+1];
-	fread(fileContent, 1, textSize, ncFile);
-	fileContent[textSize] = 0;
-	fclose(ncFile);
 
 	if(profile)
 	{
diff --git a/nullcl/main.cpp b/nullcl/main.cpp
index a4ddf57..9f7113c 100644
--- a/nullcl/main.cpp
+++ b/nullcl/main.cpp
@@ -74,6 +74,37 @@ bool SearchAndAddSourceFile(char*& buf, const char* name)
 	return false;
 }
 
+char* ReadFile(const char *fileName)
+{
+	FILE *file = fopen(fileName, "rb");
+
+	if(!file)
+		return NULL;
+
+	// Folder can be opened on some platforms
+	long fileSize = fseek(file, 0, SEEK_END) == 0 ? ftell(file) : -1;
+
+	if(fileSize < 0 || fileSize > 0x7ffffff0 || fseek(file, 0, SEEK_SET) != 0)
+	{
+		fclose(file);
+		return NULL;
+	}
+
+	char *fileContent = new char[fileSize + 1];
+	size_t readSize = fread(fileContent, 1, fileSize, file);
+	fileContent[readSize] = 0;
+
+	fclose(file);
+
+	if(readSize != (size_t)fileSize)
+	{
+		delete[] fileContent;
+		return NULL;
+	}
+
+	return fileContent;
+}
+
 int main(int argc, char** argv)
 {
 	nullcInit();
@@ -96,6 +127,13 @@ int main(int argc, char** argv)
 		argIndex++;
 
 		verbose = true;
+
+		if(argIndex == argc)
+		{
+			printf("Input file name not found after options\n");
+			nullcTerminate();
+			return 1;
+		}
 	}
 
 	if(strcmp("-o", argv[argIndex]) == 0)
@@ -151,22 +189,14 @@ int main(int argc, char** argv)
 		}
 
 		const char *fileName = argv[argIndex++];
-		FILE *ncFile = fopen(fileName, "rb");
-		if(!ncFile)
+		char *fileContent = ReadFile(fileName);
+		if(!fileContent)
 		{
 			printf("Cannot open file %s\n", fileName);
 			nullcTerminate();
 			return 1;
 		}
 
-		fseek(ncFile, 0, SEEK_END);
-		unsigned int textSize = ftell(ncFile);
-		fseek(ncFile, 0, SEEK_SET);
-		char *fileContent = new char[textSize+1];
-		fread(fileContent, 1, textSize, ncFile);
-		fileContent[textSize] = 0;
-		fclose(ncFile);
-
 		if(!nullcCompile(fileContent))
 		{
 			printf("Compilation of %s failed with error:\n%s\n", fileName, nullcGetLastError());
@@ -246,25 +276,19 @@ int main(int argc, char** argv)
 		return 0;
 	}
 	int currIndex = argIndex;
+	bool failed = false;
 	while(argIndex < argc)
 	{
 		const char *fileName = argv[argIndex++];
 
-		FILE *ncFile = fopen(fileName, "rb");
-		if(!ncFile)
+		char *fileContent = ReadFile(fileName);
+		if(!fileContent)
 		{
 			printf("Cannot open file %s\n", fileName);
+			failed = true;
 			break;
 		}
 
-		fseek(ncFile, 0, SEEK_END);
-		unsigned int textSize = ftell(ncFile);
-		fseek(ncFile, 0, SEEK_SET);
-		char *fileContent = new char[textSize+1];
-		fread(fileContent, 1, textSize, ncFile);
-		fileContent[textSize] = 0;
-		fclose(ncFile);
-
 		if(!nullcCompile(fileContent))
 		{
 			printf("Compilation of %s failed with error:\n%s\n", fileName, nullcGetLastError());
@@ -286,6 +310,7 @@ int main(int argc, char** argv)
 				printf("Module name not found after -m\n");
 
 				delete[] bytecode;
+				failed = true;
 				break;
 			}
 
@@ -294,6 +319,7 @@ int main(int argc, char** argv)
 				printf("Module name is too long\n");
 
 				delete[] bytecode;
+				failed = true;
 				break;
 			}
 
@@ -308,6 +334,7 @@ int main(int argc, char** argv)
 				printf("File name is too long\n");
 
 				delete[] bytecode;
+				failed = true;
 				break;
 			}
 
@@ -333,6 +360,7 @@ int main(int argc, char** argv)
 				printf("File name is too long\n");
 
 				delete[] bytecode;
+				failed = true;
 				break;
 			}
 
@@ -344,6 +372,7 @@ int main(int argc, char** argv)
 				printf("Cannot create output file %s\n", newName);
 
 				delete[] bytecode;
+				failed = true;
 				break;
 			}
 			fwrite(moduleName, 1, strlen(moduleName) + 1, nmcFile);
@@ -356,13 +385,16 @@ int main(int argc, char** argv)
 
 		delete[] bytecode;
 	}
-	if(currIndex == argIndex)
+	if(currIndex == argc)
+	{
 		printf("None of the input files were found\n");
+		failed = true;
+	}
 
 	if(mergeFile)
 		fclose(mergeFile);
 
 	nullcTerminate();
 
-	return argIndex != argc;	
+	return failed;
 }
-- 
2.43.0


From 5d95af49bca6ee424300abb12d1d2fec2650d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:44 +0000
Subject: [PATCH 094/107] fix: nullcl derived wrong module names from file
 names with folders

---
 nullcl/main.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/nullcl/main.cpp b/nullcl/main.cpp
index 9f7113c..c26d40b 100644
--- a/nullcl/main.cpp
+++ b/nullcl/main.cpp
@@ -338,14 +338,22 @@ int main(int argc, char** argv)
 				break;
 			}
 
-			strcpy(moduleName, fileName);
-			if(char *extensionPos = strchr(moduleName, '.'))
+			// Path relative to the current folder
+			const char *relativeName = fileName;
+			while(relativeName[0] == '.' && (relativeName[1] == '/' || relativeName[1] == '\\'))
+				relativeName += 2;
+
+			strcpy(moduleName, relativeName);
+
+			// Remove file extension
+			char *extensionPos = strrchr(moduleName, '.');
+			if(extensionPos && !strchr(extensionPos, '/') && !strchr(extensionPos, '\\'))
 				*extensionPos = '\0';
-			char	*pos = moduleName;
-			while(*pos)
+
+			for(char *pos = moduleName; *pos; pos++)
 			{
-				if(*pos++ == '\\' || *pos++ == '/')
-					pos[-1] = '.';
+				if(*pos == '\\' || *pos == '/')
+					*pos = '.';
 			}
 		}
 		nullcLoadModuleByBinary(moduleName, (const char*)bytecode);
-- 
2.43.0


From 89d670324ac5f82ae4061ba1b12669b7fe0ac085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:01 +0000
Subject: [PATCH 095/107] fix: small objects were charged less than they use
 when checked against the memory limit

---
 NULLC/StdLib.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index a6f9e14..2eb0984 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -443,17 +443,28 @@ void* NULLC::AllocObject(int size, unsigned type)
 	void *data = NULL;
 	size += sizeof(markerType);
 
-	if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+	// Small objects take the whole block of a pool
+	unsigned int blockSize = size;
+
+	if(size <= 512)
+	{
+		blockSize = 8;
+
+		while(blockSize < (unsigned int)size)
+			blockSize *= 2;
+	}
+
+	if(usedMemory + blockSize > globalMemoryLimit)
 	{
 		CollectMemory();
 
-		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+		if(usedMemory + blockSize > globalMemoryLimit)
 		{
 			nullcThrowError("ERROR: reached global memory maximum");
 			return NULL;
 		}
 	}
-	else if((unsigned int)(usedMemory + size) > collectableMinimum)
+	else if(usedMemory + blockSize > collectableMinimum)
 	{
 		CollectMemory();
 	}
-- 
2.43.0


From 6ced5381791a806e8340618692f345f12da6416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:51 +0000
Subject: [PATCH 096/107] fix: std.error try could restart the executor or
 crash when it caught an error with no memory left

---
 NULLC/includes/error.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/NULLC/includes/error.cpp b/NULLC/includes/error.cpp
index e175dfe..8b49ea7 100644
--- a/NULLC/includes/error.cpp
+++ b/NULLC/includes/error.cpp
@@ -3,6 +3,7 @@
 #include "../../NULLC/nullc.h"
 #include "../../NULLC/nullbind.h"
 #include "../../NULLC/nullc_debug.h"
+#include "../../NULLC/Array.h"
 
 namespace NULLCError
 {
@@ -42,18 +43,28 @@ namespace NULLCError
 
 		if(!nullcCallFunction(functionValue))
 		{
-			if(message)
-			{
-				const char *rawMessage = nullcGetLastError();
-				unsigned rawLength = unsigned(strlen(rawMessage));
+			*exception = nullcGetLastErrorObject();
 
-				*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawLength + 1);
-				strcpy(message->ptr, rawMessage);
+			if(!message)
+			{
+				nullcClearError();
+				return false;
 			}
 
-			*exception = nullcGetLastErrorObject();
+			FastVector<char> rawMessage;
+			rawMessage.push_back(nullcGetLastError(), unsigned(strlen(nullcGetLastError())) + 1);
 
+			// Allocation might start a garbage collection, which can only be performed when the execution is resumed
 			nullcClearError();
+
+			*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawMessage.size());
+
+			// There might be no memory left for the message
+			if(message->ptr)
+				memcpy(message->ptr, rawMessage.data, rawMessage.size());
+			else
+				nullcClearError();
+
 			return false;
 		}
 
-- 
2.43.0


From 64d1decf37465374195b7332bd9d4653cad2b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:45 +0000
Subject: [PATCH 097/107] fix: allocation failed at the memory limit when only
 finalized garbage was left

---
 NULLC/StdLib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 2eb0984..8b65a6f 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -458,6 +458,10 @@ void* NULLC::AllocObject(int size, unsigned type)
 	{
 		CollectMemory();
 
+		// Objects with a finalizer are freed by the next collection after the one that has finalized them
+		if(usedMemory + blockSize > globalMemoryLimit)
+			CollectMemory();
+
 		if(usedMemory + blockSize > globalMemoryLimit)
 		{
 			nullcThrowError("ERROR: reached global memory maximum");
-- 
2.43.0


From 128d345c82dbd67e846487d4e5caaa861434af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:04 +0000
Subject: [PATCH 098/107] fix: console text input counted the terminating
 character

---
 NULLC/includes/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/includes/io.cpp b/NULLC/includes/io.cpp
index 210174a..5a0b54c 100644
--- a/NULLC/includes/io.cpp
+++ b/NULLC/includes/io.cpp
@@ -226,7 +226,8 @@ namespace NULLCIO
 			target[i] = buf[i];
 		target[data.len - 1] = 0;
 		
-		return ((unsigned int)len < data.len - 1 ? len : data.len - 1);
+		// Zero-termination character is not counted
+		return (len < data.len ? len : data.len) - 1;
 	}
 
 	void WriteToConsoleExact(NULLCArray data)
-- 
2.43.0


From d8a8c8fbd038f3e1cb3032ac0adba4590d48a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:42 +0000
Subject: [PATCH 099/107] fix: console output of long floating-point numbers
 was truncated

---
 NULLC/includes/io.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/NULLC/includes/io.cpp b/NULLC/includes/io.cpp
index 5a0b54c..d6c9913 100644
--- a/NULLC/includes/io.cpp
+++ b/NULLC/includes/io.cpp
@@ -2,6 +2,7 @@
 
 #include "../../NULLC/nullc.h"
 #include "../../NULLC/nullbind.h"
+#include "../../NULLC/Array.h"
 
 #if defined(_MSC_VER)
 	#include <windows.h>
@@ -23,22 +24,6 @@ namespace NULLCIO
 	unsigned (*writeFunc)(void *context, char *data, unsigned length) = NULL;
 	unsigned (*readFunc)(void *context, char *target, unsigned length) = NULL;
 
-	int	SafeSprintf(char* dst, size_t size, const char* src, ...)
-	{
-		if(size == 0)
-			return 0;
-
-		va_list args;
-		va_start(args, src);
-
-		int result = vsnprintf(dst, size, src, args);
-		dst[size-1] = '\0';
-
-		va_end(args);
-
-		return (result == -1 || (size_t)result >= size) ? (int)size : result;
-	}
-
 	void DefaultInitialize()
 	{
 #if defined(_MSC_VER)
@@ -164,9 +149,21 @@ namespace NULLCIO
 			return;
 
 		char buf[128];
-		SafeSprintf(buf, 128, "%.*f", precision, num);
+		int length = snprintf(buf, 128, "%.*f", precision, num);
 
-		writeFunc(contextFunc, buf, (unsigned)strlen(buf));
+		if(length < 128)
+		{
+			writeFunc(contextFunc, buf, (unsigned)strlen(buf));
+			return;
+		}
+
+		// Large numbers and numbers with a high precision do not fit
+		FastVector<char> text;
+		text.resize(length + 1);
+
+		snprintf(text.data, text.size(), "%.*f", precision, num);
+
+		writeFunc(contextFunc, text.data, (unsigned)length);
 	}
 
 	void WriteCharConsole(char ch)
-- 
2.43.0


From e879021e2f7ab6b0526c5ff80fa7e79e807aa0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:21 +0000
Subject: [PATCH 100/107] fix: tokens spanning multiple lines were reported at
 their last line with a wrong column

---
 NULLC/Lexer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NULLC/Lexer.cpp b/NULLC/Lexer.cpp
index 8d5eff5..2223de6 100644
--- a/NULLC/Lexer.cpp
+++ b/NULLC/Lexer.cpp
@@ -24,6 +24,10 @@ void Lexer::Lexify(const char* code)
 
 	while(*code)
 	{
+		// Tokens can span multiple lines
+		unsigned startLine = line;
+		const char *startLineStart = lineStart;
+
 		switch(*code)
 		{
 		case '\r':
@@ -522,8 +526,8 @@ void Lexer::Lexify(const char* code)
 
 		lex.pos = code;
 
-		lex.line = line;
-		lex.column = unsigned(code - lineStart);
+		lex.line = startLine;
+		lex.column = unsigned(code - startLineStart);
 
 		lexems.push_back(lex);
 
-- 
2.43.0


From fa2d06108ed8a9cb8f149c7ce4d676bbb8e88cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:52 +0000
Subject: [PATCH 101/107] fix: compiler crash on a class in a function with a
 member that has a local assignment operator with a closure

---
 NULLC/ExpressionTree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index e521e46..77f6f7f 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -4260,6 +4260,13 @@ ExprBase* CreateVariableAccess(ExpressionContext &ctx, SynBase *source, Variable
 		if(currentFunction->scope->ownerType)
 			Stop(ctx, source, "ERROR: member function '%.*s' cannot access external variable '%.*s'", FMT_ISTR(currentFunction->name->name), FMT_ISTR(variable->name->name));
 
+		// Functions generated by the compiler might not have a closure
+		if(TypeRef *contextType = getType<TypeRef>(currentFunction->contextType))
+		{
+			if(!isType<TypeClass>(contextType->subType))
+				Stop(ctx, source, "ERROR: function '%.*s' cannot access external variable '%.*s'", FMT_ISTR(currentFunction->name->name), FMT_ISTR(variable->name->name));
+		}
+
 		ExprBase *context = new (ctx.get<ExprVariableAccess>()) ExprVariableAccess(source, currentFunction->contextArgument->type, currentFunction->contextArgument);
 
 		VariableData *closureMember = AddFunctionUpvalue(ctx, source, currentFunction, variable);
-- 
2.43.0


From aed70857ccab5fdad735ad5e52c3b1a002a0fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:52 +0000
Subject: [PATCH 102/107] fix: language server lost request ids, crashed on
 edits past the end of a line and on locations that are not files

---
 vscode/nullc_lang_server/handler.cpp | 57 +++++++++++++++++-----------
 vscode/nullc_lang_server/handler.h   |  2 +-
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/vscode/nullc_lang_server/handler.cpp b/vscode/nullc_lang_server/handler.cpp
index 4f6672d..745645c 100644
--- a/vscode/nullc_lang_server/handler.cpp
+++ b/vscode/nullc_lang_server/handler.cpp
@@ -841,16 +841,16 @@ std::vector<SynBase*> FindFunctionReferences(CompilerContext *context, FunctionD
 	return data.locations;
 }
 
-void PrepareResponse(rapidjson::Document &doc, unsigned idNumber, const char *idString)
+void PrepareResponse(rapidjson::Document &doc, const rapidjson::Value &id)
 {
 	doc.SetObject();
 
 	doc.AddMember("jsonrpc", "2.0", doc.GetAllocator());
 
-	if(idNumber != ~0u)
-		doc.AddMember("id", idNumber, doc.GetAllocator());
-	else if(idString)
-		doc.AddMember("id", rapidjson::StringRef(idString), doc.GetAllocator());
+	// id can be a number or a string
+	rapidjson::Value responseId(id, doc.GetAllocator());
+
+	doc.AddMember("id", responseId, doc.GetAllocator());
 }
 
 void SendResponse(Context& ctx, rapidjson::Document &doc)
@@ -944,15 +944,27 @@ Document* FindDocument(Context& ctx, rapidjson::Document &response, std::string
 			// Try to open file directly
 			if(FILE *file = fopen(documentPath.c_str() + strlen("file:///"), "rb"))
 			{
-				fseek(file, 0, SEEK_END);
-				unsigned size = unsigned(ftell(file));
-				fseek(file, 0, SEEK_SET);
+				std::string code;
+
+				char buf[4096];
+
+				while(size_t size = fread(buf, 1, sizeof(buf), file))
+					code.append(buf, size);
+
+				// Location might not be a file
+				bool failed = ferror(file) != 0;
 
-				char *code = new char[size + 1];
-				fread(code, 1, size, file);
-				code[size] = 0;
 				fclose(file);
 
+				if(failed)
+				{
+					fprintf(stderr, "ERROR: Failed to read document '%s'\n", documentPath.c_str());
+
+					RespondWithError(ctx, response, "", ErrorCode::InvalidParams, "failed to read target document");
+
+					return nullptr;
+				}
+
 				auto &document = ctx.documents[documentPath];
 
 				if(ctx.debugMode)
@@ -962,8 +974,6 @@ Document* FindDocument(Context& ctx, rapidjson::Document &response, std::string
 				document.code = code;
 				document.temporary = true;
 
-				delete[] code;
-
 				return &document;
 			}
 		}
@@ -2925,8 +2935,15 @@ bool HandleDidChange(Context& ctx, rapidjson::Value& arguments)
 				}
 			}
 
-			start += range.start.character;
-			end += range.end.character;
+			// Character position past the end of the line defaults back to the line length
+			for(int i = 0; i < range.start.character && *start && *start != '\r' && *start != '\n'; i++)
+				start++;
+
+			for(int i = 0; i < range.end.character && *end && *end != '\r' && *end != '\n'; i++)
+				end++;
+
+			if(end < start)
+				end = start;
 
 			const char *replacement = el["text"].GetString();
 
@@ -2946,11 +2963,11 @@ bool HandleDidChange(Context& ctx, rapidjson::Value& arguments)
 	return true;
 }
 
-bool HandleMessage(Context& ctx, unsigned idNumber, const char *idString, const char *method, rapidjson::Value& arguments)
+bool HandleMessage(Context& ctx, const rapidjson::Value& id, const char *method, rapidjson::Value& arguments)
 {
 	rapidjson::Document response;
 
-	PrepareResponse(response, idNumber, idString);
+	PrepareResponse(response, id);
 
 	if(ctx.debugMode)
 		fprintf(stderr, "DEBUG: HandleMessage(%s)\n", method);
@@ -3036,11 +3053,7 @@ bool HandleMessage(Context& ctx, char *message, unsigned length)
 
 	if(doc.HasMember("id"))
 	{
-		// id can be a number or a string
-		auto idNumber = doc["id"].IsUint() ? doc["id"].GetUint() : ~0u;
-		auto strNumber = doc["id"].IsString() ? doc["id"].GetString() : nullptr;
-
-		bool result = HandleMessage(ctx, idNumber, strNumber, method, doc.HasMember("params") ? doc["params"] : null);
+		bool result = HandleMessage(ctx, doc["id"], method, doc.HasMember("params") ? doc["params"] : null);
 
 		for(auto it = ctx.documents.begin(); it != ctx.documents.end();)
 		{
diff --git a/vscode/nullc_lang_server/handler.h b/vscode/nullc_lang_server/handler.h
index 16d28c3..2b4ab45 100644
--- a/vscode/nullc_lang_server/handler.h
+++ b/vscode/nullc_lang_server/handler.h
@@ -10,5 +10,5 @@ struct Document;
 void UpdateDiagnostics(Context& ctx, Document &document);
 
 bool HandleMessage(Context& ctx, char *message, unsigned length);
-bool HandleMessage(Context& ctx, unsigned idNumber, const char *idString, const char *method, rapidjson::Value& arguments);
+bool HandleMessage(Context& ctx, const rapidjson::Value& id, const char *method, rapidjson::Value& arguments);
 bool HandleNotification(Context& ctx, const char *method, rapidjson::Value& arguments);
-- 
2.43.0


From 12b1cb2ab7d89a19b2d19f7a710507ab1875848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:36 +0000
Subject: [PATCH 103/107] fix: character constants of imported classes lost
 their value and crashed the compiler

---
 NULLC/Compiler.cpp       | 4 ++++
 NULLC/ExpressionTree.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index fadf654..7042458 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -1331,6 +1331,10 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 				{
 					constant.value = node->value;
 				}
+				else if(ExprCharacterLiteral *node = getType<ExprCharacterLiteral>(curr->value))
+				{
+					constant.value = node->value;
+				}
 				else if(ExprIntegerLiteral *node = getType<ExprIntegerLiteral>(curr->value))
 				{
 					constant.value = node->value;
diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 77f6f7f..1500102 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -12937,6 +12937,10 @@ void ImportModuleTypes(ExpressionContext &ctx, SynBase *source, ModuleContext &m
 						{
 							value = new (ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, constantType, constantInfo->value != 0);
 						}
+						else if(constantType == ctx.typeChar)
+						{
+							value = new (ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(source, constantType, (signed char)constantInfo->value);
+						}
 						else if(ctx.IsIntegerType(constantType) || isType<TypeEnum>(constantType))
 						{
 							value = new (ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, constantType, constantInfo->value);
-- 
2.43.0


From 93b91c6e548b687eff8ef908d3872a86785eaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:44 +0000
Subject: [PATCH 104/107] fix: virtual function of a class imported together
 with the function table was replaced by one of its base class

---
 NULLC/ExpressionTree.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 1500102..8432196 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -13671,12 +13671,6 @@ ExprBase* CreateVirtualTableUpdate(ExpressionContext &ctx, SynBase *source, Vari
 	{
 		FunctionData *function = functionSet[i];
 
-		TypeBase *parentType = function->scope->ownerType;
-
-		// If both type and table are imported, then it should have been filled up inside the module for that type
-		if(parentType->importModule && vtable->importModule && parentType->importModule == vtable->importModule)
-			continue;
-
 		if(function->type != functionType)
 			continue;
 
@@ -13694,7 +13688,9 @@ ExprBase* CreateVirtualTableUpdate(ExpressionContext &ctx, SynBase *source, Vari
 		FunctionData *function = functions[i];
 		TypeBase *type = function->scope->ownerType;
 
-		expressions.push_back(CreateVirtualTableAssignment(ctx, source, vtable, type, function));
+		// If both type and table are imported, then it should have been filled up inside the module for that type
+		if(!(type->importModule && vtable->importModule && type->importModule == vtable->importModule))
+			expressions.push_back(CreateVirtualTableAssignment(ctx, source, vtable, type, function));
 
 		// Record that owner type recevied an assignment to this function
 		if(isType<TypeClass>(type))
-- 
2.43.0


From 000445ca2a90467b01ea9e91ccf76b9f6a3874a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:02 +0000
Subject: [PATCH 105/107] fix: generic member function of a generic class
 instance could not be used by importers of the module with the instance

---
 NULLC/Compiler.cpp       | 21 +++++++++++++++++++--
 NULLC/ExpressionTree.cpp |  9 +++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index 7042458..5adf525 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -1594,6 +1594,7 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 			funcInfo.definitionModule = 0;
 		}
 
+		funcInfo.definitionLocationModule = 0;
 		funcInfo.definitionLocationStart = 0;
 		funcInfo.definitionLocationEnd = 0;
 		funcInfo.definitionLocationName = 0;
@@ -1703,13 +1704,29 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 
 			funcInfo.retType = ExternFuncInfo::RETURN_VOID;
 
-			// Local generic function inside an instance of an imported generic function is placed in a different module and cannot be instantiated outside
+			// Generic function inside an instance of an imported generic function or class is placed in a different module
 			Lexeme *definitionStart = function->declaration->source->begin;
 
+			funcInfo.genericOffsetStart = 0;
+
 			if(definitionStart >= sourceStreamStart && definitionStart < sourceStreamStart + sourceStreamSize)
+			{
 				funcInfo.genericOffsetStart = unsigned(definitionStart - sourceStreamStart);
+			}
 			else
-				funcInfo.genericOffsetStart = 0;
+			{
+				for(unsigned i = 0; i < ctx.exprCtx.imports.size(); i++)
+				{
+					ModuleData *moduleData = ctx.exprCtx.imports[i];
+
+					if(definitionStart >= moduleData->lexStream && definitionStart < moduleData->lexStream + moduleData->lexStreamSize)
+					{
+						funcInfo.genericOffsetStart = unsigned(definitionStart - moduleData->lexStream);
+						funcInfo.definitionLocationModule = i + 1;
+						break;
+					}
+				}
+			}
 
 			funcInfo.genericOffset = ~0u;
 			funcInfo.genericReturnType = returnType->typeIndex;
diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 8432196..c681db2 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -13340,9 +13340,14 @@ void ImportModuleFunctions(ExpressionContext &ctx, SynBase *source, ModuleContex
 		// TODO: explicit flag
 		if(function.funcType == 0 || functionType->isGeneric || hasGenericExplicitType || (parentType && parentType->isGeneric))
 		{
-			assert(function.genericOffsetStart < data->importModule->lexStreamSize);
+			ModuleData *definitionModule = data->importModule;
 
-			data->delayedDefinition = function.genericOffsetStart + data->importModule->lexStream;
+			if(function.definitionLocationModule != 0)
+				definitionModule = moduleCtx.dependencies[function.definitionLocationModule - 1];
+
+			assert(function.genericOffsetStart < definitionModule->lexStreamSize);
+
+			data->delayedDefinition = function.genericOffsetStart + definitionModule->lexStream;
 
 			TypeBase *returnType = ctx.typeAuto;
 
-- 
2.43.0


From ca5179c451f0d0257687ffc8e2d0dad47e027f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:30 +0000
Subject: [PATCH 106/107] fix: runtime of translated programs used names and
 types with the previous name hash

---
 NULLC/translation/runtime.cpp | 48 +++++++++++++++++------------------
 NULLC/translation/runtime.h   |  8 +++---
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/NULLC/translation/runtime.cpp b/NULLC/translation/runtime.cpp
index 62d9c22..d21b0fb 100644
--- a/NULLC/translation/runtime.cpp
+++ b/NULLC/translation/runtime.cpp
@@ -529,7 +529,7 @@ namespace NULLC
 	FastVector<NULLCRef> finalizeList;
 }
 
-NULLCArray<__function> __vtbl3761170085finalize;
+NULLCArray<__function> __vtbl3494183789finalize;
 
 FastVector<NULLCTypeInfo> __nullcTypeList;
 FastVector<NULLCMemberInfo> __nullcTypePart;
@@ -1531,7 +1531,7 @@ void __finalizeObjects_void_ref__(void* __context)
 	{
 		NULLCRef *el = __nullcIndexUnsizedArray(l, i, sizeof(NULLCRef));
 
-		NULLCFuncPtr<__typeProxy_void_ref__> function = NULLCFuncPtr<__typeProxy_void_ref__>(__redirect_void_ref___ref_auto_ref___function___ref_(*el, &__vtbl3761170085finalize, 0));
+		NULLCFuncPtr<__typeProxy_void_ref__> function = NULLCFuncPtr<__typeProxy_void_ref__>(__redirect_void_ref___ref_auto_ref___function___ref_(*el, &__vtbl3494183789finalize, 0));
 
 		((void(*)(void*))funcTable[function.id])(function.context);
 	}
@@ -1625,22 +1625,22 @@ void __closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_(void **upvalueList,
 	}
 }
 
-int float__str_610894668_precision__int_ref___(void* __context)
+int float__str_1247550254_precision__int_ref___(void* __context)
 {
 	return 6;
 }
 
-bool float__str_610894668_showExponent__bool_ref___(void* __context)
+bool float__str_1247550254_showExponent__bool_ref___(void* __context)
 {
 	return false;
 }
 
-int double__str_610894668_precision__int_ref___(void* __context)
+int double__str_1247550254_precision__int_ref___(void* __context)
 {
 	return 6;
 }
 
-bool double__str_610894668_showExponent__bool_ref___(void* __context)
+bool double__str_1247550254_showExponent__bool_ref___(void* __context)
 {
 	return false;
 }
@@ -2701,23 +2701,23 @@ int __nullcInitBaseModule()
 	__nullcRegisterBase(&__local);
 
 	// Register types
-	__nullcTR[0] = __nullcRegisterType(2090838615u, "void", 0, __nullcTR[0], 0, NULLC_NONE, 0, 0);
-	__nullcTR[1] = __nullcRegisterType(2090120081u, "bool", 1, __nullcTR[0], 0, NULLC_NONE, 0, 0);
-	__nullcTR[2] = __nullcRegisterType(2090147939u, "char", 1, __nullcTR[0], 0, NULLC_NONE, 0, 0);
-	__nullcTR[3] = __nullcRegisterType(274395349u, "short", 2, __nullcTR[0], 0, NULLC_NONE, 2, 0);
-	__nullcTR[4] = __nullcRegisterType(193495088u, "int", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
-	__nullcTR[5] = __nullcRegisterType(2090479413u, "long", 8, __nullcTR[0], 0, NULLC_NONE, 4, 0);
-	__nullcTR[6] = __nullcRegisterType(259121563u, "float", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
-	__nullcTR[7] = __nullcRegisterType(4181547808u, "double", 8, __nullcTR[0], 0, NULLC_NONE, 8, 0);
-	__nullcTR[8] = __nullcRegisterType(524429492u, "typeid", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
-	__nullcTR[9] = __nullcRegisterType(1211668521u, "__function", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
-	__nullcTR[10] = __nullcRegisterType(84517172u, "__nullptr", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
+	__nullcTR[0] = __nullcRegisterType(1219850847u, "void", 0, __nullcTR[0], 0, NULLC_NONE, 0, 0);
+	__nullcTR[1] = __nullcRegisterType(3365180733u, "bool", 1, __nullcTR[0], 0, NULLC_NONE, 0, 0);
+	__nullcTR[2] = __nullcRegisterType(2823553821u, "char", 1, __nullcTR[0], 0, NULLC_NONE, 0, 0);
+	__nullcTR[3] = __nullcRegisterType(3122818005u, "short", 2, __nullcTR[0], 0, NULLC_NONE, 2, 0);
+	__nullcTR[4] = __nullcRegisterType(2515107422u, "int", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
+	__nullcTR[5] = __nullcRegisterType(3270303571u, "long", 8, __nullcTR[0], 0, NULLC_NONE, 4, 0);
+	__nullcTR[6] = __nullcRegisterType(2797886853u, "float", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
+	__nullcTR[7] = __nullcRegisterType(2699759368u, "double", 8, __nullcTR[0], 0, NULLC_NONE, 8, 0);
+	__nullcTR[8] = __nullcRegisterType(2828352472u, "typeid", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
+	__nullcTR[9] = __nullcRegisterType(753023139u, "__function", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
+	__nullcTR[10] = __nullcRegisterType(2909546272u, "__nullptr", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
 	__nullcTR[11] = 0; // generic type 'generic'
-	__nullcTR[12] = __nullcRegisterType(2090090846u, "auto", 0, __nullcTR[0], 0, NULLC_NONE, 0, 0);
-	__nullcTR[13] = __nullcRegisterType(1166360283u, "auto ref", 8, __nullcTR[0], 2, NULLC_CLASS, 4, 0);
-	__nullcTR[14] = __nullcRegisterType(3198057556u, "void ref", 4, __nullcTR[0], 1, NULLC_POINTER, 4, 0);
-	__nullcTR[15] = __nullcRegisterType(4071234806u, "auto[]", 12, __nullcTR[0], 3, NULLC_CLASS, 4, 0);
-	__nullcTR[16] = __nullcRegisterType(952062593u, "__function[]", 8, __nullcTR[9], -1, NULLC_ARRAY, 4, 0);
+	__nullcTR[12] = __nullcRegisterType(2453644182u, "auto", 0, __nullcTR[0], 0, NULLC_NONE, 0, 0);
+	__nullcTR[13] = __nullcRegisterType(27863467u, "auto ref", 8, __nullcTR[0], 2, NULLC_CLASS, 4, 0);
+	__nullcTR[14] = __nullcRegisterType(3597073338u, "void ref", 4, __nullcTR[0], 1, NULLC_POINTER, 4, 0);
+	__nullcTR[15] = __nullcRegisterType(952381790u, "auto[]", 12, __nullcTR[0], 3, NULLC_CLASS, 4, 0);
+	__nullcTR[16] = __nullcRegisterType(1189035375u, "__function[]", 8, __nullcTR[9], -1, NULLC_ARRAY, 4, 0);
 
 	// Register type members
 	__nullcRegisterMembers(__nullcTR[13], 2, __nullcTR[8], 0, "type", __nullcTR[14], 4, "ptr"); // type 'auto ref' members
@@ -2725,10 +2725,10 @@ int __nullcInitBaseModule()
 	__nullcRegisterMembers(__nullcTR[16], 1, __nullcTR[4], 4, "size"); // type '__function[]' members
 
 	 // Register globals
-	__nullcRegisterGlobal((void*)&__vtbl3761170085finalize, __nullcTR[16]);
+	__nullcRegisterGlobal((void*)&__vtbl3494183789finalize, __nullcTR[16]);
 
 	// Expressions
-	__vtbl3761170085finalize = NULLC::AllocArray(4, 1024, __nullcTR[9]);
+	__vtbl3494183789finalize = NULLC::AllocArray(4, 1024, __nullcTR[9]);
 
 	return 0;
 }
diff --git a/NULLC/translation/runtime.h b/NULLC/translation/runtime.h
index 4f5b893..f0d0a35 100644
--- a/NULLC/translation/runtime.h
+++ b/NULLC/translation/runtime.h
@@ -323,10 +323,10 @@ void __finalizeObjects_void_ref__(void* __context);
 bool is_derived_from_bool_ref_auto_ref_typeid_(NULLCRef derived, unsigned base, void* __context);
 void* __assert_derived_from_void_ref_ref_void_ref_typeid_(void* derived, unsigned base, void* __context);
 void __closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_(void** l, void* v, int offset, int size, void* __context);
-int float__str_610894668_precision__int_ref___(void* __context);
-bool float__str_610894668_showExponent__bool_ref___(void* __context);
-int double__str_610894668_precision__int_ref___(void* __context);
-bool double__str_610894668_showExponent__bool_ref___(void* __context);
+int float__str_1247550254_precision__int_ref___(void* __context);
+bool float__str_1247550254_showExponent__bool_ref___(void* __context);
+int double__str_1247550254_precision__int_ref___(void* __context);
+bool double__str_1247550254_showExponent__bool_ref___(void* __context);
 
 inline unsigned int	__nullcIndex(unsigned int index, unsigned int size)
 {
-- 
2.43.0


From f940edb65ea9e48fb96be5f345ba994627fe724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:30 +0000
Subject: [PATCH 107/107] fix: translation of double constants without a
 fraction, smallest integers and division by -1

---
 NULLC/ExpressionTranslate.cpp | 22 +++++++++++++++++++---
 NULLC/translation/runtime.cpp | 20 ++++++++++++++++++++
 NULLC/translation/runtime.h   |  4 ++++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/NULLC/ExpressionTranslate.cpp b/NULLC/ExpressionTranslate.cpp
index 38ecf7e..954bd37 100644
--- a/NULLC/ExpressionTranslate.cpp
+++ b/NULLC/ExpressionTranslate.cpp
@@ -492,11 +492,18 @@ void TranslateIntegerLiteral(ExpressionTranslateContext &ctx, ExprIntegerLiteral
 	}
 	else if(expression->type == ctx.ctx.typeInt)
 	{
-		Print(ctx, "%d", int(expression->value));
+		// Smallest value has no literal of its type
+		if(int(expression->value) == -2147483647 - 1)
+			Print(ctx, "(-2147483647 - 1)");
+		else
+			Print(ctx, "%d", int(expression->value));
 	}
 	else if(expression->type == ctx.ctx.typeLong)
 	{
-		Print(ctx, "%lldll", expression->value);
+		if(expression->value == -9223372036854775807ll - 1)
+			Print(ctx, "(-9223372036854775807ll - 1)");
+		else
+			Print(ctx, "%lldll", expression->value);
 	}
 	else if(isType<TypeEnum>(expression->type))
 	{
@@ -514,7 +521,7 @@ void TranslateRationalLiteral(ExpressionTranslateContext &ctx, ExprRationalLiter
 	if(expression->type == ctx.ctx.typeFloat)
 		Print(ctx, "((float)%.9g)", expression->value);
 	else if(expression->type == ctx.ctx.typeDouble)
-		Print(ctx, "%.17g", expression->value);
+		Print(ctx, "((double)%.17g)", expression->value);
 	else
 		assert(!"unknown type");
 }
@@ -782,6 +789,15 @@ void TranslateBinaryOp(ExpressionTranslateContext &ctx, ExprBinaryOp *expression
 		Translate(ctx, expression->rhs);
 		Print(ctx, "))");
 	}
+	else if((expression->op == SYN_BINARY_OP_DIV || expression->op == SYN_BINARY_OP_MOD) && (expression->lhs->type == ctx.ctx.typeInt || expression->lhs->type == ctx.ctx.typeLong))
+	{
+		// Division of the smallest value by -1 wraps around
+		Print(ctx, expression->op == SYN_BINARY_OP_DIV ? "__nullcDiv((" : "__nullcMod((");
+		Translate(ctx, expression->lhs);
+		Print(ctx, "), (");
+		Translate(ctx, expression->rhs);
+		Print(ctx, "))");
+	}
 	else if(expression->op == SYN_BINARY_OP_LOGICAL_XOR)
 	{
 		Print(ctx, "!!(");
diff --git a/NULLC/translation/runtime.cpp b/NULLC/translation/runtime.cpp
index d21b0fb..ef8f881 100644
--- a/NULLC/translation/runtime.cpp
+++ b/NULLC/translation/runtime.cpp
@@ -681,6 +681,26 @@ long long __nullcPow(long long number, long long power)
 	return result;
 }
 
+int __nullcDiv(int a, int b)
+{
+	return b == -1 ? (int)(0u - (unsigned)a) : a / b;
+}
+
+long long __nullcDiv(long long a, long long b)
+{
+	return b == -1 ? (long long)(0ull - (unsigned long long)a) : a / b;
+}
+
+int __nullcMod(int a, int b)
+{
+	return b == -1 ? 0 : a % b;
+}
+
+long long __nullcMod(long long a, long long b)
+{
+	return b == -1 ? 0 : a % b;
+}
+
 double		__nullcMod(double a, double b)
 {
 	return fmod(a, b);
diff --git a/NULLC/translation/runtime.h b/NULLC/translation/runtime.h
index f0d0a35..9a79f7c 100644
--- a/NULLC/translation/runtime.h
+++ b/NULLC/translation/runtime.h
@@ -175,6 +175,10 @@ inline NULLCArray<T> __makeNullcArray(unsigned int zero, void* unused)
 int			__nullcPow(int a, int b);
 double		__nullcPow(double a, double b);
 long long	__nullcPow(long long a, long long b);
+int			__nullcDiv(int a, int b);
+long long	__nullcDiv(long long a, long long b);
+int			__nullcMod(int a, int b);
+long long	__nullcMod(long long a, long long b);
 double		__nullcMod(double a, double b);
 int			__nullcPowSet(char *a, int b);
 int			__nullcPowSet(short *a, int b);
-- 
2.43.0

