From 796aa71ef994b5897bbbb5e79932f60c6b46bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 01/23] fix: widen an integer operand by the signedness of its
 own type

Promoting an unsigned value to a wider signed type sign-extended it
(200u8 + 0i16 was -56) and promoting a negative signed value to a wider
unsigned type zero-extended it.
---
 src/codegen/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.cc b/src/codegen/codegen.cc
index 4ab4f88..a29b732 100644
--- a/src/codegen/codegen.cc
+++ b/src/codegen/codegen.cc
@@ -98,7 +98,7 @@ Status CodeGen::NumericTypeConvert(IRCodeGenContext &ctx, ValueType from, ValueT
     if (TypeHelper::IsIntegerType(to)) {
       *value =
           ctx.builder.CreateIntCast(*value, llvm::IntegerType::get(ctx.context, TypeHelper::GetBitWidthFromType(to)),
-                                    TypeHelper::IsSignedType(to));
+                                    TypeHelper::IsSignedType(from));
       return Status::OK();
     }
     if (TypeHelper::IsFloatType(to)) {
-- 
2.43.0


From 71da2c470cd59ea3cb03cccb904d53956e4b024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 02/23] fix: if block without else whose last condition
 branches

The PHI nodes of the merge block named the block the last condition
starts in, not the one it ends in, so a condition containing and/or, if
or switch failed module verification.
---
 src/codegen/if_block_codegen.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..06fc110 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,12 +61,13 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
+    // Generating the condition may itself have created blocks (and/or, if,
+    // switch); the branch below leaves from the one the builder is in now.
+    if (last_cond_block == nullptr) {
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
     if (cond_value->getType()->isIntegerTy()) {
       cond_value = ctx_.builder.CreateICmpNE(cond_value, llvm::ConstantInt::get(cond_value->getType(), 0), "to_bool");
     } else if (cond_value->getType()->isFloatingPointTy()) {
-- 
2.43.0


From dc4fcc810b51fd9a36542d54651351280ab40103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 03/23] fix: do not share variables between the entries of a
 batch

One Validator checked all entries, so a variable of one entry was still
declared (with its type and constness) while the next was checked: valid
batches were rejected, and an entry could name a variable of another one
and only fail in code generation.
---
 src/jit_core.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..1b658c8 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -242,8 +242,9 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
   }
 
   // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Entries are independent programs: each is validated in scopes of its own.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From 703842a486eced2b2c281d211befce5d07427afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 04/23] fix: a failed batch compile leaves no entries behind

BuildAndLink filled the engine's tables before it could fail, so after a
failed lookup or code generation GetFunctionCount, GetReturnType and
ExecuteAt saw entries with null or partial function pointers.
---
 src/batch_exec_engine.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..7403963 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -45,7 +45,13 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
     nodes.emplace_back(exec_nodes[i].get());
     names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
-  return core_->BuildAndLink(nodes, names, func_registry, &entry_func_ptrs_, &ret_types_);
+  std::vector<char*> func_ptrs;
+  std::vector<ValueType> ret_types;
+  JF_RETURN_NOT_OK(core_->BuildAndLink(nodes, names, func_registry, &func_ptrs, &ret_types));
+
+  entry_func_ptrs_ = std::move(func_ptrs);
+  ret_types_ = std::move(ret_types);
+  return Status::OK();
 }
 
 Status BatchExecEngine::ExecuteAt(size_t index, void* entry_arguments, RetType* result) {
-- 
2.43.0


From 173553f07bd55ff060a42e580559aff76352c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 05/23] fix: Execute into a void* on an uncompiled engine
 returns an error

It called a null function pointer.  The RetType overloads already return
a runtime error.
---
 src/exec_engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..7f843a4 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
-- 
2.43.0


From 556e043b75d42bbff57a28ebf0fc16d1b79002e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 06/23] fix: a failed LoadCompiled leaves the engine as it was

The old JIT was destroyed before the object was linked while the entry
pointers still pointed into it, so executing after a failed load jumped
to freed code.  Loading also replaced the engine's own fp mode, and with
it the semantics of every later Compile().
---
 src/batch_exec_engine.cc |  9 ++++-----
 src/exec_engine.cc       | 17 ++++++++---------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 7403963..d9e8d6b 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -216,10 +216,8 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kBatch));
 
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
-
+  // As in ExecEngine::LoadCompiled: adopt the new core only once it is linked.
+  auto core = std::make_unique<JitCore>(core_->GetOption());
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
   symbol_names.reserve(n);
@@ -227,8 +225,9 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
     symbol_names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(core);
   entry_func_ptrs_ = std::move(func_ptrs);
   ret_types_ = std::move(header.per_entry_ret_types);
   return Status::OK();
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index 7f843a4..8626056 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,18 +130,17 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kSingle));
 
-  // Rebuild a JitCore that reflects the FP mode actually baked into the
-  // artifact (FP mode affects codegen flags, but the object bytes are
-  // already codegen'd — we only need the LLJIT to match so that any
-  // linker flags stay consistent).
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
-  core_ = std::make_unique<JitCore>(new_opt);
-
+  // Link into a fresh JitCore and adopt it only once every symbol is
+  // resolved: a load that fails must not pull the code out from under the
+  // program the engine currently holds. The FP mode of the artifact is
+  // baked into its object bytes; the engine keeps its own for the next
+  // Compile().
+  auto core = std::make_unique<JitCore>(core_->GetOption());
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-  JF_RETURN_NOT_OK(core_->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
+  JF_RETURN_NOT_OK(core->LoadObject(obj_view, symbol_names, func_registry, &func_ptrs));
 
+  core_ = std::move(core);
   entry_func_ptr_ = func_ptrs[0];
   // DeserializeArtifact guarantees per_entry_ret_types is non-empty
   // (num_entries >= 1, and single-mode blobs specifically have exactly
-- 
2.43.0


From 771fdcc250fd69a4f564a3c25de31e32501d760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 07/23] fix: check the counts and sizes of an artifact against
 its bytes

A size close to 2^64 wrapped around the bounds check and was read out of
bounds; an entry or extension count larger than the blob was allocated
(up to hundreds of GB, std::bad_alloc) before it was found to be cut.
---
 src/compiled_artifact.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..928a112 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -103,7 +103,7 @@ class ArtifactReader {
   Status ReadLenPrefixedStr(std::string* out) {
     std::uint32_t len = 0;
     JF_RETURN_NOT_OK(ReadU32LE(&len));
-    if (pos_ + len > buf_.size()) {
+    if (len > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated string (want ", len, " bytes, have ",
                                      buf_.size() - pos_, ")");
     }
@@ -127,7 +127,7 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
@@ -254,6 +254,9 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  if (num_entries > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: truncated entry table (want ", num_entries, " entries)");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
@@ -268,6 +271,10 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
   out_header->extensions.clear();
+  // every extension takes at least its tag and its length
+  if (ext_count > r.remaining() / 8) {
+    return Status::InvalidArgument("compiled artifact: truncated extension area (want ", ext_count, " extensions)");
+  }
   out_header->extensions.reserve(ext_count);
   for (std::uint32_t i = 0; i < ext_count; ++i) {
     ArtifactExtension ext;
-- 
2.43.0


From 4873413e6d74e3baaa36b2fb89ec8310b4b329c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 08/23] fix: SaveCompiled replaces what the output string held

It appended, so saving twice into one string, or into one that was not
empty, gave bytes that LoadCompiled rejects.
---
 src/compiled_artifact.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 928a112..4a8cebb 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -175,7 +175,8 @@ Status SerializeArtifact(const ArtifactHeader& header, std::string_view object_b
   // Pre-size. The object bytes dominate; a small over-reserve amortizes
   // the header appends. We undersize by a few bytes rather than
   // over-reserving — std::string growth is exponential anyway.
-  out->reserve(out->size() + 128 + object_bytes.size());
+  out->clear();
+  out->reserve(128 + object_bytes.size());
 
   AppendBytes(*out, kArtifactMagic.data(), kArtifactMagic.size());
   AppendU32LE(*out, kArtifactFormatVersion);
-- 
2.43.0


From 7ab9b49e843def132279be7d79f090b1f62e1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 09/23] fix: reassigning a void variable in an if block crashed
 the compiler

A variable may be bound to a void expression; merging it after an if
block dereferenced the null value that stands for it.
---
 src/codegen/if_block_codegen.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 06fc110..8b46570 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -115,6 +115,10 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
 
     for (const auto &var_name : all_modified_vars) {
       llvm::Value *original_value = *scope_stack_.Lookup(var_name);
+      // A variable bound to a void expression has no value to merge.
+      if (original_value == nullptr) {
+        continue;
+      }
       llvm::PHINode *phi = ctx_.builder.CreatePHI(original_value->getType(), num_incoming, var_name + ".phi");
       for (const auto &info : branch_infos) {
         auto it = info.modified.find(var_name);
-- 
2.43.0


From c6ae6e024b5d06b93ad2736bf028bcd73e566f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 10/23] fix: overriding a function replaces its return type

---
 src/function_registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..861d93c 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,9 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // The key carries the return type, which is not part of its identity: replace it too.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From 6e4ca865eff56becc41ffe5498d619f378bf4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 11/23] fix: a refused registration with exec context registers
 neither signature

---
 src/function_registry.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index 861d93c..f89d717 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -145,6 +145,14 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  // Both signatures are registered, or none.
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects
   // exec_ctx when emitting the call so the C ABI (N+1 args) is preserved.
   {
@@ -159,9 +167,6 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   // like the old RegisterReadOnlyCFunc registration. Existing callers
   // (AST builders that still create an ExecContextNode tail arg, or
   // athena DSL code using `EXEC_CTX`) keep working unchanged.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
@@ -199,6 +204,14 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  // Both signatures are registered, or none.
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects.
   {
     FunctionStructure func_struct;
@@ -211,9 +224,6 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   // Legacy compatibility signature: with trailing kPtr; identical to the
   // old RegisterCommutativeCFunc registration so existing AST/DSL code
   // that still passes ExecContextNode keeps resolving.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
-- 
2.43.0


From 851a6da421ccc62b1746826fd78e867f986d7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:18 +0000
Subject: [PATCH 12/23] fix: a function taking the exec context and the same
 signature with an explicit pointer are different functions

---
 src/codegen/function_codegen.cc | 10 +++-------
 src/function_registry.cc        |  6 ------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 42d39a0..f3d16fb 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -38,17 +38,13 @@ Status CodeGen::Visit(FunctionNode& function_node) {
       value_ = func_struct.codegen_func(sign, args_llvm_type_list, args_llvm_value_list, ctx_);
     } break;
     case FunctionType::kCFunc: {
-      std::string call_symbol_name;
+      // The registered signature is the symbol, also when exec_ctx is appended:
+      // the same signature with an explicit trailing kPtr may be another function.
+      const std::string call_symbol_name = sign.ToString();
       if (func_struct.needs_exec_ctx) {
         llvm::Type* ptr_ty = llvm::PointerType::getUnqual(ctx_.context);
         args_llvm_type_list.emplace_back(ptr_ty);
         args_llvm_value_list.emplace_back(ctx_.entry_function->getArg(1));
-        std::vector<ValueType> ctx_param_types = sign.GetParamTypes();
-        ctx_param_types.emplace_back(ValueType::kPtr);
-        FunctionSignature ctx_sign(sign.GetName(), std::move(ctx_param_types), sign.GetRetType());
-        call_symbol_name = ctx_sign.ToString();
-      } else {
-        call_symbol_name = sign.ToString();
       }
 
       llvm::Type* llvm_ret_type;
diff --git a/src/function_registry.cc b/src/function_registry.cc
index f89d717..97f3638 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -247,9 +247,6 @@ Status FunctionRegistry::SetCFuncAttr(llvm::Module* m) {
     if (FunctionType::kLLVMIntrinicFunc == fc.func_type) {
       continue;
     }
-    if (fc.needs_exec_ctx) {
-      continue;
-    }
     auto* func = m->getFunction(sign.ToString());
     if (func == nullptr) {
       continue;
@@ -269,9 +266,6 @@ Status FunctionRegistry::MappingToJIT(llvm::orc::LLJIT* jit) {
     if (FunctionType::kLLVMIntrinicFunc == fc.func_type) {
       continue;
     }
-    if (fc.needs_exec_ctx) {
-      continue;
-    }
     auto function_a_address = llvm::orc::ExecutorAddr::fromPtr(fc.c_func_ptr);
     symbols.try_emplace(mangle(sign.ToString()), function_a_address, llvm::JITSymbolFlags::Exported);
   }
-- 
2.43.0


From a3c945203b56ad320f90e365833c4b95f692833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 13/23] fix: LoadCompiled refuses an entry whose return type
 byte is not a return type

---
 src/compiled_artifact.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 4a8cebb..6e6ac9d 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -262,6 +262,11 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
     JF_RETURN_NOT_OK(r.ReadU8(&rt_byte));
+    // only what a program can return: executing the entry trusts this byte
+    if (rt_byte < static_cast<std::uint8_t>(ValueType::kVoid) ||
+        rt_byte > static_cast<std::uint8_t>(ValueType::kStringList)) {
+      return Status::InvalidArgument("compiled artifact: unknown return type byte ", static_cast<int>(rt_byte));
+    }
     out_header->per_entry_ret_types[i] = static_cast<ValueType>(rt_byte);
   }
 
-- 
2.43.0


From e8b6ccb9d9a845e3a4b512c1ed129e1570431882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:43 +0000
Subject: [PATCH 14/23] fix: pow with an integer exponent keeps all 32 bits of
 it

The exponent was truncated to 16 bits for a double base: exponents beyond
+-32767 wrapped, and code generation aborted the process when the exponent
was not a constant.
---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From 2e0fee1d2f0bb227b418ce42f4c021f627ea2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 15/23] fix: extend narrow integer arguments of C function
 calls

Calls passed i8/u8/i16/u16 arguments without signext/zeroext, leaving the
upper bits undefined; callees built by clang read them, so that e.g.
CastString(i8) rendered -128 as -4294967168.
---
 src/codegen/function_codegen.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index f3d16fb..91348f6 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -54,11 +54,22 @@ Status CodeGen::Visit(FunctionNode& function_node) {
 
       llvm::FunctionCallee call_func_callee = ctx_.module.getOrInsertFunction(call_symbol_name, func_type);
 
+      llvm::CallInst* call = nullptr;
       if (function_node.GetReturnType() == ValueType::kVoid) {
-        ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
+        call = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
         value_ = nullptr;
       } else {
-        value_ = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        call = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        value_ = call;
+      }
+      // C callees may rely on the caller extending arguments narrower than int.
+      for (unsigned i = 0; i < args_type_list.size(); ++i) {
+        const ValueType type = args_type_list[i];
+        if (type == ValueType::kI8 || type == ValueType::kI16) {
+          call->addParamAttr(i, llvm::Attribute::SExt);
+        } else if (type == ValueType::kU8 || type == ValueType::kU16) {
+          call->addParamAttr(i, llvm::Attribute::ZExt);
+        }
       }
     } break;
     default:
-- 
2.43.0


From f9d9033f1a953fe138d7b5053954fedd95ba6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 16/23] fix: GroupMax and GroupMin of groups of infinities

The accumulators started from the lowest and largest finite value, which a
group of only -inf (for GroupMax) or only +inf (for GroupMin) never replaced.
---
 src/function/list_group.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..001e78f 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -129,7 +129,7 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::lowest();
+  V seed = std::numeric_limits<V>::has_infinity ? -std::numeric_limits<V>::infinity() : std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::max(result.data[group_index.data[i]], values.data[i]);
@@ -149,7 +149,7 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::max();
+  V seed = std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::min(result.data[group_index.data[i]], values.data[i]);
-- 
2.43.0


From ee41cb53314120c619606d66cfb3be152ed752b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 17/23] fix: GenXxxBitmap no longer writes past a result of
 whole bytes

For list lengths that are a multiple of 8 the loop for the remaining bits
cleared one byte beyond the result, past the arena chunk when the result
fills it.
---
 src/function/list_comparison.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..4dcfbf5 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -289,6 +289,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     }
     result.data[(i / 8)] = mask_bit;
   }
+  if (i == a.len) {
+    return result;
+  }
   auto last_index = (vec_loop_len / 8);
   result.data[last_index] = 0;
   for (int j = 0; i + j < a.len; j++) {
@@ -349,6 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     }
     result.data[(i / 8)] = mask_bit;
   }
+  if (i == len) {
+    return result;
+  }
   auto last_index = (vec_loop_len / 8);
   result.data[last_index] = 0;
   for (int j = 0; i + j < len; j++) {
-- 
2.43.0


From ae70c7f5eae1656c6cbad1cc169de7e658c612f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 18/23] fix: athena: reject numeric literals that do not fit
 their type

Integer literals were read with std::stoull and truncated to the type
(300u8 was 44, 4294967296 was 0), and literals outside the range of
stoull, stof or stod threw out of Compile.  They are syntax errors now;
the smallest i32 and i64 can still be written by negating their magnitude.
---
 athena/location.hh |   4 +-
 athena/parser.cc   | 720 +++++++++++++++++++++++----------------------
 athena/parser.hh   | 395 +++++--------------------
 athena/parser.yy   |   9 +
 athena/token.cc    | 264 ++++++++++-------
 athena/token.ll    |  81 ++++-
 6 files changed, 681 insertions(+), 792 deletions(-)

diff --git a/athena/location.hh b/athena/location.hh
index c245501..048891d 100644
--- a/athena/location.hh
+++ b/athena/location.hh
@@ -1,8 +1,8 @@
-// A Bison parser, made by GNU Bison 3.8.2.45-25b3d-dirty.
+// A Bison parser, made by GNU Bison 3.8.2.
 
 // Locations for Bison parsers in C++
 
-// Copyright (C) 2002-2015, 2018-2022 Free Software Foundation, Inc.
+// Copyright (C) 2002-2015, 2018-2021 Free Software Foundation, Inc.
 
 // This program is free software: you can redistribute it and/or modify
 // it under the terms of the GNU General Public License as published by
diff --git a/athena/parser.cc b/athena/parser.cc
index 033d5f1..f9216a2 100644
--- a/athena/parser.cc
+++ b/athena/parser.cc
@@ -1,8 +1,8 @@
-// A Bison parser, made by GNU Bison 3.8.2.45-25b3d-dirty.
+// A Bison parser, made by GNU Bison 3.8.2.
 
 // Skeleton implementation for Bison LALR(1) parsers in C++
 
-// Copyright (C) 2002-2015, 2018-2022 Free Software Foundation, Inc.
+// Copyright (C) 2002-2015, 2018-2021 Free Software Foundation, Inc.
 
 // This program is free software: you can redistribute it and/or modify
 // it under the terms of the GNU General Public License as published by
@@ -195,7 +195,7 @@ namespace athena {
       return YY_CAST (symbol_kind_type, yystos_[+state]);
   }
 
-  Parser::stack_symbol_type::stack_symbol_type () YY_NOEXCEPT
+  Parser::stack_symbol_type::stack_symbol_type ()
   {}
 
   Parser::stack_symbol_type::stack_symbol_type (YY_RVREF (stack_symbol_type) that)
@@ -839,7 +839,7 @@ namespace athena {
     int yylen = 0;
 
     // Error handling.
-    int yynerrs_ YY_ATTRIBUTE_UNUSED = 0;
+    int yynerrs_ = 0;
     int yyerrstatus_ = 0;
 
     /// The lookahead symbol.
@@ -1117,7 +1117,7 @@ namespace athena {
           switch (yyn)
             {
   case 2: // program: statement
-#line 181 "parser.yy"
+#line 188 "parser.yy"
             { 
     builder.AddStatement(std::move(yystack_[0].value.as < Statement > ()));
     yylhs.value.as < void* > () = nullptr;
@@ -1126,7 +1126,7 @@ namespace athena {
     break;
 
   case 3: // program: program statement
-#line 185 "parser.yy"
+#line 192 "parser.yy"
                     {
   builder.AddStatement(std::move(yystack_[0].value.as < Statement > ()));
   yylhs.value.as < void* > () = nullptr;
@@ -1135,61 +1135,61 @@ namespace athena {
     break;
 
   case 4: // statement: "identifier" "=" expr ";"
-#line 191 "parser.yy"
+#line 198 "parser.yy"
                           { yylhs.value.as < Statement > () = Statement(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ())); }
 #line 1141 "parser.cc"
     break;
 
   case 5: // statement: "let" "identifier" "=" expr ";"
-#line 192 "parser.yy"
+#line 199 "parser.yy"
                                 { yylhs.value.as < Statement > () = Statement(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), true); }
 #line 1147 "parser.cc"
     break;
 
   case 6: // statement: expr ";"
-#line 193 "parser.yy"
+#line 200 "parser.yy"
            { yylhs.value.as < Statement > () = Statement(std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ())); }
 #line 1153 "parser.cc"
     break;
 
   case 7: // statement: when_block
-#line 194 "parser.yy"
+#line 201 "parser.yy"
              { yylhs.value.as < Statement > () = Statement(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())); }
 #line 1159 "parser.cc"
     break;
 
   case 8: // expr: term
-#line 196 "parser.yy"
+#line 203 "parser.yy"
            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ());}
 #line 1165 "parser.cc"
     break;
 
   case 9: // term: literal
-#line 200 "parser.yy"
+#line 207 "parser.yy"
           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1171 "parser.cc"
     break;
 
   case 10: // term: function
-#line 201 "parser.yy"
+#line 208 "parser.yy"
            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1177 "parser.cc"
     break;
 
   case 11: // term: boolean
-#line 202 "parser.yy"
+#line 209 "parser.yy"
           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1183 "parser.cc"
     break;
 
   case 12: // term: "(" term ")"
-#line 203 "parser.yy"
+#line 210 "parser.yy"
                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1189 "parser.cc"
     break;
 
   case 13: // term: "identifier"
-#line 204 "parser.yy"
+#line 211 "parser.yy"
              { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(builder.MakeRefNode(std::move(yystack_[0].value.as < std::string > ()),
                                                         static_cast<int>(yylhs.location.begin.line), static_cast<int>(yylhs.location.begin.column),
                                                         static_cast<int>(yylhs.location.end.line), static_cast<int>(yylhs.location.end.column)), yylhs.location, builder.GetSourceCode()); }
@@ -1197,181 +1197,181 @@ namespace athena {
     break;
 
   case 14: // term: "entry_arg"
-#line 207 "parser.yy"
+#line 214 "parser.yy"
             { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::unique_ptr<jitfusion::EntryArgumentNode>(new jitfusion::EntryArgumentNode), yylhs.location, builder.GetSourceCode()); }
 #line 1203 "parser.cc"
     break;
 
   case 15: // term: "exec_ctx"
-#line 208 "parser.yy"
+#line 215 "parser.yy"
            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::unique_ptr<jitfusion::ExecContextNode>(new jitfusion::ExecContextNode), yylhs.location, builder.GetSourceCode()); }
 #line 1209 "parser.cc"
     break;
 
   case 16: // term: "output"
-#line 209 "parser.yy"
+#line 216 "parser.yy"
          { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::unique_ptr<jitfusion::OutputNode>(new jitfusion::OutputNode), yylhs.location, builder.GetSourceCode()); }
 #line 1215 "parser.cc"
     break;
 
   case 17: // literal: "int8"
-#line 213 "parser.yy"
+#line 220 "parser.yy"
      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int8_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1221 "parser.cc"
     break;
 
   case 18: // literal: "int16"
-#line 214 "parser.yy"
+#line 221 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int16_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1227 "parser.cc"
     break;
 
   case 19: // literal: "int32"
-#line 215 "parser.yy"
+#line 222 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int32_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1233 "parser.cc"
     break;
 
   case 20: // literal: "int64"
-#line 216 "parser.yy"
+#line 223 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int64_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1239 "parser.cc"
     break;
 
   case 21: // literal: "uint8"
-#line 217 "parser.yy"
+#line 224 "parser.yy"
      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint8_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1245 "parser.cc"
     break;
 
   case 22: // literal: "uint16"
-#line 218 "parser.yy"
+#line 225 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint16_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1251 "parser.cc"
     break;
 
   case 23: // literal: "uint32"
-#line 219 "parser.yy"
+#line 226 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint32_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1257 "parser.cc"
     break;
 
   case 24: // literal: "uint64"
-#line 220 "parser.yy"
+#line 227 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint64_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1263 "parser.cc"
     break;
 
   case 25: // literal: "float"
-#line 221 "parser.yy"
+#line 228 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < float > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1269 "parser.cc"
     break;
 
   case 26: // literal: "double"
-#line 222 "parser.yy"
+#line 229 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < double > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1275 "parser.cc"
     break;
 
   case 27: // literal: "string"
-#line 223 "parser.yy"
+#line 230 "parser.yy"
          { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < std::string > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1281 "parser.cc"
     break;
 
   case 28: // literal: list
-#line 224 "parser.yy"
+#line 231 "parser.yy"
        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1287 "parser.cc"
     break;
 
   case 29: // literal: "true"
-#line 225 "parser.yy"
+#line 232 "parser.yy"
          { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(uint8_t(1)), yylhs.location, builder.GetSourceCode()); }
 #line 1293 "parser.cc"
     break;
 
   case 30: // literal: "false"
-#line 226 "parser.yy"
+#line 233 "parser.yy"
           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(uint8_t(0)), yylhs.location, builder.GetSourceCode()); }
 #line 1299 "parser.cc"
     break;
 
   case 31: // list: "[" i8_list "]"
-#line 230 "parser.yy"
+#line 237 "parser.yy"
                   { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int8_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1305 "parser.cc"
     break;
 
   case 32: // list: "[" i16_list "]"
-#line 231 "parser.yy"
+#line 238 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int16_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1311 "parser.cc"
     break;
 
   case 33: // list: "[" i32_list "]"
-#line 232 "parser.yy"
+#line 239 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int32_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1317 "parser.cc"
     break;
 
   case 34: // list: "[" i64_list "]"
-#line 233 "parser.yy"
+#line 240 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int64_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1323 "parser.cc"
     break;
 
   case 35: // list: "[" u8_list "]"
-#line 234 "parser.yy"
+#line 241 "parser.yy"
                   { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint8_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1329 "parser.cc"
     break;
 
   case 36: // list: "[" u16_list "]"
-#line 235 "parser.yy"
+#line 242 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint16_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1335 "parser.cc"
     break;
 
   case 37: // list: "[" u32_list "]"
-#line 236 "parser.yy"
+#line 243 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint32_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1341 "parser.cc"
     break;
 
   case 38: // list: "[" u64_list "]"
-#line 237 "parser.yy"
+#line 244 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint64_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1347 "parser.cc"
     break;
 
   case 39: // list: "[" f32_list "]"
-#line 238 "parser.yy"
+#line 245 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<float> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1353 "parser.cc"
     break;
 
   case 40: // list: "[" f64_list "]"
-#line 239 "parser.yy"
+#line 246 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<double> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1359 "parser.cc"
     break;
 
   case 41: // list: "[" string_list "]"
-#line 240 "parser.yy"
+#line 247 "parser.yy"
                       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<std::string> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1365 "parser.cc"
     break;
 
   case 42: // i8_list: "int8"
-#line 244 "parser.yy"
+#line 251 "parser.yy"
      { yylhs.value.as < std::vector<int8_t> > () = std::vector<int8_t>{yystack_[0].value.as < int8_t > ()}; }
 #line 1371 "parser.cc"
     break;
 
   case 43: // i8_list: i8_list "," "int8"
-#line 245 "parser.yy"
+#line 252 "parser.yy"
                  {
   yystack_[2].value.as < std::vector<int8_t> > ().emplace_back(std::move(yystack_[0].value.as < int8_t > ()));
   yylhs.value.as < std::vector<int8_t> > () = std::move(yystack_[2].value.as < std::vector<int8_t> > ());
@@ -1380,13 +1380,13 @@ namespace athena {
     break;
 
   case 44: // i16_list: "int16"
-#line 252 "parser.yy"
+#line 259 "parser.yy"
       { yylhs.value.as < std::vector<int16_t> > () = std::vector<int16_t>{yystack_[0].value.as < int16_t > ()}; }
 #line 1386 "parser.cc"
     break;
 
   case 45: // i16_list: i16_list "," "int16"
-#line 253 "parser.yy"
+#line 260 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<int16_t> > ().emplace_back(std::move(yystack_[0].value.as < int16_t > ()));
   yylhs.value.as < std::vector<int16_t> > () = std::move(yystack_[2].value.as < std::vector<int16_t> > ());
@@ -1395,13 +1395,13 @@ namespace athena {
     break;
 
   case 46: // i32_list: "int32"
-#line 260 "parser.yy"
+#line 267 "parser.yy"
       { yylhs.value.as < std::vector<int32_t> > () = std::vector<int32_t>{yystack_[0].value.as < int32_t > ()}; }
 #line 1401 "parser.cc"
     break;
 
   case 47: // i32_list: i32_list "," "int32"
-#line 261 "parser.yy"
+#line 268 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<int32_t> > ().emplace_back(std::move(yystack_[0].value.as < int32_t > ()));
   yylhs.value.as < std::vector<int32_t> > () = std::move(yystack_[2].value.as < std::vector<int32_t> > ());
@@ -1410,13 +1410,13 @@ namespace athena {
     break;
 
   case 48: // i64_list: "int64"
-#line 268 "parser.yy"
+#line 275 "parser.yy"
       { yylhs.value.as < std::vector<int64_t> > () = std::vector<int64_t>{yystack_[0].value.as < int64_t > ()}; }
 #line 1416 "parser.cc"
     break;
 
   case 49: // i64_list: i64_list "," "int64"
-#line 269 "parser.yy"
+#line 276 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<int64_t> > ().emplace_back(std::move(yystack_[0].value.as < int64_t > ()));
   yylhs.value.as < std::vector<int64_t> > () = std::move(yystack_[2].value.as < std::vector<int64_t> > ());
@@ -1425,13 +1425,13 @@ namespace athena {
     break;
 
   case 50: // u8_list: "uint8"
-#line 276 "parser.yy"
+#line 283 "parser.yy"
      { yylhs.value.as < std::vector<uint8_t> > () = std::vector<uint8_t>{yystack_[0].value.as < uint8_t > ()}; }
 #line 1431 "parser.cc"
     break;
 
   case 51: // u8_list: u8_list "," "uint8"
-#line 277 "parser.yy"
+#line 284 "parser.yy"
                  {
   yystack_[2].value.as < std::vector<uint8_t> > ().emplace_back(std::move(yystack_[0].value.as < uint8_t > ()));
   yylhs.value.as < std::vector<uint8_t> > () = std::move(yystack_[2].value.as < std::vector<uint8_t> > ());
@@ -1440,13 +1440,13 @@ namespace athena {
     break;
 
   case 52: // u16_list: "uint16"
-#line 284 "parser.yy"
+#line 291 "parser.yy"
       { yylhs.value.as < std::vector<uint16_t> > () = std::vector<uint16_t>{yystack_[0].value.as < uint16_t > ()}; }
 #line 1446 "parser.cc"
     break;
 
   case 53: // u16_list: u16_list "," "uint16"
-#line 285 "parser.yy"
+#line 292 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<uint16_t> > ().emplace_back(std::move(yystack_[0].value.as < uint16_t > ()));
   yylhs.value.as < std::vector<uint16_t> > () = std::move(yystack_[2].value.as < std::vector<uint16_t> > ());
@@ -1455,13 +1455,13 @@ namespace athena {
     break;
 
   case 54: // u32_list: "uint32"
-#line 292 "parser.yy"
+#line 299 "parser.yy"
       { yylhs.value.as < std::vector<uint32_t> > () = std::vector<uint32_t>{yystack_[0].value.as < uint32_t > ()}; }
 #line 1461 "parser.cc"
     break;
 
   case 55: // u32_list: u32_list "," "uint32"
-#line 293 "parser.yy"
+#line 300 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<uint32_t> > ().emplace_back(std::move(yystack_[0].value.as < uint32_t > ()));
   yylhs.value.as < std::vector<uint32_t> > () = std::move(yystack_[2].value.as < std::vector<uint32_t> > ());
@@ -1470,13 +1470,13 @@ namespace athena {
     break;
 
   case 56: // u64_list: "uint64"
-#line 300 "parser.yy"
+#line 307 "parser.yy"
       { yylhs.value.as < std::vector<uint64_t> > () = std::vector<uint64_t>{yystack_[0].value.as < uint64_t > ()}; }
 #line 1476 "parser.cc"
     break;
 
   case 57: // u64_list: u64_list "," "uint64"
-#line 301 "parser.yy"
+#line 308 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<uint64_t> > ().emplace_back(std::move(yystack_[0].value.as < uint64_t > ()));
   yylhs.value.as < std::vector<uint64_t> > () = std::move(yystack_[2].value.as < std::vector<uint64_t> > ());
@@ -1485,13 +1485,13 @@ namespace athena {
     break;
 
   case 58: // f32_list: "float"
-#line 308 "parser.yy"
+#line 315 "parser.yy"
       { yylhs.value.as < std::vector<float> > () = std::vector<float>{yystack_[0].value.as < float > ()}; }
 #line 1491 "parser.cc"
     break;
 
   case 59: // f32_list: f32_list "," "float"
-#line 309 "parser.yy"
+#line 316 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<float> > ().emplace_back(std::move(yystack_[0].value.as < float > ()));
   yylhs.value.as < std::vector<float> > () = std::move(yystack_[2].value.as < std::vector<float> > ());
@@ -1500,13 +1500,13 @@ namespace athena {
     break;
 
   case 60: // f64_list: "double"
-#line 316 "parser.yy"
+#line 323 "parser.yy"
       { yylhs.value.as < std::vector<double> > () = std::vector<double>{yystack_[0].value.as < double > ()}; }
 #line 1506 "parser.cc"
     break;
 
   case 61: // f64_list: f64_list "," "double"
-#line 317 "parser.yy"
+#line 324 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<double> > ().emplace_back(std::move(yystack_[0].value.as < double > ()));
   yylhs.value.as < std::vector<double> > () = std::move(yystack_[2].value.as < std::vector<double> > ());
@@ -1515,13 +1515,13 @@ namespace athena {
     break;
 
   case 62: // string_list: "string"
-#line 324 "parser.yy"
+#line 331 "parser.yy"
          { yylhs.value.as < std::vector<std::string> > () = std::vector<std::string>{yystack_[0].value.as < std::string > ()}; }
 #line 1521 "parser.cc"
     break;
 
   case 63: // string_list: string_list "," "string"
-#line 325 "parser.yy"
+#line 332 "parser.yy"
                          {
   yystack_[2].value.as < std::vector<std::string> > ().emplace_back(std::move(yystack_[0].value.as < std::string > ()));
   yylhs.value.as < std::vector<std::string> > () = std::move(yystack_[2].value.as < std::vector<std::string> > ());
@@ -1530,174 +1530,186 @@ namespace athena {
     break;
 
   case 64: // function: infix_function
-#line 332 "parser.yy"
+#line 339 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1536 "parser.cc"
     break;
 
   case 65: // function: named_function
-#line 333 "parser.yy"
+#line 340 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1542 "parser.cc"
     break;
 
   case 66: // infix_function: "-" term
-#line 338 "parser.yy"
+#line 345 "parser.yy"
                      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kMinus, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1548 "parser.cc"
     break;
 
-  case 67: // infix_function: "not" term
-#line 339 "parser.yy"
-                       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kNot, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 67: // infix_function: "-" "2147483648"
+#line 346 "parser.yy"
+                        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(std::numeric_limits<int32_t>::min()), yylhs.location, builder.GetSourceCode()); }
 #line 1554 "parser.cc"
     break;
 
-  case 68: // infix_function: "+" term
-#line 340 "parser.yy"
-                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kPlus, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 68: // infix_function: "-" "9223372036854775808"
+#line 347 "parser.yy"
+                        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(std::numeric_limits<int64_t>::min()), yylhs.location, builder.GetSourceCode()); }
 #line 1560 "parser.cc"
     break;
 
-  case 69: // infix_function: "~" term
-#line 341 "parser.yy"
-                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kBitwiseNot, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 69: // infix_function: "not" term
+#line 348 "parser.yy"
+                       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kNot, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1566 "parser.cc"
     break;
 
-  case 70: // infix_function: term "+" term
-#line 342 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kAdd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 70: // infix_function: "+" term
+#line 349 "parser.yy"
+                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kPlus, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1572 "parser.cc"
     break;
 
-  case 71: // infix_function: term "-" term
-#line 343 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kSub, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 71: // infix_function: "~" term
+#line 350 "parser.yy"
+                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kBitwiseNot, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1578 "parser.cc"
     break;
 
-  case 72: // infix_function: term "*" term
-#line 344 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kMul, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 72: // infix_function: term "+" term
+#line 351 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kAdd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1584 "parser.cc"
     break;
 
-  case 73: // infix_function: term "/" term
-#line 345 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kDiv, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 73: // infix_function: term "-" term
+#line 352 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kSub, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1590 "parser.cc"
     break;
 
-  case 74: // infix_function: term "%" term
-#line 346 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kMod, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 74: // infix_function: term "*" term
+#line 353 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kMul, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1596 "parser.cc"
     break;
 
-  case 75: // infix_function: term "&" term
-#line 347 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseAnd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 75: // infix_function: term "/" term
+#line 354 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kDiv, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1602 "parser.cc"
     break;
 
-  case 76: // infix_function: term "|" term
-#line 348 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseOr, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 76: // infix_function: term "%" term
+#line 355 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kMod, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1608 "parser.cc"
     break;
 
-  case 77: // infix_function: term "^" term
-#line 349 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseXor, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 77: // infix_function: term "&" term
+#line 356 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseAnd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1614 "parser.cc"
     break;
 
-  case 78: // infix_function: term "==" term
-#line 350 "parser.yy"
-                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 78: // infix_function: term "|" term
+#line 357 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseOr, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1620 "parser.cc"
     break;
 
-  case 79: // infix_function: term "!=" term
-#line 351 "parser.yy"
-                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kNotEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 79: // infix_function: term "^" term
+#line 358 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseXor, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1626 "parser.cc"
     break;
 
-  case 80: // infix_function: term ">" term
-#line 352 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLarge, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 80: // infix_function: term "==" term
+#line 359 "parser.yy"
+                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1632 "parser.cc"
     break;
 
-  case 81: // infix_function: term ">=" term
-#line 353 "parser.yy"
-                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLargeEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 81: // infix_function: term "!=" term
+#line 360 "parser.yy"
+                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kNotEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1638 "parser.cc"
     break;
 
-  case 82: // infix_function: term "<" term
-#line 354 "parser.yy"
-                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLess, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 82: // infix_function: term ">" term
+#line 361 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLarge, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1644 "parser.cc"
     break;
 
-  case 83: // infix_function: term "<=" term
-#line 355 "parser.yy"
-                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLessEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 83: // infix_function: term ">=" term
+#line 362 "parser.yy"
+                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLargeEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1650 "parser.cc"
     break;
 
-  case 84: // infix_function: term "<<" term
-#line 356 "parser.yy"
-                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseShiftLeft, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 84: // infix_function: term "<" term
+#line 363 "parser.yy"
+                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLess, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1656 "parser.cc"
     break;
 
-  case 85: // infix_function: term ">>" term
-#line 357 "parser.yy"
-                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseShiftRight, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 85: // infix_function: term "<=" term
+#line 364 "parser.yy"
+                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLessEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1662 "parser.cc"
     break;
 
-  case 86: // named_function: "if" "(" args ")"
-#line 361 "parser.yy"
-                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::IfNode>(std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 86: // infix_function: term "<<" term
+#line 365 "parser.yy"
+                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseShiftLeft, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1668 "parser.cc"
     break;
 
-  case 87: // named_function: "identifier" "(" args ")"
-#line 362 "parser.yy"
-                           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::FunctionNode>(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
+  case 87: // infix_function: term ">>" term
+#line 366 "parser.yy"
+                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseShiftRight, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1674 "parser.cc"
     break;
 
-  case 88: // named_function: "identifier" "(" ")"
-#line 363 "parser.yy"
-                      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::FunctionNode>(std::move(yystack_[2].value.as < std::string > ()), std::vector<std::unique_ptr<ExecNode>>{}), yylhs.location, builder.GetSourceCode());}
+  case 88: // named_function: "if" "(" args ")"
+#line 370 "parser.yy"
+                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::IfNode>(std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1680 "parser.cc"
     break;
 
-  case 89: // named_function: term "in" term
-#line 364 "parser.yy"
+  case 89: // named_function: "identifier" "(" args ")"
+#line 371 "parser.yy"
+                           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::FunctionNode>(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
+#line 1686 "parser.cc"
+    break;
+
+  case 90: // named_function: "identifier" "(" ")"
+#line 372 "parser.yy"
+                      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::FunctionNode>(std::move(yystack_[2].value.as < std::string > ()), std::vector<std::unique_ptr<ExecNode>>{}), yylhs.location, builder.GetSourceCode());}
+#line 1692 "parser.cc"
+    break;
+
+  case 91: // named_function: term "in" term
+#line 373 "parser.yy"
                  {
     auto node = std::make_unique<jitfusion::FunctionNode>("in", std::vector<std::unique_ptr<jitfusion::ExecNode>>());
     node->AppendArgs(std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
     node->AppendArgs(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
     yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::move(node), yylhs.location, builder.GetSourceCode());
 }
-#line 1691 "parser.cc"
+#line 1703 "parser.cc"
     break;
 
-  case 90: // named_function: "switch" "(" args ")"
-#line 370 "parser.yy"
+  case 92: // named_function: "switch" "(" args ")"
+#line 379 "parser.yy"
                         { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::SwitchNode>(std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
-#line 1697 "parser.cc"
+#line 1709 "parser.cc"
     break;
 
-  case 91: // when_block: "when" expr "{" block "}" elif_chain
-#line 374 "parser.yy"
+  case 93: // when_block: "when" expr "{" block "}" elif_chain
+#line 383 "parser.yy"
                                        {
     if (builder.IsExpressionMode()) {
       error(yystack_[5].location, "when block is not allowed in expression mode");
@@ -1710,84 +1722,84 @@ namespace athena {
     args.insert(args.end(), std::make_move_iterator(yystack_[0].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().begin()), std::make_move_iterator(yystack_[0].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().end()));
     yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::IfBlockNode>(std::move(args)), yylhs.location, builder.GetSourceCode());
   }
-#line 1714 "parser.cc"
+#line 1726 "parser.cc"
     break;
 
-  case 92: // elif_chain: %empty
-#line 389 "parser.yy"
+  case 94: // elif_chain: %empty
+#line 398 "parser.yy"
          { yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::vector<std::unique_ptr<jitfusion::ExecNode>>{}; }
-#line 1720 "parser.cc"
+#line 1732 "parser.cc"
     break;
 
-  case 93: // elif_chain: elif_chain "elif" expr "{" block "}"
-#line 390 "parser.yy"
+  case 95: // elif_chain: elif_chain "elif" expr "{" block "}"
+#line 399 "parser.yy"
                                        {
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::move(yystack_[5].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ());
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[3].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
   }
-#line 1730 "parser.cc"
+#line 1742 "parser.cc"
     break;
 
-  case 94: // elif_chain: elif_chain "else" "{" block "}"
-#line 395 "parser.yy"
+  case 96: // elif_chain: elif_chain "else" "{" block "}"
+#line 404 "parser.yy"
                                   {
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::move(yystack_[4].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ());
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
   }
-#line 1739 "parser.cc"
+#line 1751 "parser.cc"
     break;
 
-  case 95: // $@1: %empty
-#line 402 "parser.yy"
+  case 97: // $@1: %empty
+#line 411 "parser.yy"
   { builder.EnterBlock(); }
-#line 1745 "parser.cc"
+#line 1757 "parser.cc"
     break;
 
-  case 96: // block: $@1 program
-#line 402 "parser.yy"
+  case 98: // block: $@1 program
+#line 411 "parser.yy"
                                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = builder.LeaveBlock(); }
-#line 1751 "parser.cc"
+#line 1763 "parser.cc"
     break;
 
-  case 97: // args: arg
-#line 406 "parser.yy"
+  case 99: // args: arg
+#line 415 "parser.yy"
       {
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::vector<std::unique_ptr<jitfusion::ExecNode>>{};
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
   }
-#line 1760 "parser.cc"
+#line 1772 "parser.cc"
     break;
 
-  case 98: // args: args "," arg
-#line 410 "parser.yy"
+  case 100: // args: args "," arg
+#line 419 "parser.yy"
                {
     yystack_[2].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::move(yystack_[2].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ());
   }
-#line 1769 "parser.cc"
+#line 1781 "parser.cc"
     break;
 
-  case 99: // arg: term
-#line 417 "parser.yy"
+  case 101: // arg: term
+#line 426 "parser.yy"
        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
-#line 1775 "parser.cc"
+#line 1787 "parser.cc"
     break;
 
-  case 100: // boolean: term "and" term
-#line 421 "parser.yy"
+  case 102: // boolean: term "and" term
+#line 430 "parser.yy"
                   { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kAnd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
-#line 1781 "parser.cc"
+#line 1793 "parser.cc"
     break;
 
-  case 101: // boolean: term "or" term
-#line 422 "parser.yy"
+  case 103: // boolean: term "or" term
+#line 431 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kOr, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
-#line 1787 "parser.cc"
+#line 1799 "parser.cc"
     break;
 
 
-#line 1791 "parser.cc"
+#line 1803 "parser.cc"
 
             default:
               break;
@@ -1977,11 +1989,12 @@ namespace athena {
   "<", "<=", ">", ">=", ",", "[", "]", ";", "{", "}", "entry_arg",
   "exec_ctx", "output", "identifier", "int8", "int16", "int32", "int64",
   "uint8", "uint16", "uint32", "uint64", "float", "double", "string",
-  "NEG", "$accept", "program", "statement", "expr", "term", "literal",
-  "list", "i8_list", "i16_list", "i32_list", "i64_list", "u8_list",
-  "u16_list", "u32_list", "u64_list", "f32_list", "f64_list",
-  "string_list", "function", "infix_function", "named_function",
-  "when_block", "elif_chain", "block", "$@1", "args", "arg", "boolean", YY_NULLPTR
+  "2147483648", "9223372036854775808", "NEG", "$accept", "program",
+  "statement", "expr", "term", "literal", "list", "i8_list", "i16_list",
+  "i32_list", "i64_list", "u8_list", "u16_list", "u32_list", "u64_list",
+  "f32_list", "f64_list", "string_list", "function", "infix_function",
+  "named_function", "when_block", "elif_chain", "block", "$@1", "args",
+  "arg", "boolean", YY_NULLPTR
     };
     return yy_sname[yysymbol];
   }
@@ -2250,31 +2263,32 @@ namespace athena {
   }
 
 
-  const signed char Parser::yypact_ninf_ = -83;
+  const signed char Parser::yypact_ninf_ = -67;
 
   const signed char Parser::yytable_ninf_ = -1;
 
   const short
   Parser::yypact_[] =
   {
-     106,   -35,   208,     1,    93,   208,   -83,   -83,   208,   208,
-     208,   208,    49,   -83,   -83,   -83,    13,   -83,   -83,   -83,
-     -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,     8,   -83,
-      28,   281,   -83,   -83,   -83,   -83,   -83,   -83,   -83,    88,
-     104,    79,   208,   208,   -83,   -83,   -83,   255,   -83,   -83,
-     -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,
-     -18,    -9,     6,    34,    70,    71,    78,    98,    99,   102,
-     103,   157,   208,   -83,   -83,   -83,   208,   208,   208,   208,
-     208,   208,   208,   208,   208,   208,   208,   208,   208,   208,
-     208,   208,   208,   208,   208,   208,   -83,   281,   -10,   -83,
-      -6,   -83,    85,   -83,    97,   -83,    77,   -83,    96,   -83,
-     114,   -83,    95,   -83,   113,   -83,   117,   -83,   121,   -83,
-     112,   -83,   120,   -83,   -83,    -5,   145,   347,   327,   307,
-      47,    47,   -83,   -83,   -83,   367,   387,   407,   111,   111,
-     163,   163,    19,    19,    19,    19,   147,   146,   106,   -83,
-     208,   -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,
-     -83,   -83,   -83,   -83,   -83,   -83,   -83,   106,   -83,    41,
-     208,   148,   149,   -83,   -83,   151,   152,   -83,   -83
+     108,   -41,   263,     1,     6,   263,   -67,   -67,   159,   263,
+     263,   263,   452,   -67,   -67,   -67,   -10,   -67,   -67,   -67,
+     -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,     8,   -67,
+      -7,   336,   -67,   -67,   -67,   -67,   -67,   -67,   -67,    14,
+      28,    29,   263,   263,   -67,   -67,   -67,   -67,   -67,   310,
+     -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,
+     -67,   -67,    -9,    -1,     0,    11,    36,    66,    69,    80,
+      91,    94,    95,   212,   263,   -67,   -67,   -67,   263,   263,
+     263,   263,   263,   263,   263,   263,   263,   263,   263,   263,
+     263,   263,   263,   263,   263,   263,   263,   263,   -67,   336,
+      -6,   -67,    -5,   -67,    55,   -67,    59,   -67,    67,   -67,
+      71,   -67,    76,   -67,    70,   -67,    83,   -67,    84,   -67,
+      82,   -67,    85,   -67,    86,   -67,   -67,    -3,    99,   402,
+     382,   362,    24,    24,   -67,   -67,   -67,   422,   442,   462,
+      49,    49,   165,   165,    81,    81,    81,    81,   100,   102,
+     108,   -67,   263,   -67,   -67,   -67,   -67,   -67,   -67,   -67,
+     -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,   108,
+     -67,    87,   263,   101,   106,   -67,   -67,   107,   125,   -67,
+     -67
   };
 
   const signed char
@@ -2284,136 +2298,149 @@ namespace athena {
        0,     0,     0,    14,    15,    16,    13,    17,    18,    19,
       20,    21,    22,    23,    24,    25,    26,    27,     0,     2,
        0,     8,     9,    28,    10,    64,    65,     7,    11,     0,
-      13,     0,     0,     0,    67,    66,    68,     0,    69,    42,
-      44,    46,    48,    50,    52,    54,    56,    58,    60,    62,
+      13,     0,     0,     0,    69,    67,    68,    66,    70,     0,
+      71,    42,    44,    46,    48,    50,    52,    54,    56,    58,
+      60,    62,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     1,     3,     6,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     1,     3,     6,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,    95,    99,     0,    97,
-       0,    12,     0,    31,     0,    32,     0,    33,     0,    34,
-       0,    35,     0,    36,     0,    37,     0,    38,     0,    39,
-       0,    40,     0,    41,    88,     0,     0,    89,   100,   101,
-      71,    70,    72,    73,    74,    76,    77,    75,    84,    85,
-      78,    79,    82,    83,    80,    81,     0,     0,     0,    86,
-       0,    90,    43,    45,    47,    49,    51,    53,    55,    57,
-      59,    61,    63,    87,     4,     5,    92,    96,    98,    91,
-       0,     0,     0,    95,    95,     0,     0,    94,    93
+       0,     0,     0,     0,     0,     0,     0,     0,    97,   101,
+       0,    99,     0,    12,     0,    31,     0,    32,     0,    33,
+       0,    34,     0,    35,     0,    36,     0,    37,     0,    38,
+       0,    39,     0,    40,     0,    41,    90,     0,     0,    91,
+     102,   103,    73,    72,    74,    75,    76,    78,    79,    77,
+      86,    87,    80,    81,    84,    85,    82,    83,     0,     0,
+       0,    88,     0,    92,    43,    45,    47,    49,    51,    53,
+      55,    57,    59,    61,    63,    89,     4,     5,    94,    98,
+     100,    93,     0,     0,     0,    97,    97,     0,     0,    96,
+      95
   };
 
   const signed char
   Parser::yypgoto_[] =
   {
-     -83,    66,   -26,    -2,    -4,   -83,   -83,   -83,   -83,   -83,
-     -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,   -83,
-     -83,   -83,   -83,   -82,   -83,   -40,    65,   -83
+     -67,    16,   -26,    -2,    -4,   -67,   -67,   -67,   -67,   -67,
+     -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,   -67,
+     -67,   -67,   -67,   -66,   -67,   -33,    19,   -67
   };
 
   const unsigned char
   Parser::yydefgoto_[] =
   {
-       0,    28,    29,    30,    31,    32,    33,    60,    61,    62,
-      63,    64,    65,    66,    67,    68,    69,    70,    34,    35,
-      36,    37,   169,   147,   148,    98,    99,    38
+       0,    28,    29,    30,    31,    32,    33,    62,    63,    64,
+      65,    66,    67,    68,    69,    70,    71,    72,    34,    35,
+      36,    37,   171,   149,   150,   100,   101,    38
   };
 
   const unsigned char
   Parser::yytable_[] =
   {
-      41,    44,    74,   100,    45,    46,    47,    48,    73,    39,
-     149,     1,     2,     3,   151,   163,     4,   102,     5,   103,
-      42,     6,     7,     8,     9,   150,   104,    10,   105,   150,
-     150,   125,    71,    11,    79,    80,    81,    82,    97,    97,
-      83,   106,    72,   107,    12,    87,    88,   170,   171,    13,
+      41,    44,    76,    39,    47,    48,    49,    50,    75,    73,
+     102,     1,     2,     3,   151,   153,     4,   165,     5,    74,
+      42,     6,     7,     8,     9,    43,   104,    10,   105,   152,
+     152,    77,   152,    11,   106,   108,   107,   109,    99,    99,
+     127,    83,    84,    97,    12,    85,   110,    73,   111,    13,
       14,    15,    16,    17,    18,    19,    20,    21,    22,    23,
-      24,    25,    26,    27,    81,    82,    75,    97,    83,   108,
-     126,   109,   127,   128,   129,   130,   131,   132,   133,   134,
+      24,    25,    26,    27,    81,    82,    83,    84,    98,    99,
+      85,   112,   128,   113,   129,   130,   131,   132,   133,   134,
      135,   136,   137,   138,   139,   140,   141,   142,   143,   144,
-     145,   175,   176,   146,    49,    50,    51,    52,    53,    54,
-      55,    56,    57,    58,    59,   110,   112,   111,   113,     1,
-       2,     3,    43,   114,     4,   115,     5,    95,    96,     6,
-       7,     8,     9,    71,   154,    10,    79,    80,    81,    82,
-     152,    11,    83,   116,   118,   117,   119,   120,   122,   121,
-     123,    74,    12,   153,   155,   157,    97,    13,    14,    15,
-      16,    17,    18,    19,    20,    21,    22,    23,    24,    25,
-      26,    27,     3,   156,   158,     4,   161,     5,   172,   159,
-       6,     7,     8,     9,   160,   162,    10,   124,    79,    80,
-      81,    82,    11,   164,    83,   165,   166,   173,   174,    87,
-      88,   177,   178,    12,    91,    92,    93,    94,    13,    14,
-      15,    40,    17,    18,    19,    20,    21,    22,    23,    24,
-      25,    26,    27,     3,   167,   168,     4,     0,     5,     0,
-       0,     6,     7,     8,     9,     0,     0,    10,     0,     0,
-       0,     0,     0,    11,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,    12,     0,     0,     0,     0,    13,
-      14,    15,    40,    17,    18,    19,    20,    21,    22,    23,
-      24,    25,    26,    27,    76,     0,    77,    78,     0,     0,
-      79,    80,    81,    82,     0,   101,    83,    84,    85,    86,
-       0,    87,    88,    89,     0,    90,    91,    92,    93,    94,
-      76,     0,    77,    78,     0,     0,    79,    80,    81,    82,
-       0,     0,    83,    84,    85,    86,     0,    87,    88,    89,
-       0,    90,    91,    92,    93,    94,    76,     0,    77,     0,
-       0,     0,    79,    80,    81,    82,     0,     0,    83,    84,
-      85,    86,     0,    87,    88,    89,    76,    90,    91,    92,
-      93,    94,    79,    80,    81,    82,     0,     0,    83,    84,
-      85,    86,     0,    87,    88,    89,     0,    90,    91,    92,
-      93,    94,    79,    80,    81,    82,     0,     0,    83,    84,
-      85,    86,     0,    87,    88,    89,     0,    90,    91,    92,
-      93,    94,    79,    80,    81,    82,     0,     0,    83,     0,
-      85,    86,     0,    87,    88,    89,     0,    90,    91,    92,
-      93,    94,    79,    80,    81,    82,     0,     0,    83,     0,
-       0,    86,     0,    87,    88,    89,     0,    90,    91,    92,
-      93,    94,    79,    80,    81,    82,     0,     0,    83,     0,
-       0,     0,     0,    87,    88,    89,     0,    90,    91,    92,
-      93,    94
+     145,   146,   147,   172,   173,   148,    81,    82,    83,    84,
+     154,   114,    85,   115,   116,   155,   117,    89,    90,   177,
+     178,     1,     2,     3,   156,   118,     4,   119,     5,   157,
+     159,     6,     7,     8,     9,   158,   120,    10,   121,   122,
+     124,   123,   125,    11,   160,   162,   161,   166,   167,   163,
+     175,   164,   168,    76,    12,   176,     0,   179,    99,    13,
+      14,    15,    16,    17,    18,    19,    20,    21,    22,    23,
+      24,    25,    26,    27,     3,   180,   169,     4,     0,     5,
+     174,   170,     6,     7,     8,     9,     0,     0,    10,     0,
+      81,    82,    83,    84,    11,     0,    85,     0,     0,     0,
+       0,    89,    90,     0,     0,    12,    93,    94,    95,    96,
+      13,    14,    15,    40,    17,    18,    19,    20,    21,    22,
+      23,    24,    25,    26,    27,    45,    46,     3,     0,     0,
+       4,     0,     5,     0,     0,     6,     7,     8,     9,     0,
+       0,    10,   126,     0,     0,     0,     0,    11,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,    12,     0,
+       0,     0,     0,    13,    14,    15,    40,    17,    18,    19,
+      20,    21,    22,    23,    24,    25,    26,    27,     3,     0,
+       0,     4,     0,     5,     0,     0,     6,     7,     8,     9,
+       0,     0,    10,     0,     0,     0,     0,     0,    11,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,    12,
+       0,     0,     0,     0,    13,    14,    15,    40,    17,    18,
+      19,    20,    21,    22,    23,    24,    25,    26,    27,    78,
+       0,    79,    80,     0,     0,    81,    82,    83,    84,     0,
+     103,    85,    86,    87,    88,     0,    89,    90,    91,     0,
+      92,    93,    94,    95,    96,    78,     0,    79,    80,     0,
+       0,    81,    82,    83,    84,     0,     0,    85,    86,    87,
+      88,     0,    89,    90,    91,     0,    92,    93,    94,    95,
+      96,    78,     0,    79,     0,     0,     0,    81,    82,    83,
+      84,     0,     0,    85,    86,    87,    88,     0,    89,    90,
+      91,    78,    92,    93,    94,    95,    96,    81,    82,    83,
+      84,     0,     0,    85,    86,    87,    88,     0,    89,    90,
+      91,     0,    92,    93,    94,    95,    96,    81,    82,    83,
+      84,     0,     0,    85,    86,    87,    88,     0,    89,    90,
+      91,     0,    92,    93,    94,    95,    96,    81,    82,    83,
+      84,     0,     0,    85,     0,    87,    88,     0,    89,    90,
+      91,     0,    92,    93,    94,    95,    96,    81,    82,    83,
+      84,     0,     0,    85,     0,     0,    88,     0,    89,    90,
+      91,     0,    92,    93,    94,    95,    96,    81,    82,    83,
+      84,     0,     0,    85,     0,     0,     0,     0,    89,    90,
+      91,     0,    92,    93,    94,    95,    96,    51,    52,    53,
+      54,    55,    56,    57,    58,    59,    60,    61
   };
 
   const short
   Parser::yycheck_[] =
   {
-       2,     5,    28,    43,     8,     9,    10,    11,     0,    44,
-      20,     3,     4,     5,    20,    20,     8,    35,    10,    37,
-      19,    13,    14,    15,    16,    35,    35,    19,    37,    35,
-      35,    71,    19,    25,    15,    16,    17,    18,    42,    43,
-      21,    35,    29,    37,    36,    26,    27,     6,     7,    41,
+       2,     5,    28,    44,     8,     9,    10,    11,     0,    19,
+      43,     3,     4,     5,    20,    20,     8,    20,    10,    29,
+      19,    13,    14,    15,    16,    19,    35,    19,    37,    35,
+      35,    38,    35,    25,    35,    35,    37,    37,    42,    43,
+      73,    17,    18,    29,    36,    21,    35,    19,    37,    41,
       42,    43,    44,    45,    46,    47,    48,    49,    50,    51,
-      52,    53,    54,    55,    17,    18,    38,    71,    21,    35,
-      72,    37,    76,    77,    78,    79,    80,    81,    82,    83,
+      52,    53,    54,    55,    15,    16,    17,    18,    39,    73,
+      21,    35,    74,    37,    78,    79,    80,    81,    82,    83,
       84,    85,    86,    87,    88,    89,    90,    91,    92,    93,
-      94,   173,   174,    95,    45,    46,    47,    48,    49,    50,
-      51,    52,    53,    54,    55,    35,    35,    37,    37,     3,
-       4,     5,    19,    35,     8,    37,    10,    29,    39,    13,
-      14,    15,    16,    19,    47,    19,    15,    16,    17,    18,
-      45,    25,    21,    35,    35,    37,    37,    35,    35,    37,
-      37,   167,    36,    46,    48,    50,   150,    41,    42,    43,
-      44,    45,    46,    47,    48,    49,    50,    51,    52,    53,
-      54,    55,     5,    49,    51,     8,    54,    10,   170,    52,
-      13,    14,    15,    16,    53,    55,    19,    20,    15,    16,
-      17,    18,    25,    38,    21,    38,    40,    39,    39,    26,
-      27,    40,    40,    36,    31,    32,    33,    34,    41,    42,
-      43,    44,    45,    46,    47,    48,    49,    50,    51,    52,
-      53,    54,    55,     5,   148,   150,     8,    -1,    10,    -1,
-      -1,    13,    14,    15,    16,    -1,    -1,    19,    -1,    -1,
-      -1,    -1,    -1,    25,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    36,    -1,    -1,    -1,    -1,    41,
+      94,    95,    96,     6,     7,    97,    15,    16,    17,    18,
+      45,    35,    21,    37,    35,    46,    37,    26,    27,   175,
+     176,     3,     4,     5,    47,    35,     8,    37,    10,    48,
+      50,    13,    14,    15,    16,    49,    35,    19,    37,    35,
+      35,    37,    37,    25,    51,    53,    52,    38,    38,    54,
+      39,    55,    40,   169,    36,    39,    -1,    40,   152,    41,
       42,    43,    44,    45,    46,    47,    48,    49,    50,    51,
-      52,    53,    54,    55,     9,    -1,    11,    12,    -1,    -1,
-      15,    16,    17,    18,    -1,    20,    21,    22,    23,    24,
-      -1,    26,    27,    28,    -1,    30,    31,    32,    33,    34,
-       9,    -1,    11,    12,    -1,    -1,    15,    16,    17,    18,
-      -1,    -1,    21,    22,    23,    24,    -1,    26,    27,    28,
-      -1,    30,    31,    32,    33,    34,     9,    -1,    11,    -1,
-      -1,    -1,    15,    16,    17,    18,    -1,    -1,    21,    22,
-      23,    24,    -1,    26,    27,    28,     9,    30,    31,    32,
-      33,    34,    15,    16,    17,    18,    -1,    -1,    21,    22,
-      23,    24,    -1,    26,    27,    28,    -1,    30,    31,    32,
-      33,    34,    15,    16,    17,    18,    -1,    -1,    21,    22,
-      23,    24,    -1,    26,    27,    28,    -1,    30,    31,    32,
-      33,    34,    15,    16,    17,    18,    -1,    -1,    21,    -1,
-      23,    24,    -1,    26,    27,    28,    -1,    30,    31,    32,
-      33,    34,    15,    16,    17,    18,    -1,    -1,    21,    -1,
-      -1,    24,    -1,    26,    27,    28,    -1,    30,    31,    32,
-      33,    34,    15,    16,    17,    18,    -1,    -1,    21,    -1,
-      -1,    -1,    -1,    26,    27,    28,    -1,    30,    31,    32,
-      33,    34
+      52,    53,    54,    55,     5,    40,   150,     8,    -1,    10,
+     172,   152,    13,    14,    15,    16,    -1,    -1,    19,    -1,
+      15,    16,    17,    18,    25,    -1,    21,    -1,    -1,    -1,
+      -1,    26,    27,    -1,    -1,    36,    31,    32,    33,    34,
+      41,    42,    43,    44,    45,    46,    47,    48,    49,    50,
+      51,    52,    53,    54,    55,    56,    57,     5,    -1,    -1,
+       8,    -1,    10,    -1,    -1,    13,    14,    15,    16,    -1,
+      -1,    19,    20,    -1,    -1,    -1,    -1,    25,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    36,    -1,
+      -1,    -1,    -1,    41,    42,    43,    44,    45,    46,    47,
+      48,    49,    50,    51,    52,    53,    54,    55,     5,    -1,
+      -1,     8,    -1,    10,    -1,    -1,    13,    14,    15,    16,
+      -1,    -1,    19,    -1,    -1,    -1,    -1,    -1,    25,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    36,
+      -1,    -1,    -1,    -1,    41,    42,    43,    44,    45,    46,
+      47,    48,    49,    50,    51,    52,    53,    54,    55,     9,
+      -1,    11,    12,    -1,    -1,    15,    16,    17,    18,    -1,
+      20,    21,    22,    23,    24,    -1,    26,    27,    28,    -1,
+      30,    31,    32,    33,    34,     9,    -1,    11,    12,    -1,
+      -1,    15,    16,    17,    18,    -1,    -1,    21,    22,    23,
+      24,    -1,    26,    27,    28,    -1,    30,    31,    32,    33,
+      34,     9,    -1,    11,    -1,    -1,    -1,    15,    16,    17,
+      18,    -1,    -1,    21,    22,    23,    24,    -1,    26,    27,
+      28,     9,    30,    31,    32,    33,    34,    15,    16,    17,
+      18,    -1,    -1,    21,    22,    23,    24,    -1,    26,    27,
+      28,    -1,    30,    31,    32,    33,    34,    15,    16,    17,
+      18,    -1,    -1,    21,    22,    23,    24,    -1,    26,    27,
+      28,    -1,    30,    31,    32,    33,    34,    15,    16,    17,
+      18,    -1,    -1,    21,    -1,    23,    24,    -1,    26,    27,
+      28,    -1,    30,    31,    32,    33,    34,    15,    16,    17,
+      18,    -1,    -1,    21,    -1,    -1,    24,    -1,    26,    27,
+      28,    -1,    30,    31,    32,    33,    34,    15,    16,    17,
+      18,    -1,    -1,    21,    -1,    -1,    -1,    -1,    26,    27,
+      28,    -1,    30,    31,    32,    33,    34,    45,    46,    47,
+      48,    49,    50,    51,    52,    53,    54,    55
   };
 
   const signed char
@@ -2421,38 +2448,39 @@ namespace athena {
   {
        0,     3,     4,     5,     8,    10,    13,    14,    15,    16,
       19,    25,    36,    41,    42,    43,    44,    45,    46,    47,
-      48,    49,    50,    51,    52,    53,    54,    55,    58,    59,
-      60,    61,    62,    63,    75,    76,    77,    78,    84,    44,
-      44,    60,    19,    19,    61,    61,    61,    61,    61,    45,
-      46,    47,    48,    49,    50,    51,    52,    53,    54,    55,
-      64,    65,    66,    67,    68,    69,    70,    71,    72,    73,
-      74,    19,    29,     0,    59,    38,     9,    11,    12,    15,
-      16,    17,    18,    21,    22,    23,    24,    26,    27,    28,
-      30,    31,    32,    33,    34,    29,    39,    61,    82,    83,
-      82,    20,    35,    37,    35,    37,    35,    37,    35,    37,
+      48,    49,    50,    51,    52,    53,    54,    55,    60,    61,
+      62,    63,    64,    65,    77,    78,    79,    80,    86,    44,
+      44,    62,    19,    19,    63,    56,    57,    63,    63,    63,
+      63,    45,    46,    47,    48,    49,    50,    51,    52,    53,
+      54,    55,    66,    67,    68,    69,    70,    71,    72,    73,
+      74,    75,    76,    19,    29,     0,    61,    38,     9,    11,
+      12,    15,    16,    17,    18,    21,    22,    23,    24,    26,
+      27,    28,    30,    31,    32,    33,    34,    29,    39,    63,
+      84,    85,    84,    20,    35,    37,    35,    37,    35,    37,
       35,    37,    35,    37,    35,    37,    35,    37,    35,    37,
-      35,    37,    35,    37,    20,    82,    60,    61,    61,    61,
-      61,    61,    61,    61,    61,    61,    61,    61,    61,    61,
-      61,    61,    61,    61,    61,    61,    60,    80,    81,    20,
-      35,    20,    45,    46,    47,    48,    49,    50,    51,    52,
-      53,    54,    55,    20,    38,    38,    40,    58,    83,    79,
-       6,     7,    60,    39,    39,    80,    80,    40,    40
+      35,    37,    35,    37,    35,    37,    20,    84,    62,    63,
+      63,    63,    63,    63,    63,    63,    63,    63,    63,    63,
+      63,    63,    63,    63,    63,    63,    63,    63,    62,    82,
+      83,    20,    35,    20,    45,    46,    47,    48,    49,    50,
+      51,    52,    53,    54,    55,    20,    38,    38,    40,    60,
+      85,    81,     6,     7,    62,    39,    39,    82,    82,    40,
+      40
   };
 
   const signed char
   Parser::yyr1_[] =
   {
-       0,    57,    58,    58,    59,    59,    59,    59,    60,    61,
-      61,    61,    61,    61,    61,    61,    61,    62,    62,    62,
-      62,    62,    62,    62,    62,    62,    62,    62,    62,    62,
-      62,    63,    63,    63,    63,    63,    63,    63,    63,    63,
-      63,    63,    64,    64,    65,    65,    66,    66,    67,    67,
-      68,    68,    69,    69,    70,    70,    71,    71,    72,    72,
-      73,    73,    74,    74,    75,    75,    76,    76,    76,    76,
-      76,    76,    76,    76,    76,    76,    76,    76,    76,    76,
-      76,    76,    76,    76,    76,    76,    77,    77,    77,    77,
-      77,    78,    79,    79,    79,    81,    80,    82,    82,    83,
-      84,    84
+       0,    59,    60,    60,    61,    61,    61,    61,    62,    63,
+      63,    63,    63,    63,    63,    63,    63,    64,    64,    64,
+      64,    64,    64,    64,    64,    64,    64,    64,    64,    64,
+      64,    65,    65,    65,    65,    65,    65,    65,    65,    65,
+      65,    65,    66,    66,    67,    67,    68,    68,    69,    69,
+      70,    70,    71,    71,    72,    72,    73,    73,    74,    74,
+      75,    75,    76,    76,    77,    77,    78,    78,    78,    78,
+      78,    78,    78,    78,    78,    78,    78,    78,    78,    78,
+      78,    78,    78,    78,    78,    78,    78,    78,    79,    79,
+      79,    79,    79,    80,    81,    81,    81,    83,    82,    84,
+      84,    85,    86,    86
   };
 
   const signed char
@@ -2465,10 +2493,10 @@ namespace athena {
        3,     3,     1,     3,     1,     3,     1,     3,     1,     3,
        1,     3,     1,     3,     1,     3,     1,     3,     1,     3,
        1,     3,     1,     3,     1,     1,     2,     2,     2,     2,
-       3,     3,     3,     3,     3,     3,     3,     3,     3,     3,
-       3,     3,     3,     3,     3,     3,     4,     4,     3,     3,
-       4,     6,     0,     6,     5,     0,     2,     1,     3,     1,
-       3,     3
+       2,     2,     3,     3,     3,     3,     3,     3,     3,     3,
+       3,     3,     3,     3,     3,     3,     3,     3,     4,     4,
+       3,     3,     4,     6,     0,     6,     5,     0,     2,     1,
+       3,     1,     3,     3
   };
 
 
@@ -2478,17 +2506,17 @@ namespace athena {
   const short
   Parser::yyrline_[] =
   {
-       0,   181,   181,   185,   191,   192,   193,   194,   196,   200,
-     201,   202,   203,   204,   207,   208,   209,   213,   214,   215,
-     216,   217,   218,   219,   220,   221,   222,   223,   224,   225,
-     226,   230,   231,   232,   233,   234,   235,   236,   237,   238,
-     239,   240,   244,   245,   252,   253,   260,   261,   268,   269,
-     276,   277,   284,   285,   292,   293,   300,   301,   308,   309,
-     316,   317,   324,   325,   332,   333,   338,   339,   340,   341,
-     342,   343,   344,   345,   346,   347,   348,   349,   350,   351,
-     352,   353,   354,   355,   356,   357,   361,   362,   363,   364,
-     370,   374,   389,   390,   395,   402,   402,   406,   410,   417,
-     421,   422
+       0,   188,   188,   192,   198,   199,   200,   201,   203,   207,
+     208,   209,   210,   211,   214,   215,   216,   220,   221,   222,
+     223,   224,   225,   226,   227,   228,   229,   230,   231,   232,
+     233,   237,   238,   239,   240,   241,   242,   243,   244,   245,
+     246,   247,   251,   252,   259,   260,   267,   268,   275,   276,
+     283,   284,   291,   292,   299,   300,   307,   308,   315,   316,
+     323,   324,   331,   332,   339,   340,   345,   346,   347,   348,
+     349,   350,   351,   352,   353,   354,   355,   356,   357,   358,
+     359,   360,   361,   362,   363,   364,   365,   366,   370,   371,
+     372,   373,   379,   383,   398,   399,   404,   411,   411,   415,
+     419,   426,   430,   431
   };
 
   void
@@ -2521,9 +2549,9 @@ namespace athena {
 
 #line 10 "parser.yy"
 } // athena
-#line 2525 "parser.cc"
+#line 2553 "parser.cc"
 
-#line 424 "parser.yy"
+#line 433 "parser.yy"
 
 
 void athena::Parser::error(const location_type &l, const std::string &m) {
diff --git a/athena/parser.hh b/athena/parser.hh
index 8037ed6..22c30fa 100644
--- a/athena/parser.hh
+++ b/athena/parser.hh
@@ -1,8 +1,8 @@
-// A Bison parser, made by GNU Bison 3.8.2.45-25b3d-dirty.
+// A Bison parser, made by GNU Bison 3.8.2.
 
 // Skeleton interface for Bison LALR(1) parsers in C++
 
-// Copyright (C) 2002-2015, 2018-2022 Free Software Foundation, Inc.
+// Copyright (C) 2002-2015, 2018-2021 Free Software Foundation, Inc.
 
 // This program is free software: you can redistribute it and/or modify
 // it under the terms of the GNU General Public License as published by
@@ -631,7 +631,9 @@ namespace athena {
     TOK_F32 = 53,                  // "float"
     TOK_F64 = 54,                  // "double"
     TOK_STRING = 55,               // "string"
-    TOK_NEG = 56                   // NEG
+    TOK_I32_MIN_MAGNITUDE = 56,    // "2147483648"
+    TOK_I64_MIN_MAGNITUDE = 57,    // "9223372036854775808"
+    TOK_NEG = 58                   // NEG
       };
       /// Backward compatibility alias (Bison 3.6).
       typedef token_kind_type yytokentype;
@@ -648,7 +650,7 @@ namespace athena {
     {
       enum symbol_kind_type
       {
-        YYNTOKENS = 57, ///< Number of tokens.
+        YYNTOKENS = 59, ///< Number of tokens.
         S_YYEMPTY = -2,
         S_YYEOF = 0,                             // "end of file"
         S_YYerror = 1,                           // error
@@ -706,35 +708,37 @@ namespace athena {
         S_F32 = 53,                              // "float"
         S_F64 = 54,                              // "double"
         S_STRING = 55,                           // "string"
-        S_NEG = 56,                              // NEG
-        S_YYACCEPT = 57,                         // $accept
-        S_program = 58,                          // program
-        S_statement = 59,                        // statement
-        S_expr = 60,                             // expr
-        S_term = 61,                             // term
-        S_literal = 62,                          // literal
-        S_list = 63,                             // list
-        S_i8_list = 64,                          // i8_list
-        S_i16_list = 65,                         // i16_list
-        S_i32_list = 66,                         // i32_list
-        S_i64_list = 67,                         // i64_list
-        S_u8_list = 68,                          // u8_list
-        S_u16_list = 69,                         // u16_list
-        S_u32_list = 70,                         // u32_list
-        S_u64_list = 71,                         // u64_list
-        S_f32_list = 72,                         // f32_list
-        S_f64_list = 73,                         // f64_list
-        S_string_list = 74,                      // string_list
-        S_function = 75,                         // function
-        S_infix_function = 76,                   // infix_function
-        S_named_function = 77,                   // named_function
-        S_when_block = 78,                       // when_block
-        S_elif_chain = 79,                       // elif_chain
-        S_block = 80,                            // block
-        S_81_1 = 81,                             // $@1
-        S_args = 82,                             // args
-        S_arg = 83,                              // arg
-        S_boolean = 84                           // boolean
+        S_I32_MIN_MAGNITUDE = 56,                // "2147483648"
+        S_I64_MIN_MAGNITUDE = 57,                // "9223372036854775808"
+        S_NEG = 58,                              // NEG
+        S_YYACCEPT = 59,                         // $accept
+        S_program = 60,                          // program
+        S_statement = 61,                        // statement
+        S_expr = 62,                             // expr
+        S_term = 63,                             // term
+        S_literal = 64,                          // literal
+        S_list = 65,                             // list
+        S_i8_list = 66,                          // i8_list
+        S_i16_list = 67,                         // i16_list
+        S_i32_list = 68,                         // i32_list
+        S_i64_list = 69,                         // i64_list
+        S_u8_list = 70,                          // u8_list
+        S_u16_list = 71,                         // u16_list
+        S_u32_list = 72,                         // u32_list
+        S_u64_list = 73,                         // u64_list
+        S_f32_list = 74,                         // f32_list
+        S_f64_list = 75,                         // f64_list
+        S_string_list = 76,                      // string_list
+        S_function = 77,                         // function
+        S_infix_function = 78,                   // infix_function
+        S_named_function = 79,                   // named_function
+        S_when_block = 80,                       // when_block
+        S_elif_chain = 81,                       // elif_chain
+        S_block = 82,                            // block
+        S_83_1 = 83,                             // $@1
+        S_args = 84,                             // args
+        S_arg = 85,                              // arg
+        S_boolean = 86                           // boolean
       };
     };
 
@@ -1280,267 +1284,7 @@ namespace athena {
         clear ();
       }
 
-#if 201103L <= YY_CPLUSPLUS
-      /// Copy assignment.
-      basic_symbol& operator= (const basic_symbol& that)
-      {
-        Base::operator= (that);
-        switch (this->kind ())
-    {
-      case symbol_kind::S_statement: // statement
-        value.copy< Statement > (that.value);
-        break;
-
-      case symbol_kind::S_F64: // "double"
-        value.copy< double > (that.value);
-        break;
 
-      case symbol_kind::S_F32: // "float"
-        value.copy< float > (that.value);
-        break;
-
-      case symbol_kind::S_I16: // "int16"
-        value.copy< int16_t > (that.value);
-        break;
-
-      case symbol_kind::S_I32: // "int32"
-        value.copy< int32_t > (that.value);
-        break;
-
-      case symbol_kind::S_I64: // "int64"
-        value.copy< int64_t > (that.value);
-        break;
-
-      case symbol_kind::S_I8: // "int8"
-        value.copy< int8_t > (that.value);
-        break;
-
-      case symbol_kind::S_IDENTIFIER: // "identifier"
-      case symbol_kind::S_STRING: // "string"
-        value.copy< std::string > (that.value);
-        break;
-
-      case symbol_kind::S_expr: // expr
-      case symbol_kind::S_term: // term
-      case symbol_kind::S_literal: // literal
-      case symbol_kind::S_list: // list
-      case symbol_kind::S_function: // function
-      case symbol_kind::S_infix_function: // infix_function
-      case symbol_kind::S_named_function: // named_function
-      case symbol_kind::S_when_block: // when_block
-      case symbol_kind::S_block: // block
-      case symbol_kind::S_arg: // arg
-      case symbol_kind::S_boolean: // boolean
-        value.copy< std::unique_ptr<jitfusion::ExecNode> > (that.value);
-        break;
-
-      case symbol_kind::S_f64_list: // f64_list
-        value.copy< std::vector<double> > (that.value);
-        break;
-
-      case symbol_kind::S_f32_list: // f32_list
-        value.copy< std::vector<float> > (that.value);
-        break;
-
-      case symbol_kind::S_i16_list: // i16_list
-        value.copy< std::vector<int16_t> > (that.value);
-        break;
-
-      case symbol_kind::S_i32_list: // i32_list
-        value.copy< std::vector<int32_t> > (that.value);
-        break;
-
-      case symbol_kind::S_i64_list: // i64_list
-        value.copy< std::vector<int64_t> > (that.value);
-        break;
-
-      case symbol_kind::S_i8_list: // i8_list
-        value.copy< std::vector<int8_t> > (that.value);
-        break;
-
-      case symbol_kind::S_string_list: // string_list
-        value.copy< std::vector<std::string> > (that.value);
-        break;
-
-      case symbol_kind::S_elif_chain: // elif_chain
-      case symbol_kind::S_args: // args
-        value.copy< std::vector<std::unique_ptr<jitfusion::ExecNode>> > (that.value);
-        break;
-
-      case symbol_kind::S_u16_list: // u16_list
-        value.copy< std::vector<uint16_t> > (that.value);
-        break;
-
-      case symbol_kind::S_u32_list: // u32_list
-        value.copy< std::vector<uint32_t> > (that.value);
-        break;
-
-      case symbol_kind::S_u64_list: // u64_list
-        value.copy< std::vector<uint64_t> > (that.value);
-        break;
-
-      case symbol_kind::S_u8_list: // u8_list
-        value.copy< std::vector<uint8_t> > (that.value);
-        break;
-
-      case symbol_kind::S_U16: // "uint16"
-        value.copy< uint16_t > (that.value);
-        break;
-
-      case symbol_kind::S_U32: // "uint32"
-        value.copy< uint32_t > (that.value);
-        break;
-
-      case symbol_kind::S_U64: // "uint64"
-        value.copy< uint64_t > (that.value);
-        break;
-
-      case symbol_kind::S_U8: // "uint8"
-        value.copy< uint8_t > (that.value);
-        break;
-
-      case symbol_kind::S_program: // program
-        value.copy< void* > (that.value);
-        break;
-
-      default:
-        break;
-    }
-;
-        location = that.location;
-        return *this;
-      }
-
-      /// Move assignment.
-      basic_symbol& operator= (basic_symbol&& that)
-      {
-        Base::operator= (std::move (that));
-        switch (this->kind ())
-    {
-      case symbol_kind::S_statement: // statement
-        value.move< Statement > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_F64: // "double"
-        value.move< double > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_F32: // "float"
-        value.move< float > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_I16: // "int16"
-        value.move< int16_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_I32: // "int32"
-        value.move< int32_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_I64: // "int64"
-        value.move< int64_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_I8: // "int8"
-        value.move< int8_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_IDENTIFIER: // "identifier"
-      case symbol_kind::S_STRING: // "string"
-        value.move< std::string > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_expr: // expr
-      case symbol_kind::S_term: // term
-      case symbol_kind::S_literal: // literal
-      case symbol_kind::S_list: // list
-      case symbol_kind::S_function: // function
-      case symbol_kind::S_infix_function: // infix_function
-      case symbol_kind::S_named_function: // named_function
-      case symbol_kind::S_when_block: // when_block
-      case symbol_kind::S_block: // block
-      case symbol_kind::S_arg: // arg
-      case symbol_kind::S_boolean: // boolean
-        value.move< std::unique_ptr<jitfusion::ExecNode> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_f64_list: // f64_list
-        value.move< std::vector<double> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_f32_list: // f32_list
-        value.move< std::vector<float> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_i16_list: // i16_list
-        value.move< std::vector<int16_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_i32_list: // i32_list
-        value.move< std::vector<int32_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_i64_list: // i64_list
-        value.move< std::vector<int64_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_i8_list: // i8_list
-        value.move< std::vector<int8_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_string_list: // string_list
-        value.move< std::vector<std::string> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_elif_chain: // elif_chain
-      case symbol_kind::S_args: // args
-        value.move< std::vector<std::unique_ptr<jitfusion::ExecNode>> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_u16_list: // u16_list
-        value.move< std::vector<uint16_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_u32_list: // u32_list
-        value.move< std::vector<uint32_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_u64_list: // u64_list
-        value.move< std::vector<uint64_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_u8_list: // u8_list
-        value.move< std::vector<uint8_t> > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_U16: // "uint16"
-        value.move< uint16_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_U32: // "uint32"
-        value.move< uint32_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_U64: // "uint64"
-        value.move< uint64_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_U8: // "uint8"
-        value.move< uint8_t > (std::move (that.value));
-        break;
-
-      case symbol_kind::S_program: // program
-        value.move< void* > (std::move (that.value));
-        break;
-
-      default:
-        break;
-    }
-;
-        location = std::move (that.location);
-        return *this;
-      }
-#endif
 
       /// Destroy contents, and record that is empty.
       void clear () YY_NOEXCEPT
@@ -1729,13 +1473,7 @@ switch (yykind)
       /// Constructor from (external) token numbers.
       by_kind (kind_type t) YY_NOEXCEPT;
 
-#if 201103L <= YY_CPLUSPLUS
-      /// Copy assignment.
-      by_kind& operator= (const by_kind& that);
 
-      /// Move assignment.
-      by_kind& operator= (by_kind&& that);
-#endif
 
       /// Record that this symbol is empty.
       void clear () YY_NOEXCEPT;
@@ -1779,7 +1517,7 @@ switch (yykind)
 #if !defined _MSC_VER || defined __clang__
         YY_ASSERT (tok == token::TOK_YYEOF
                    || (token::TOK_YYerror <= tok && tok <= token::TOK_OUTPUT)
-                   || tok == token::TOK_NEG);
+                   || (token::TOK_I32_MIN_MAGNITUDE <= tok && tok <= token::TOK_NEG));
 #endif
       }
 #if 201103L <= YY_CPLUSPLUS
@@ -2803,6 +2541,36 @@ switch (yykind)
         return symbol_type (token::TOK_STRING, v, l);
       }
 #endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_I32_MIN_MAGNITUDE (location_type l)
+      {
+        return symbol_type (token::TOK_I32_MIN_MAGNITUDE, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_I32_MIN_MAGNITUDE (const location_type& l)
+      {
+        return symbol_type (token::TOK_I32_MIN_MAGNITUDE, l);
+      }
+#endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_I64_MIN_MAGNITUDE (location_type l)
+      {
+        return symbol_type (token::TOK_I64_MIN_MAGNITUDE, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_I64_MIN_MAGNITUDE (const location_type& l)
+      {
+        return symbol_type (token::TOK_I64_MIN_MAGNITUDE, l);
+      }
+#endif
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -2992,7 +2760,7 @@ switch (yykind)
       /// Superclass.
       typedef basic_symbol<by_state> super_type;
       /// Construct an empty symbol.
-      stack_symbol_type () YY_NOEXCEPT;
+      stack_symbol_type ();
       /// Move or copy construction.
       stack_symbol_type (YY_RVREF (stack_symbol_type) that);
       /// Steal the contents from \a sym to build this.
@@ -3162,9 +2930,9 @@ switch (yykind)
     /// Constants.
     enum
     {
-      yylast_ = 441,     ///< Last index in yytable_.
+      yylast_ = 507,     ///< Last index in yytable_.
       yynnts_ = 28,  ///< Number of nonterminal symbols.
-      yyfinal_ = 73 ///< Termination state number.
+      yyfinal_ = 75 ///< Termination state number.
     };
 
 
@@ -3485,24 +3253,7 @@ switch (yykind)
     : kind_ (yytranslate_ (t))
   {}
 
-#if 201103L <= YY_CPLUSPLUS
-  inline
-  Parser::by_kind&
-  Parser::by_kind::by_kind::operator= (const by_kind& that)
-  {
-    kind_ = that.kind_;
-    return *this;
-  }
 
-  inline
-  Parser::by_kind&
-  Parser::by_kind::by_kind::operator= (by_kind&& that)
-  {
-    kind_ = that.kind_;
-    that.clear ();
-    return *this;
-  }
-#endif
 
   inline
   void
@@ -3537,7 +3288,7 @@ switch (yykind)
 
 #line 10 "parser.yy"
 } // athena
-#line 3541 "parser.hh"
+#line 3292 "parser.hh"
 
 
 // "%code provides" blocks.
@@ -3548,7 +3299,7 @@ switch (yykind)
 // ... and declare it for the parser's sake.
 YY_DECL;
 
-#line 3552 "parser.hh"
+#line 3303 "parser.hh"
 
 
 #endif // !YY_YY_PARSER_HH_INCLUDED
diff --git a/athena/parser.yy b/athena/parser.yy
index deb48f7..c4ae48c 100644
--- a/athena/parser.yy
+++ b/athena/parser.yy
@@ -123,6 +123,13 @@ YY_DECL;
 
 %token <std::string> STRING "string";
 
+// Magnitudes of the smallest i32 and i64: no literals themselves, only when
+// negated.
+%token
+  I32_MIN_MAGNITUDE           "2147483648"
+  I64_MIN_MAGNITUDE           "9223372036854775808"
+;
+
 %nterm <void*> program;
 %nterm <Statement> statement;
 %nterm <std::unique_ptr<jitfusion::ExecNode>> expr;
@@ -336,6 +343,8 @@ function:
 
 infix_function:
   "-" term %prec NEG { $$ = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kMinus, std::move($2)), @$, builder.GetSourceCode()); }
+| "-" I32_MIN_MAGNITUDE { $$ = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(std::numeric_limits<int32_t>::min()), @$, builder.GetSourceCode()); }
+| "-" I64_MIN_MAGNITUDE { $$ = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(std::numeric_limits<int64_t>::min()), @$, builder.GetSourceCode()); }
 | "not" term %prec NEG { $$ = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kNot, std::move($2)), @$, builder.GetSourceCode()); }
 | "+" term %prec NEG { $$ = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kPlus, std::move($2)), @$, builder.GetSourceCode()); }
 | "~" term %prec NEG { $$ = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kBitwiseNot, std::move($2)), @$, builder.GetSourceCode()); }
diff --git a/athena/token.cc b/athena/token.cc
index 7eae7a9..f2fe455 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -1,6 +1,6 @@
-#line 1 "token.cc"
+#line 2 "token.cc"
 
-#line 3 "token.cc"
+#line 4 "token.cc"
 
 #define  YY_INT_ALIGNED short int
 
@@ -257,7 +257,6 @@ typedef int16_t flex_int16_t;
 typedef uint16_t flex_uint16_t;
 typedef int32_t flex_int32_t;
 typedef uint32_t flex_uint32_t;
-typedef uint64_t flex_uint64_t;
 #else
 typedef signed char flex_int8_t;
 typedef short int flex_int16_t;
@@ -422,7 +421,7 @@ struct yy_buffer_state
 	/* Number of characters read into yy_ch_buf, not including EOB
 	 * characters.
 	 */
-	yy_size_t yy_n_chars;
+	int yy_n_chars;
 
 	/* Whether we "own" the buffer - i.e., we know we created it,
 	 * and can realloc() it to grow it, and should free() it to
@@ -499,7 +498,7 @@ static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file , yyscan_t yyscanner
 
 YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
 YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
-YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, yy_size_t len , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
 void *yyalloc ( yy_size_t , yyscan_t yyscanner );
 void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
@@ -546,7 +545,7 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
  */
 #define YY_DO_BEFORE_ACTION \
 	yyg->yytext_ptr = yy_bp; \
-	yyleng = (yy_size_t) (yy_cp - yy_bp); \
+	yyleng = (int) (yy_cp - yy_bp); \
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
@@ -745,10 +744,52 @@ static const flex_int16_t yy_chk[277] =
 #include "parser.hh"
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
-#line 750 "token.cc"
-#line 15 "token.ll"
+#include <limits>
+
+namespace {
+
+// Value of an integer literal of type T. Literals that do not fit T are
+// rejected instead of being silently truncated.
+template <typename T>
+T ParseInt(const char* text, const athena::location& loc) {
+  errno = 0;
+  unsigned long long value = std::strtoull(text, nullptr, 10);
+  if (errno == ERANGE || value > static_cast<unsigned long long>(std::numeric_limits<T>::max())) {
+    throw athena::Parser::syntax_error(loc, "integer literal out of range");
+  }
+  return static_cast<T>(value);
+}
+
+// The magnitude of the smallest T, which is only a literal when negated.
+template <typename T>
+bool IsMinMagnitude(const char* text) {
+  errno = 0;
+  unsigned long long value = std::strtoull(text, nullptr, 10);
+  return errno != ERANGE && value == static_cast<unsigned long long>(std::numeric_limits<T>::max()) + 1;
+}
+
+float ParseF32(const char* text, const athena::location& loc) {
+  float value = std::strtof(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, "float literal out of range");
+  }
+  return value;
+}
+
+double ParseF64(const char* text, const athena::location& loc) {
+  double value = std::strtod(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, "float literal out of range");
+  }
+  return value;
+}
+
+}  // namespace
+#line 792 "token.cc"
+#line 57 "token.ll"
 #if defined __clang__
 # define CLANG_VERSION (__clang_major__ * 100 + __clang_minor__)
 #endif
@@ -818,13 +859,13 @@ static const flex_int16_t yy_chk[277] =
 #if defined GCC_VERSION && 900 <= GCC_VERSION
 # pragma GCC diagnostic ignored "-Wuseless-cast"
 #endif
-#line 821 "token.cc"
+#line 863 "token.cc"
 #define YY_NO_INPUT 1
-#line 94 "token.ll"
+#line 136 "token.ll"
   // Code run each time a pattern is matched.
   # define YY_USER_ACTION  loc.columns (yyleng);
-#line 826 "token.cc"
-#line 827 "token.cc"
+#line 868 "token.cc"
+#line 869 "token.cc"
 
 #define INITIAL 0
 
@@ -853,8 +894,8 @@ struct yyguts_t
     size_t yy_buffer_stack_max; /**< capacity of stack. */
     YY_BUFFER_STATE * yy_buffer_stack; /**< Stack as an array. */
     char yy_hold_char;
-    yy_size_t yy_n_chars;
-    yy_size_t yyleng_r;
+    int yy_n_chars;
+    int yyleng_r;
     char *yy_c_buf_p;
     int yy_init;
     int yy_start;
@@ -901,7 +942,7 @@ FILE *yyget_out ( yyscan_t yyscanner );
 
 void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			yy_size_t yyget_leng ( yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
 char *yyget_text ( yyscan_t yyscanner );
 
@@ -972,7 +1013,7 @@ static int input ( yyscan_t yyscanner );
 	if ( YY_CURRENT_BUFFER_LVALUE->yy_is_interactive ) \
 		{ \
 		int c = '*'; \
-		yy_size_t n; \
+		int n; \
 		for ( n = 0; n < max_size && \
 			     (c = getc( yyin )) != EOF && c != '\n'; ++n ) \
 			buf[n] = (char) c; \
@@ -1082,16 +1123,16 @@ YY_DECL
 		}
 
 	{
-#line 97 "token.ll"
+#line 139 "token.ll"
 
 
-#line 100 "token.ll"
+#line 142 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1094 "token.cc"
+#line 1136 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1146,24 +1187,24 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 105 "token.ll"
+#line 147 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 106 "token.ll"
+#line 148 "token.ll"
 loc.lines (yyleng); loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 108 "token.ll"
+#line 150 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 109 "token.ll"
+#line 151 "token.ll"
 {
                                 for (int i = 0; i < yyleng; ++i) {
                                   if (yytext[i] == '\n') loc.lines(1);
@@ -1173,306 +1214,315 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 116 "token.ll"
+#line 158 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 117 "token.ll"
+#line 159 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 118 "token.ll"
+#line 160 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 119 "token.ll"
+#line 161 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 120 "token.ll"
+#line 162 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 121 "token.ll"
+#line 163 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 122 "token.ll"
+#line 164 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 123 "token.ll"
+#line 165 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 124 "token.ll"
+#line 166 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 126 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 127 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 128 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 129 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 130 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 131 "token.ll"
+#line 173 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 132 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 133 "token.ll"
+#line 175 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 134 "token.ll"
+#line 176 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 135 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 136 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 137 "token.ll"
+#line 179 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 138 "token.ll"
+#line 180 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 139 "token.ll"
+#line 181 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 140 "token.ll"
+#line 182 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 141 "token.ll"
+#line 183 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 142 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 143 "token.ll"
+#line 185 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 144 "token.ll"
+#line 186 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 145 "token.ll"
+#line 187 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 146 "token.ll"
+#line 188 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 189 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 148 "token.ll"
+#line 190 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 149 "token.ll"
+#line 191 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 192 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 151 "token.ll"
+#line 193 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 152 "token.ll"
+#line 194 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 153 "token.ll"
+#line 195 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 154 "token.ll"
+#line 196 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 156 "token.ll"
+#line 198 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 157 "token.ll"
+#line 199 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 200 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 202 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 162 "token.ll"
-return  athena::Parser::make_I32 (std::stoull(yytext), loc);
+#line 204 "token.ll"
+{
+             if (IsMinMagnitude<int32_t>(yytext)) return  athena::Parser::make_I32_MIN_MAGNITUDE (loc);
+             return  athena::Parser::make_I32 (ParseInt<int32_t>(yytext, loc), loc);
+           }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 163 "token.ll"
-return  athena::Parser::make_U8 (std::stoull(yytext), loc);
+#line 208 "token.ll"
+return  athena::Parser::make_U8 (ParseInt<uint8_t>(yytext, loc), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 164 "token.ll"
-return  athena::Parser::make_U16 (std::stoull(yytext), loc);
+#line 209 "token.ll"
+return  athena::Parser::make_U16 (ParseInt<uint16_t>(yytext, loc), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 165 "token.ll"
-return  athena::Parser::make_U32 (std::stoull(yytext), loc);
+#line 210 "token.ll"
+return  athena::Parser::make_U32 (ParseInt<uint32_t>(yytext, loc), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 166 "token.ll"
-return  athena::Parser::make_U64 (std::stoull(yytext), loc);
+#line 211 "token.ll"
+return  athena::Parser::make_U64 (ParseInt<uint64_t>(yytext, loc), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 167 "token.ll"
-return  athena::Parser::make_I8 (std::stoull(yytext), loc);
+#line 212 "token.ll"
+return  athena::Parser::make_I8 (ParseInt<int8_t>(yytext, loc), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 168 "token.ll"
-return  athena::Parser::make_I16 (std::stoull(yytext), loc);
+#line 213 "token.ll"
+return  athena::Parser::make_I16 (ParseInt<int16_t>(yytext, loc), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 169 "token.ll"
-return  athena::Parser::make_I32 (std::stoull(yytext), loc);
+#line 214 "token.ll"
+{
+             if (IsMinMagnitude<int32_t>(yytext)) return  athena::Parser::make_I32_MIN_MAGNITUDE (loc);
+             return  athena::Parser::make_I32 (ParseInt<int32_t>(yytext, loc), loc);
+           }
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 170 "token.ll"
-return  athena::Parser::make_I64 (std::stoull(yytext), loc);
+#line 218 "token.ll"
+{
+             if (IsMinMagnitude<int64_t>(yytext)) return  athena::Parser::make_I64_MIN_MAGNITUDE (loc);
+             return  athena::Parser::make_I64 (ParseInt<int64_t>(yytext, loc), loc);
+           }
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 172 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+#line 223 "token.ll"
+return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 173 "token.ll"
-return  athena::Parser::make_F32 (std::stof(yytext), loc);
+#line 224 "token.ll"
+return  athena::Parser::make_F32 (ParseF32(yytext, loc), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 174 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+#line 225 "token.ll"
+return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 175 "token.ll"
-return  athena::Parser::make_F32 (std::stof(yytext), loc);
+#line 226 "token.ll"
+return  athena::Parser::make_F32 (ParseF32(yytext, loc), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 176 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+#line 227 "token.ll"
+return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 179 "token.ll"
+#line 230 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 180 "token.ll"
+#line 231 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 182 "token.ll"
+#line 233 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 183 "token.ll"
+#line 234 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1475 "token.cc"
+#line 1526 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -1659,7 +1709,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	else
 		{
-			yy_size_t num_to_read =
+			int num_to_read =
 			YY_CURRENT_BUFFER_LVALUE->yy_buf_size - number_to_move - 1;
 
 		while ( num_to_read <= 0 )
@@ -1673,7 +1723,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 			if ( b->yy_is_our_buffer )
 				{
-				yy_size_t new_size = b->yy_buf_size * 2;
+				int new_size = b->yy_buf_size * 2;
 
 				if ( new_size <= 0 )
 					b->yy_buf_size += b->yy_buf_size / 8;
@@ -1731,7 +1781,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	if ((yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
-		yy_size_t new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
+		int new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
 		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
 			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size , yyscanner );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
@@ -1838,7 +1888,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 		else
 			{ /* need more input */
-			yy_size_t offset = yyg->yy_c_buf_p - yyg->yytext_ptr;
+			int offset = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr);
 			++yyg->yy_c_buf_p;
 
 			switch ( yy_get_next_buffer( yyscanner ) )
@@ -2216,12 +2266,12 @@ YY_BUFFER_STATE yy_scan_string (const char * yystr , yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, yy_size_t  _yybytes_len , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
 	char *buf;
 	yy_size_t n;
-	yy_size_t i;
+	int i;
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
 	n = (yy_size_t) (_yybytes_len + 2);
@@ -2265,7 +2315,7 @@ static void yynoreturn yy_fatal_error (const char* msg , yyscan_t yyscanner)
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		yytext[yyleng] = yyg->yy_hold_char; \
 		yyg->yy_c_buf_p = yytext + yyless_macro_arg; \
@@ -2333,7 +2383,7 @@ FILE *yyget_out  (yyscan_t yyscanner)
 /** Get the length of the current token.
  * @param yyscanner The scanner object.
  */
-yy_size_t yyget_leng  (yyscan_t yyscanner)
+int yyget_leng  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyleng;
@@ -2602,7 +2652,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 183 "token.ll"
+#line 234 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
diff --git a/athena/token.ll b/athena/token.ll
index 3c19b09..e722f0a 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -4,8 +4,50 @@
 #include "parser.hh"
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
+
+namespace {
+
+// Value of an integer literal of type T. Literals that do not fit T are
+// rejected instead of being silently truncated.
+template <typename T>
+T ParseInt(const char* text, const athena::location& loc) {
+  errno = 0;
+  unsigned long long value = std::strtoull(text, nullptr, 10);
+  if (errno == ERANGE || value > static_cast<unsigned long long>(std::numeric_limits<T>::max())) {
+    throw athena::Parser::syntax_error(loc, "integer literal out of range");
+  }
+  return static_cast<T>(value);
+}
+
+// The magnitude of the smallest T, which is only a literal when negated.
+template <typename T>
+bool IsMinMagnitude(const char* text) {
+  errno = 0;
+  unsigned long long value = std::strtoull(text, nullptr, 10);
+  return errno != ERANGE && value == static_cast<unsigned long long>(std::numeric_limits<T>::max()) + 1;
+}
+
+float ParseF32(const char* text, const athena::location& loc) {
+  float value = std::strtof(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, "float literal out of range");
+  }
+  return value;
+}
+
+double ParseF64(const char* text, const athena::location& loc) {
+  double value = std::strtod(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, "float literal out of range");
+  }
+  return value;
+}
+
+}  // namespace
 %}
 
 %option prefix="athena_"
@@ -158,21 +200,30 @@ blank [ \t\r]
 
 {id}       return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 
-{int}      return  athena::Parser::make_I32 (std::stoull(yytext), loc);
-{int}"u8"  return  athena::Parser::make_U8 (std::stoull(yytext), loc);
-{int}"u16" return  athena::Parser::make_U16 (std::stoull(yytext), loc);
-{int}"u32" return  athena::Parser::make_U32 (std::stoull(yytext), loc);
-{int}"u64" return  athena::Parser::make_U64 (std::stoull(yytext), loc);
-{int}"i8"  return  athena::Parser::make_I8 (std::stoull(yytext), loc);
-{int}"i16" return  athena::Parser::make_I16 (std::stoull(yytext), loc);
-{int}"i32" return  athena::Parser::make_I32 (std::stoull(yytext), loc);
-{int}"i64" return  athena::Parser::make_I64 (std::stoull(yytext), loc);
-
-{float}       return  athena::Parser::make_F64 (std::stod(yytext), loc);
-{float}"f32"  return  athena::Parser::make_F32 (std::stof(yytext), loc);
-{float}"f64"  return  athena::Parser::make_F64 (std::stod(yytext), loc);
-{int}"f32"    return  athena::Parser::make_F32 (std::stof(yytext), loc);
-{int}"f64"    return  athena::Parser::make_F64 (std::stod(yytext), loc);
+{int}      {
+             if (IsMinMagnitude<int32_t>(yytext)) return  athena::Parser::make_I32_MIN_MAGNITUDE (loc);
+             return  athena::Parser::make_I32 (ParseInt<int32_t>(yytext, loc), loc);
+           }
+{int}"u8"  return  athena::Parser::make_U8 (ParseInt<uint8_t>(yytext, loc), loc);
+{int}"u16" return  athena::Parser::make_U16 (ParseInt<uint16_t>(yytext, loc), loc);
+{int}"u32" return  athena::Parser::make_U32 (ParseInt<uint32_t>(yytext, loc), loc);
+{int}"u64" return  athena::Parser::make_U64 (ParseInt<uint64_t>(yytext, loc), loc);
+{int}"i8"  return  athena::Parser::make_I8 (ParseInt<int8_t>(yytext, loc), loc);
+{int}"i16" return  athena::Parser::make_I16 (ParseInt<int16_t>(yytext, loc), loc);
+{int}"i32" {
+             if (IsMinMagnitude<int32_t>(yytext)) return  athena::Parser::make_I32_MIN_MAGNITUDE (loc);
+             return  athena::Parser::make_I32 (ParseInt<int32_t>(yytext, loc), loc);
+           }
+{int}"i64" {
+             if (IsMinMagnitude<int64_t>(yytext)) return  athena::Parser::make_I64_MIN_MAGNITUDE (loc);
+             return  athena::Parser::make_I64 (ParseInt<int64_t>(yytext, loc), loc);
+           }
+
+{float}       return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
+{float}"f32"  return  athena::Parser::make_F32 (ParseF32(yytext, loc), loc);
+{float}"f64"  return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
+{int}"f32"    return  athena::Parser::make_F32 (ParseF32(yytext, loc), loc);
+{int}"f64"    return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 
 
 \"([^\\\"]|\\.)*\"     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
-- 
2.43.0


From f71162472402e588b0b1e5667fbbef3e8b5d1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 19/23] fix: athena: reject characters outside the language

Bytes that start no token were echoed to stdout and otherwise ignored
(flex's default rule), and the text was cut at its first NUL.
---
 athena/token.cc | 23 ++++++++++++++---------
 athena/token.ll |  4 +++-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index f2fe455..7163fe0 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -549,8 +549,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 63
-#define YY_END_OF_BUFFER 64
+#define YY_NUM_RULES 64
+#define YY_END_OF_BUFFER 65
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -560,7 +560,7 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[146] =
     {   0,
-        0,    0,   64,   63,    1,    2,   15,   63,   26,   29,
+        0,    0,   65,   63,    1,    2,   15,   63,   26,   29,
        63,   24,   25,   22,   21,   38,   20,   63,   23,   47,
        13,   34,   32,   36,   46,   39,   40,   28,   46,   46,
        46,   46,   46,   46,   46,   46,   46,   46,   11,   27,
@@ -1513,16 +1513,21 @@ YY_RULE_SETUP
 #line 231 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
-case YY_STATE_EOF(INITIAL):
+case 63:
+YY_RULE_SETUP
 #line 233 "token.ll"
+throw athena::Parser::syntax_error(loc, "unexpected character");
+	YY_BREAK
+case YY_STATE_EOF(INITIAL):
+#line 235 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
-case 63:
+case 64:
 YY_RULE_SETUP
-#line 234 "token.ll"
+#line 236 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1526 "token.cc"
+#line 1531 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2652,13 +2657,13 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 234 "token.ll"
+#line 236 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yyscan_t scanner;
   yylex_init(&scanner);
-  auto *buffer = yy_scan_string(code.c_str(), scanner);
+  auto *buffer = yy_scan_bytes(code.data(), code.size(), scanner);
   athena::Parser parser(scanner, *this);
   int res = parser();
   yy_delete_buffer(buffer, scanner);
diff --git a/athena/token.ll b/athena/token.ll
index e722f0a..169456e 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -229,13 +229,15 @@ blank [ \t\r]
 \"([^\\\"]|\\.)*\"     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 \'([^\\\']|\\.)*\'     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 
+.          throw athena::Parser::syntax_error(loc, "unexpected character");
+
 <<EOF>>    return  athena::Parser::make_YYEOF (loc);
 %%
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yyscan_t scanner;
   yylex_init(&scanner);
-  auto *buffer = yy_scan_string(code.c_str(), scanner);
+  auto *buffer = yy_scan_bytes(code.data(), code.size(), scanner);
   athena::Parser parser(scanner, *this);
   int res = parser();
   yy_delete_buffer(buffer, scanner);
-- 
2.43.0


From ddb33589c9bd50d17acc7397d334857a13504e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:06 +0000
Subject: [PATCH 20/23] fix: athena: reference to a variable whose definition
 was rejected

In expression mode a reference clones the expression of the variable,
which is incomplete (null) after an undefined variable: 'b = x; c = b;'
crashed.
---
 athena/ast_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 81a9440..36a54ad 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -64,6 +64,11 @@ Status ProgramAstBuilder::BuildPipeline(const std::string& code, std::unique_ptr
 
 std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_name, int begin_line, int begin_col,
                                                          int end_line, int end_col) {
+  if (!custom_error_message_.empty()) {
+    // The program is rejected anyway, and an earlier statement may be
+    // incomplete, so its expression must not be cloned.
+    return nullptr;
+  }
   if (auto it = var2index_.find(var_name); it != var2index_.end()) {
     if (build_mode_ == BuildMode::kPipeline) {
       return std::make_unique<RefNode>(var_name);
-- 
2.43.0


From bbc8a95b1a2d9623213e98938d94f4b20bbac8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 21/23] fix: athena: enforce let in expression mode

'let a = 1; a = 2; a;' was accepted by AthenaExpression although the DSL
rules make reassigning a let variable a compile-time error.
---
 athena/ast_builder.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 36a54ad..f3411c2 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -97,6 +97,23 @@ void ProgramAstBuilder::AddStatement(Statement statement) {
   if (var_name.empty()) {
     return;
   }
+  if (build_mode_ == BuildMode::kExpression && custom_error_message_.empty()) {
+    // Variables are substituted in expression mode, so the validator does not
+    // see the assignments.
+    if (auto it = var2index_.find(var_name); it != var2index_.end()) {
+      std::string message;
+      if (statements_[it->second].is_const) {
+        message = "cannot reassign const variable '" + var_name + "'";
+      } else if (statements_.back().is_const) {
+        message = "cannot redeclare variable '" + var_name + "' with let";
+      }
+      if (!message.empty()) {
+        custom_error_message_ = jitfusion::Diagnostic(jitfusion::Diagnostic::Level::kError, std::move(message),
+                                                      statements_.back().expression->GetLocation())
+                                    .Render();
+      }
+    }
+  }
   var2index_[var_name] = statements_.size() - 1;
 }
 
-- 
2.43.0


From 35ed42d1ca6f08e51b12f0ba605738f36ae2d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 22/23] fix: athena: line and column tracking across multi-line
 strings and comments

---
 athena/token.cc | 174 +++++++++++++++++++++++++-----------------------
 athena/token.ll |  22 +++---
 2 files changed, 104 insertions(+), 92 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 7163fe0..d5baf83 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -751,6 +751,17 @@ static const flex_int16_t yy_chk[277] =
 
 namespace {
 
+// Move the end of loc past the matched text, which may span several lines.
+void Advance(athena::location& loc, const char* text, int len) {
+  for (int i = 0; i < len; ++i) {
+    if (text[i] == '\n') {
+      loc.lines(1);
+    } else {
+      loc.columns(1);
+    }
+  }
+}
+
 // Value of an integer literal of type T. Literals that do not fit T are
 // rejected instead of being silently truncated.
 template <typename T>
@@ -788,8 +799,8 @@ double ParseF64(const char* text, const athena::location& loc) {
 }
 
 }  // namespace
-#line 792 "token.cc"
-#line 57 "token.ll"
+#line 803 "token.cc"
+#line 68 "token.ll"
 #if defined __clang__
 # define CLANG_VERSION (__clang_major__ * 100 + __clang_minor__)
 #endif
@@ -859,13 +870,13 @@ double ParseF64(const char* text, const athena::location& loc) {
 #if defined GCC_VERSION && 900 <= GCC_VERSION
 # pragma GCC diagnostic ignored "-Wuseless-cast"
 #endif
-#line 863 "token.cc"
+#line 874 "token.cc"
 #define YY_NO_INPUT 1
-#line 136 "token.ll"
+#line 147 "token.ll"
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
-#line 868 "token.cc"
-#line 869 "token.cc"
+  # define YY_USER_ACTION  Advance (loc, yytext, yyleng);
+#line 879 "token.cc"
+#line 880 "token.cc"
 
 #define INITIAL 0
 
@@ -1123,16 +1134,16 @@ YY_DECL
 		}
 
 	{
-#line 139 "token.ll"
+#line 150 "token.ll"
 
 
-#line 142 "token.ll"
+#line 153 "token.ll"
   // A handy shortcut to the location held by the Parser.
   athena::location& loc = builder.GetLocation();
   // Code run each time yylex is called.
   loc.step ();
 
-#line 1136 "token.cc"
+#line 1147 "token.cc"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1187,244 +1198,239 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 147 "token.ll"
+#line 158 "token.ll"
 loc.step ();
 	YY_BREAK
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 148 "token.ll"
-loc.lines (yyleng); loc.step ();
+#line 159 "token.ll"
+loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 150 "token.ll"
+#line 161 "token.ll"
 loc.step ();
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 151 "token.ll"
-{
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+#line 162 "token.ll"
+loc.step ();
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 158 "token.ll"
+#line 164 "token.ll"
 return  athena::Parser::make_LET                         (loc);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 159 "token.ll"
+#line 165 "token.ll"
 return  athena::Parser::make_WHEN                        (loc);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 160 "token.ll"
+#line 166 "token.ll"
 return  athena::Parser::make_IF                          (loc);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 161 "token.ll"
+#line 167 "token.ll"
 return  athena::Parser::make_ELIF                        (loc);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 162 "token.ll"
+#line 168 "token.ll"
 return  athena::Parser::make_ELSE                        (loc);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 163 "token.ll"
+#line 169 "token.ll"
 return  athena::Parser::make_SWITCH                      (loc);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 164 "token.ll"
+#line 170 "token.ll"
 return  athena::Parser::make_LBRACE                      (loc);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 165 "token.ll"
+#line 171 "token.ll"
 return  athena::Parser::make_RBRACE                      (loc);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 166 "token.ll"
+#line 172 "token.ll"
 return  athena::Parser::make_SEMI                        (loc);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 168 "token.ll"
+#line 174 "token.ll"
 return  athena::Parser::make_IN                          (loc);      
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 169 "token.ll"
+#line 175 "token.ll"
 return  athena::Parser::make_NOT                         (loc);     
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 170 "token.ll"
+#line 176 "token.ll"
 return  athena::Parser::make_AND                         (loc);     
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 171 "token.ll"
+#line 177 "token.ll"
 return  athena::Parser::make_OR                          (loc);      
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 172 "token.ll"
+#line 178 "token.ll"
 return  athena::Parser::make_TRUE                        (loc);      
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 173 "token.ll"
+#line 179 "token.ll"
 return  athena::Parser::make_FALSE                       (loc);      
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 174 "token.ll"
+#line 180 "token.ll"
 return  athena::Parser::make_MINUS                       (loc);   
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 175 "token.ll"
+#line 181 "token.ll"
 return  athena::Parser::make_PLUS                        (loc);    
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 176 "token.ll"
+#line 182 "token.ll"
 return  athena::Parser::make_STAR                        (loc);    
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 177 "token.ll"
+#line 183 "token.ll"
 return  athena::Parser::make_SLASH                       (loc);   
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 178 "token.ll"
+#line 184 "token.ll"
 return  athena::Parser::make_LPAREN                      (loc);  
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 179 "token.ll"
+#line 185 "token.ll"
 return  athena::Parser::make_RPAREN                      (loc);  
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 180 "token.ll"
+#line 186 "token.ll"
 return  athena::Parser::make_MODOLO                      (loc);  
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 181 "token.ll"
+#line 187 "token.ll"
 return  athena::Parser::make_BITWISE_OR                  (loc);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 182 "token.ll"
+#line 188 "token.ll"
 return  athena::Parser::make_BITWISE_XOR                 (loc);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 183 "token.ll"
+#line 189 "token.ll"
 return  athena::Parser::make_BITWISE_AND                 (loc);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 184 "token.ll"
+#line 190 "token.ll"
 return  athena::Parser::make_BITWISE_NOT                 (loc);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 185 "token.ll"
+#line 191 "token.ll"
 return  athena::Parser::make_EQUAL                       (loc);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 186 "token.ll"
+#line 192 "token.ll"
 return  athena::Parser::make_ASSIGNMENT                  (loc);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 187 "token.ll"
+#line 193 "token.ll"
 return  athena::Parser::make_NOT_EQUAL                   (loc);
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 188 "token.ll"
+#line 194 "token.ll"
 return  athena::Parser::make_LESS_THAN                   (loc);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 189 "token.ll"
+#line 195 "token.ll"
 return  athena::Parser::make_LESS_THAN_OR_EQUAL_TO       (loc);
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 190 "token.ll"
+#line 196 "token.ll"
 return  athena::Parser::make_GREATER_THAN                (loc);
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 191 "token.ll"
+#line 197 "token.ll"
 return  athena::Parser::make_GREATER_THAN_OR_EQUAL_TO    (loc);
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 192 "token.ll"
+#line 198 "token.ll"
 return  athena::Parser::make_COMMA                       (loc);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 193 "token.ll"
+#line 199 "token.ll"
 return  athena::Parser::make_LBRACKET                    (loc);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 194 "token.ll"
+#line 200 "token.ll"
 return  athena::Parser::make_RBRACKET                    (loc);
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 195 "token.ll"
+#line 201 "token.ll"
 return  athena::Parser::make_BITWISE_LEFT                (loc);
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 196 "token.ll"
+#line 202 "token.ll"
 return  athena::Parser::make_BITWISE_RIGHT               (loc);
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 198 "token.ll"
+#line 204 "token.ll"
 return  athena::Parser::make_ENTRY_ARG   (loc);
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 199 "token.ll"
+#line 205 "token.ll"
 return  athena::Parser::make_EXEC_CTX    (loc);
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 200 "token.ll"
+#line 206 "token.ll"
 return  athena::Parser::make_OUTPUT        (loc);
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 202 "token.ll"
+#line 208 "token.ll"
 return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 204 "token.ll"
+#line 210 "token.ll"
 {
              if (IsMinMagnitude<int32_t>(yytext)) return  athena::Parser::make_I32_MIN_MAGNITUDE (loc);
              return  athena::Parser::make_I32 (ParseInt<int32_t>(yytext, loc), loc);
@@ -1432,37 +1438,37 @@ YY_RULE_SETUP
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 208 "token.ll"
+#line 214 "token.ll"
 return  athena::Parser::make_U8 (ParseInt<uint8_t>(yytext, loc), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 209 "token.ll"
+#line 215 "token.ll"
 return  athena::Parser::make_U16 (ParseInt<uint16_t>(yytext, loc), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 210 "token.ll"
+#line 216 "token.ll"
 return  athena::Parser::make_U32 (ParseInt<uint32_t>(yytext, loc), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 211 "token.ll"
+#line 217 "token.ll"
 return  athena::Parser::make_U64 (ParseInt<uint64_t>(yytext, loc), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 212 "token.ll"
+#line 218 "token.ll"
 return  athena::Parser::make_I8 (ParseInt<int8_t>(yytext, loc), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 213 "token.ll"
+#line 219 "token.ll"
 return  athena::Parser::make_I16 (ParseInt<int16_t>(yytext, loc), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 214 "token.ll"
+#line 220 "token.ll"
 {
              if (IsMinMagnitude<int32_t>(yytext)) return  athena::Parser::make_I32_MIN_MAGNITUDE (loc);
              return  athena::Parser::make_I32 (ParseInt<int32_t>(yytext, loc), loc);
@@ -1470,7 +1476,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 218 "token.ll"
+#line 224 "token.ll"
 {
              if (IsMinMagnitude<int64_t>(yytext)) return  athena::Parser::make_I64_MIN_MAGNITUDE (loc);
              return  athena::Parser::make_I64 (ParseInt<int64_t>(yytext, loc), loc);
@@ -1478,56 +1484,56 @@ YY_RULE_SETUP
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 223 "token.ll"
+#line 229 "token.ll"
 return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 224 "token.ll"
+#line 230 "token.ll"
 return  athena::Parser::make_F32 (ParseF32(yytext, loc), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 225 "token.ll"
+#line 231 "token.ll"
 return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 226 "token.ll"
+#line 232 "token.ll"
 return  athena::Parser::make_F32 (ParseF32(yytext, loc), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 227 "token.ll"
+#line 233 "token.ll"
 return  athena::Parser::make_F64 (ParseF64(yytext, loc), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
 YY_RULE_SETUP
-#line 230 "token.ll"
+#line 236 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 62:
 /* rule 62 can match eol */
 YY_RULE_SETUP
-#line 231 "token.ll"
+#line 237 "token.ll"
 return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 233 "token.ll"
+#line 239 "token.ll"
 throw athena::Parser::syntax_error(loc, "unexpected character");
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 235 "token.ll"
+#line 241 "token.ll"
 return  athena::Parser::make_YYEOF (loc);
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 236 "token.ll"
+#line 242 "token.ll"
 ECHO;
 	YY_BREAK
-#line 1531 "token.cc"
+#line 1537 "token.cc"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2657,7 +2663,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 236 "token.ll"
+#line 242 "token.ll"
 
 
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
diff --git a/athena/token.ll b/athena/token.ll
index 169456e..c10510e 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -11,6 +11,17 @@
 
 namespace {
 
+// Move the end of loc past the matched text, which may span several lines.
+void Advance(athena::location& loc, const char* text, int len) {
+  for (int i = 0; i < len; ++i) {
+    if (text[i] == '\n') {
+      loc.lines(1);
+    } else {
+      loc.columns(1);
+    }
+  }
+}
+
 // Value of an integer literal of type T. Literals that do not fit T are
 // rejected instead of being silently truncated.
 template <typename T>
@@ -134,7 +145,7 @@ blank [ \t\r]
 
 %{
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  # define YY_USER_ACTION  Advance (loc, yytext, yyleng);
 %}
 %%
 %{
@@ -144,15 +155,10 @@ blank [ \t\r]
   loc.step ();
 %}
 {blank}+   loc.step ();
-\n+        loc.lines (yyleng); loc.step ();
+\n+        loc.step ();
 
 "//"[^\n]*                    loc.step ();
-"/*"([^*]|\*+[^*/])*\*+"/"   {
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+"/*"([^*]|\*+[^*/])*\*+"/"   loc.step ();
 
 "let"         return  athena::Parser::make_LET                         (loc);
 "when"        return  athena::Parser::make_WHEN                        (loc);
-- 
2.43.0


From ccb0c9680f8ea53cb0e4b45a42841e935c14754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 23/23] fix: athena: report syntax errors as diagnostics
 instead of prefixing the whole source text

---
 athena/parser.cc | 235 ++++++++++++++++++++++++-----------------------
 athena/parser.hh |  11 ++-
 athena/parser.yy |   8 +-
 3 files changed, 129 insertions(+), 125 deletions(-)

diff --git a/athena/parser.cc b/athena/parser.cc
index f9216a2..46c28e0 100644
--- a/athena/parser.cc
+++ b/athena/parser.cc
@@ -1117,7 +1117,7 @@ namespace athena {
           switch (yyn)
             {
   case 2: // program: statement
-#line 188 "parser.yy"
+#line 189 "parser.yy"
             { 
     builder.AddStatement(std::move(yystack_[0].value.as < Statement > ()));
     yylhs.value.as < void* > () = nullptr;
@@ -1126,7 +1126,7 @@ namespace athena {
     break;
 
   case 3: // program: program statement
-#line 192 "parser.yy"
+#line 193 "parser.yy"
                     {
   builder.AddStatement(std::move(yystack_[0].value.as < Statement > ()));
   yylhs.value.as < void* > () = nullptr;
@@ -1135,61 +1135,61 @@ namespace athena {
     break;
 
   case 4: // statement: "identifier" "=" expr ";"
-#line 198 "parser.yy"
+#line 199 "parser.yy"
                           { yylhs.value.as < Statement > () = Statement(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ())); }
 #line 1141 "parser.cc"
     break;
 
   case 5: // statement: "let" "identifier" "=" expr ";"
-#line 199 "parser.yy"
+#line 200 "parser.yy"
                                 { yylhs.value.as < Statement > () = Statement(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), true); }
 #line 1147 "parser.cc"
     break;
 
   case 6: // statement: expr ";"
-#line 200 "parser.yy"
+#line 201 "parser.yy"
            { yylhs.value.as < Statement > () = Statement(std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ())); }
 #line 1153 "parser.cc"
     break;
 
   case 7: // statement: when_block
-#line 201 "parser.yy"
+#line 202 "parser.yy"
              { yylhs.value.as < Statement > () = Statement(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())); }
 #line 1159 "parser.cc"
     break;
 
   case 8: // expr: term
-#line 203 "parser.yy"
+#line 204 "parser.yy"
            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ());}
 #line 1165 "parser.cc"
     break;
 
   case 9: // term: literal
-#line 207 "parser.yy"
+#line 208 "parser.yy"
           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1171 "parser.cc"
     break;
 
   case 10: // term: function
-#line 208 "parser.yy"
+#line 209 "parser.yy"
            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1177 "parser.cc"
     break;
 
   case 11: // term: boolean
-#line 209 "parser.yy"
+#line 210 "parser.yy"
           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1183 "parser.cc"
     break;
 
   case 12: // term: "(" term ")"
-#line 210 "parser.yy"
+#line 211 "parser.yy"
                { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1189 "parser.cc"
     break;
 
   case 13: // term: "identifier"
-#line 211 "parser.yy"
+#line 212 "parser.yy"
              { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(builder.MakeRefNode(std::move(yystack_[0].value.as < std::string > ()),
                                                         static_cast<int>(yylhs.location.begin.line), static_cast<int>(yylhs.location.begin.column),
                                                         static_cast<int>(yylhs.location.end.line), static_cast<int>(yylhs.location.end.column)), yylhs.location, builder.GetSourceCode()); }
@@ -1197,181 +1197,181 @@ namespace athena {
     break;
 
   case 14: // term: "entry_arg"
-#line 214 "parser.yy"
+#line 215 "parser.yy"
             { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::unique_ptr<jitfusion::EntryArgumentNode>(new jitfusion::EntryArgumentNode), yylhs.location, builder.GetSourceCode()); }
 #line 1203 "parser.cc"
     break;
 
   case 15: // term: "exec_ctx"
-#line 215 "parser.yy"
+#line 216 "parser.yy"
            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::unique_ptr<jitfusion::ExecContextNode>(new jitfusion::ExecContextNode), yylhs.location, builder.GetSourceCode()); }
 #line 1209 "parser.cc"
     break;
 
   case 16: // term: "output"
-#line 216 "parser.yy"
+#line 217 "parser.yy"
          { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::unique_ptr<jitfusion::OutputNode>(new jitfusion::OutputNode), yylhs.location, builder.GetSourceCode()); }
 #line 1215 "parser.cc"
     break;
 
   case 17: // literal: "int8"
-#line 220 "parser.yy"
+#line 221 "parser.yy"
      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int8_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1221 "parser.cc"
     break;
 
   case 18: // literal: "int16"
-#line 221 "parser.yy"
+#line 222 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int16_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1227 "parser.cc"
     break;
 
   case 19: // literal: "int32"
-#line 222 "parser.yy"
+#line 223 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int32_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1233 "parser.cc"
     break;
 
   case 20: // literal: "int64"
-#line 223 "parser.yy"
+#line 224 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < int64_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1239 "parser.cc"
     break;
 
   case 21: // literal: "uint8"
-#line 224 "parser.yy"
+#line 225 "parser.yy"
      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint8_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1245 "parser.cc"
     break;
 
   case 22: // literal: "uint16"
-#line 225 "parser.yy"
+#line 226 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint16_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1251 "parser.cc"
     break;
 
   case 23: // literal: "uint32"
-#line 226 "parser.yy"
+#line 227 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint32_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1257 "parser.cc"
     break;
 
   case 24: // literal: "uint64"
-#line 227 "parser.yy"
+#line 228 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < uint64_t > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1263 "parser.cc"
     break;
 
   case 25: // literal: "float"
-#line 228 "parser.yy"
+#line 229 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < float > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1269 "parser.cc"
     break;
 
   case 26: // literal: "double"
-#line 229 "parser.yy"
+#line 230 "parser.yy"
       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < double > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1275 "parser.cc"
     break;
 
   case 27: // literal: "string"
-#line 230 "parser.yy"
+#line 231 "parser.yy"
          { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(yystack_[0].value.as < std::string > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1281 "parser.cc"
     break;
 
   case 28: // literal: list
-#line 231 "parser.yy"
+#line 232 "parser.yy"
        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1287 "parser.cc"
     break;
 
   case 29: // literal: "true"
-#line 232 "parser.yy"
+#line 233 "parser.yy"
          { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(uint8_t(1)), yylhs.location, builder.GetSourceCode()); }
 #line 1293 "parser.cc"
     break;
 
   case 30: // literal: "false"
-#line 233 "parser.yy"
+#line 234 "parser.yy"
           { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(uint8_t(0)), yylhs.location, builder.GetSourceCode()); }
 #line 1299 "parser.cc"
     break;
 
   case 31: // list: "[" i8_list "]"
-#line 237 "parser.yy"
+#line 238 "parser.yy"
                   { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int8_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1305 "parser.cc"
     break;
 
   case 32: // list: "[" i16_list "]"
-#line 238 "parser.yy"
+#line 239 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int16_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1311 "parser.cc"
     break;
 
   case 33: // list: "[" i32_list "]"
-#line 239 "parser.yy"
+#line 240 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int32_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1317 "parser.cc"
     break;
 
   case 34: // list: "[" i64_list "]"
-#line 240 "parser.yy"
+#line 241 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<int64_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1323 "parser.cc"
     break;
 
   case 35: // list: "[" u8_list "]"
-#line 241 "parser.yy"
+#line 242 "parser.yy"
                   { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint8_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1329 "parser.cc"
     break;
 
   case 36: // list: "[" u16_list "]"
-#line 242 "parser.yy"
+#line 243 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint16_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1335 "parser.cc"
     break;
 
   case 37: // list: "[" u32_list "]"
-#line 243 "parser.yy"
+#line 244 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint32_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1341 "parser.cc"
     break;
 
   case 38: // list: "[" u64_list "]"
-#line 244 "parser.yy"
+#line 245 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<uint64_t> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1347 "parser.cc"
     break;
 
   case 39: // list: "[" f32_list "]"
-#line 245 "parser.yy"
+#line 246 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<float> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1353 "parser.cc"
     break;
 
   case 40: // list: "[" f64_list "]"
-#line 246 "parser.yy"
+#line 247 "parser.yy"
                    { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<double> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1359 "parser.cc"
     break;
 
   case 41: // list: "[" string_list "]"
-#line 247 "parser.yy"
+#line 248 "parser.yy"
                       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantListValueNode>(yystack_[1].value.as < std::vector<std::string> > ()), yylhs.location, builder.GetSourceCode()); }
 #line 1365 "parser.cc"
     break;
 
   case 42: // i8_list: "int8"
-#line 251 "parser.yy"
+#line 252 "parser.yy"
      { yylhs.value.as < std::vector<int8_t> > () = std::vector<int8_t>{yystack_[0].value.as < int8_t > ()}; }
 #line 1371 "parser.cc"
     break;
 
   case 43: // i8_list: i8_list "," "int8"
-#line 252 "parser.yy"
+#line 253 "parser.yy"
                  {
   yystack_[2].value.as < std::vector<int8_t> > ().emplace_back(std::move(yystack_[0].value.as < int8_t > ()));
   yylhs.value.as < std::vector<int8_t> > () = std::move(yystack_[2].value.as < std::vector<int8_t> > ());
@@ -1380,13 +1380,13 @@ namespace athena {
     break;
 
   case 44: // i16_list: "int16"
-#line 259 "parser.yy"
+#line 260 "parser.yy"
       { yylhs.value.as < std::vector<int16_t> > () = std::vector<int16_t>{yystack_[0].value.as < int16_t > ()}; }
 #line 1386 "parser.cc"
     break;
 
   case 45: // i16_list: i16_list "," "int16"
-#line 260 "parser.yy"
+#line 261 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<int16_t> > ().emplace_back(std::move(yystack_[0].value.as < int16_t > ()));
   yylhs.value.as < std::vector<int16_t> > () = std::move(yystack_[2].value.as < std::vector<int16_t> > ());
@@ -1395,13 +1395,13 @@ namespace athena {
     break;
 
   case 46: // i32_list: "int32"
-#line 267 "parser.yy"
+#line 268 "parser.yy"
       { yylhs.value.as < std::vector<int32_t> > () = std::vector<int32_t>{yystack_[0].value.as < int32_t > ()}; }
 #line 1401 "parser.cc"
     break;
 
   case 47: // i32_list: i32_list "," "int32"
-#line 268 "parser.yy"
+#line 269 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<int32_t> > ().emplace_back(std::move(yystack_[0].value.as < int32_t > ()));
   yylhs.value.as < std::vector<int32_t> > () = std::move(yystack_[2].value.as < std::vector<int32_t> > ());
@@ -1410,13 +1410,13 @@ namespace athena {
     break;
 
   case 48: // i64_list: "int64"
-#line 275 "parser.yy"
+#line 276 "parser.yy"
       { yylhs.value.as < std::vector<int64_t> > () = std::vector<int64_t>{yystack_[0].value.as < int64_t > ()}; }
 #line 1416 "parser.cc"
     break;
 
   case 49: // i64_list: i64_list "," "int64"
-#line 276 "parser.yy"
+#line 277 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<int64_t> > ().emplace_back(std::move(yystack_[0].value.as < int64_t > ()));
   yylhs.value.as < std::vector<int64_t> > () = std::move(yystack_[2].value.as < std::vector<int64_t> > ());
@@ -1425,13 +1425,13 @@ namespace athena {
     break;
 
   case 50: // u8_list: "uint8"
-#line 283 "parser.yy"
+#line 284 "parser.yy"
      { yylhs.value.as < std::vector<uint8_t> > () = std::vector<uint8_t>{yystack_[0].value.as < uint8_t > ()}; }
 #line 1431 "parser.cc"
     break;
 
   case 51: // u8_list: u8_list "," "uint8"
-#line 284 "parser.yy"
+#line 285 "parser.yy"
                  {
   yystack_[2].value.as < std::vector<uint8_t> > ().emplace_back(std::move(yystack_[0].value.as < uint8_t > ()));
   yylhs.value.as < std::vector<uint8_t> > () = std::move(yystack_[2].value.as < std::vector<uint8_t> > ());
@@ -1440,13 +1440,13 @@ namespace athena {
     break;
 
   case 52: // u16_list: "uint16"
-#line 291 "parser.yy"
+#line 292 "parser.yy"
       { yylhs.value.as < std::vector<uint16_t> > () = std::vector<uint16_t>{yystack_[0].value.as < uint16_t > ()}; }
 #line 1446 "parser.cc"
     break;
 
   case 53: // u16_list: u16_list "," "uint16"
-#line 292 "parser.yy"
+#line 293 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<uint16_t> > ().emplace_back(std::move(yystack_[0].value.as < uint16_t > ()));
   yylhs.value.as < std::vector<uint16_t> > () = std::move(yystack_[2].value.as < std::vector<uint16_t> > ());
@@ -1455,13 +1455,13 @@ namespace athena {
     break;
 
   case 54: // u32_list: "uint32"
-#line 299 "parser.yy"
+#line 300 "parser.yy"
       { yylhs.value.as < std::vector<uint32_t> > () = std::vector<uint32_t>{yystack_[0].value.as < uint32_t > ()}; }
 #line 1461 "parser.cc"
     break;
 
   case 55: // u32_list: u32_list "," "uint32"
-#line 300 "parser.yy"
+#line 301 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<uint32_t> > ().emplace_back(std::move(yystack_[0].value.as < uint32_t > ()));
   yylhs.value.as < std::vector<uint32_t> > () = std::move(yystack_[2].value.as < std::vector<uint32_t> > ());
@@ -1470,13 +1470,13 @@ namespace athena {
     break;
 
   case 56: // u64_list: "uint64"
-#line 307 "parser.yy"
+#line 308 "parser.yy"
       { yylhs.value.as < std::vector<uint64_t> > () = std::vector<uint64_t>{yystack_[0].value.as < uint64_t > ()}; }
 #line 1476 "parser.cc"
     break;
 
   case 57: // u64_list: u64_list "," "uint64"
-#line 308 "parser.yy"
+#line 309 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<uint64_t> > ().emplace_back(std::move(yystack_[0].value.as < uint64_t > ()));
   yylhs.value.as < std::vector<uint64_t> > () = std::move(yystack_[2].value.as < std::vector<uint64_t> > ());
@@ -1485,13 +1485,13 @@ namespace athena {
     break;
 
   case 58: // f32_list: "float"
-#line 315 "parser.yy"
+#line 316 "parser.yy"
       { yylhs.value.as < std::vector<float> > () = std::vector<float>{yystack_[0].value.as < float > ()}; }
 #line 1491 "parser.cc"
     break;
 
   case 59: // f32_list: f32_list "," "float"
-#line 316 "parser.yy"
+#line 317 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<float> > ().emplace_back(std::move(yystack_[0].value.as < float > ()));
   yylhs.value.as < std::vector<float> > () = std::move(yystack_[2].value.as < std::vector<float> > ());
@@ -1500,13 +1500,13 @@ namespace athena {
     break;
 
   case 60: // f64_list: "double"
-#line 323 "parser.yy"
+#line 324 "parser.yy"
       { yylhs.value.as < std::vector<double> > () = std::vector<double>{yystack_[0].value.as < double > ()}; }
 #line 1506 "parser.cc"
     break;
 
   case 61: // f64_list: f64_list "," "double"
-#line 324 "parser.yy"
+#line 325 "parser.yy"
                    {
   yystack_[2].value.as < std::vector<double> > ().emplace_back(std::move(yystack_[0].value.as < double > ()));
   yylhs.value.as < std::vector<double> > () = std::move(yystack_[2].value.as < std::vector<double> > ());
@@ -1515,13 +1515,13 @@ namespace athena {
     break;
 
   case 62: // string_list: "string"
-#line 331 "parser.yy"
+#line 332 "parser.yy"
          { yylhs.value.as < std::vector<std::string> > () = std::vector<std::string>{yystack_[0].value.as < std::string > ()}; }
 #line 1521 "parser.cc"
     break;
 
   case 63: // string_list: string_list "," "string"
-#line 332 "parser.yy"
+#line 333 "parser.yy"
                          {
   yystack_[2].value.as < std::vector<std::string> > ().emplace_back(std::move(yystack_[0].value.as < std::string > ()));
   yylhs.value.as < std::vector<std::string> > () = std::move(yystack_[2].value.as < std::vector<std::string> > ());
@@ -1530,169 +1530,169 @@ namespace athena {
     break;
 
   case 64: // function: infix_function
-#line 339 "parser.yy"
+#line 340 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1536 "parser.cc"
     break;
 
   case 65: // function: named_function
-#line 340 "parser.yy"
+#line 341 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1542 "parser.cc"
     break;
 
   case 66: // infix_function: "-" term
-#line 345 "parser.yy"
+#line 346 "parser.yy"
                      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kMinus, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1548 "parser.cc"
     break;
 
   case 67: // infix_function: "-" "2147483648"
-#line 346 "parser.yy"
+#line 347 "parser.yy"
                         { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(std::numeric_limits<int32_t>::min()), yylhs.location, builder.GetSourceCode()); }
 #line 1554 "parser.cc"
     break;
 
   case 68: // infix_function: "-" "9223372036854775808"
-#line 347 "parser.yy"
+#line 348 "parser.yy"
                         { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::ConstantValueNode>(std::numeric_limits<int64_t>::min()), yylhs.location, builder.GetSourceCode()); }
 #line 1560 "parser.cc"
     break;
 
   case 69: // infix_function: "not" term
-#line 348 "parser.yy"
+#line 349 "parser.yy"
                        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kNot, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1566 "parser.cc"
     break;
 
   case 70: // infix_function: "+" term
-#line 349 "parser.yy"
+#line 350 "parser.yy"
                      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kPlus, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1572 "parser.cc"
     break;
 
   case 71: // infix_function: "~" term
-#line 350 "parser.yy"
+#line 351 "parser.yy"
                      { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::UnaryOPNode>(jitfusion::UnaryOPType::kBitwiseNot, std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1578 "parser.cc"
     break;
 
   case 72: // infix_function: term "+" term
-#line 351 "parser.yy"
+#line 352 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kAdd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1584 "parser.cc"
     break;
 
   case 73: // infix_function: term "-" term
-#line 352 "parser.yy"
+#line 353 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kSub, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1590 "parser.cc"
     break;
 
   case 74: // infix_function: term "*" term
-#line 353 "parser.yy"
+#line 354 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kMul, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1596 "parser.cc"
     break;
 
   case 75: // infix_function: term "/" term
-#line 354 "parser.yy"
+#line 355 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kDiv, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1602 "parser.cc"
     break;
 
   case 76: // infix_function: term "%" term
-#line 355 "parser.yy"
+#line 356 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kMod, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1608 "parser.cc"
     break;
 
   case 77: // infix_function: term "&" term
-#line 356 "parser.yy"
+#line 357 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseAnd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1614 "parser.cc"
     break;
 
   case 78: // infix_function: term "|" term
-#line 357 "parser.yy"
+#line 358 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseOr, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1620 "parser.cc"
     break;
 
   case 79: // infix_function: term "^" term
-#line 358 "parser.yy"
+#line 359 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseXor, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1626 "parser.cc"
     break;
 
   case 80: // infix_function: term "==" term
-#line 359 "parser.yy"
+#line 360 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1632 "parser.cc"
     break;
 
   case 81: // infix_function: term "!=" term
-#line 360 "parser.yy"
+#line 361 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kNotEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1638 "parser.cc"
     break;
 
   case 82: // infix_function: term ">" term
-#line 361 "parser.yy"
+#line 362 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLarge, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1644 "parser.cc"
     break;
 
   case 83: // infix_function: term ">=" term
-#line 362 "parser.yy"
+#line 363 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLargeEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1650 "parser.cc"
     break;
 
   case 84: // infix_function: term "<" term
-#line 363 "parser.yy"
+#line 364 "parser.yy"
                 { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLess, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1656 "parser.cc"
     break;
 
   case 85: // infix_function: term "<=" term
-#line 364 "parser.yy"
+#line 365 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kLessEqual, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1662 "parser.cc"
     break;
 
   case 86: // infix_function: term "<<" term
-#line 365 "parser.yy"
+#line 366 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseShiftLeft, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1668 "parser.cc"
     break;
 
   case 87: // infix_function: term ">>" term
-#line 366 "parser.yy"
+#line 367 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kBitwiseShiftRight, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1674 "parser.cc"
     break;
 
   case 88: // named_function: "if" "(" args ")"
-#line 370 "parser.yy"
+#line 371 "parser.yy"
                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::IfNode>(std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1680 "parser.cc"
     break;
 
   case 89: // named_function: "identifier" "(" args ")"
-#line 371 "parser.yy"
+#line 372 "parser.yy"
                            { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::FunctionNode>(std::move(yystack_[3].value.as < std::string > ()), std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1686 "parser.cc"
     break;
 
   case 90: // named_function: "identifier" "(" ")"
-#line 372 "parser.yy"
+#line 373 "parser.yy"
                       { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::FunctionNode>(std::move(yystack_[2].value.as < std::string > ()), std::vector<std::unique_ptr<ExecNode>>{}), yylhs.location, builder.GetSourceCode());}
 #line 1692 "parser.cc"
     break;
 
   case 91: // named_function: term "in" term
-#line 373 "parser.yy"
+#line 374 "parser.yy"
                  {
     auto node = std::make_unique<jitfusion::FunctionNode>("in", std::vector<std::unique_ptr<jitfusion::ExecNode>>());
     node->AppendArgs(std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
@@ -1703,13 +1703,13 @@ namespace athena {
     break;
 
   case 92: // named_function: "switch" "(" args ")"
-#line 379 "parser.yy"
+#line 380 "parser.yy"
                         { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::SwitchNode>(std::move(yystack_[1].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1709 "parser.cc"
     break;
 
   case 93: // when_block: "when" expr "{" block "}" elif_chain
-#line 383 "parser.yy"
+#line 384 "parser.yy"
                                        {
     if (builder.IsExpressionMode()) {
       error(yystack_[5].location, "when block is not allowed in expression mode");
@@ -1726,13 +1726,13 @@ namespace athena {
     break;
 
   case 94: // elif_chain: %empty
-#line 398 "parser.yy"
+#line 399 "parser.yy"
          { yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::vector<std::unique_ptr<jitfusion::ExecNode>>{}; }
 #line 1732 "parser.cc"
     break;
 
   case 95: // elif_chain: elif_chain "elif" expr "{" block "}"
-#line 399 "parser.yy"
+#line 400 "parser.yy"
                                        {
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::move(yystack_[5].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ());
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[3].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
@@ -1742,7 +1742,7 @@ namespace athena {
     break;
 
   case 96: // elif_chain: elif_chain "else" "{" block "}"
-#line 404 "parser.yy"
+#line 405 "parser.yy"
                                   {
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::move(yystack_[4].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ());
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[1].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
@@ -1751,19 +1751,19 @@ namespace athena {
     break;
 
   case 97: // $@1: %empty
-#line 411 "parser.yy"
+#line 412 "parser.yy"
   { builder.EnterBlock(); }
 #line 1757 "parser.cc"
     break;
 
   case 98: // block: $@1 program
-#line 411 "parser.yy"
+#line 412 "parser.yy"
                                     { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = builder.LeaveBlock(); }
 #line 1763 "parser.cc"
     break;
 
   case 99: // args: arg
-#line 415 "parser.yy"
+#line 416 "parser.yy"
       {
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::vector<std::unique_ptr<jitfusion::ExecNode>>{};
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
@@ -1772,7 +1772,7 @@ namespace athena {
     break;
 
   case 100: // args: args "," arg
-#line 419 "parser.yy"
+#line 420 "parser.yy"
                {
     yystack_[2].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ().emplace_back(std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()));
     yylhs.value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > () = std::move(yystack_[2].value.as < std::vector<std::unique_ptr<jitfusion::ExecNode>> > ());
@@ -1781,19 +1781,19 @@ namespace athena {
     break;
 
   case 101: // arg: term
-#line 426 "parser.yy"
+#line 427 "parser.yy"
        { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ()); }
 #line 1787 "parser.cc"
     break;
 
   case 102: // boolean: term "and" term
-#line 430 "parser.yy"
+#line 431 "parser.yy"
                   { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kAnd, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1793 "parser.cc"
     break;
 
   case 103: // boolean: term "or" term
-#line 431 "parser.yy"
+#line 432 "parser.yy"
                  { yylhs.value.as < std::unique_ptr<jitfusion::ExecNode> > () = WithLoc(std::make_unique<jitfusion::BinaryOPNode>(jitfusion::BinaryOPType::kOr, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location, builder.GetSourceCode()); }
 #line 1799 "parser.cc"
     break;
@@ -2506,17 +2506,17 @@ namespace athena {
   const short
   Parser::yyrline_[] =
   {
-       0,   188,   188,   192,   198,   199,   200,   201,   203,   207,
-     208,   209,   210,   211,   214,   215,   216,   220,   221,   222,
-     223,   224,   225,   226,   227,   228,   229,   230,   231,   232,
-     233,   237,   238,   239,   240,   241,   242,   243,   244,   245,
-     246,   247,   251,   252,   259,   260,   267,   268,   275,   276,
-     283,   284,   291,   292,   299,   300,   307,   308,   315,   316,
-     323,   324,   331,   332,   339,   340,   345,   346,   347,   348,
-     349,   350,   351,   352,   353,   354,   355,   356,   357,   358,
-     359,   360,   361,   362,   363,   364,   365,   366,   370,   371,
-     372,   373,   379,   383,   398,   399,   404,   411,   411,   415,
-     419,   426,   430,   431
+       0,   189,   189,   193,   199,   200,   201,   202,   204,   208,
+     209,   210,   211,   212,   215,   216,   217,   221,   222,   223,
+     224,   225,   226,   227,   228,   229,   230,   231,   232,   233,
+     234,   238,   239,   240,   241,   242,   243,   244,   245,   246,
+     247,   248,   252,   253,   260,   261,   268,   269,   276,   277,
+     284,   285,   292,   293,   300,   301,   308,   309,   316,   317,
+     324,   325,   332,   333,   340,   341,   346,   347,   348,   349,
+     350,   351,   352,   353,   354,   355,   356,   357,   358,   359,
+     360,   361,   362,   363,   364,   365,   366,   367,   371,   372,
+     373,   374,   380,   384,   399,   400,   405,   412,   412,   416,
+     420,   427,   431,   432
   };
 
   void
@@ -2551,11 +2551,12 @@ namespace athena {
 } // athena
 #line 2553 "parser.cc"
 
-#line 433 "parser.yy"
+#line 434 "parser.yy"
 
 
 void athena::Parser::error(const location_type &l, const std::string &m) {
-  std::stringstream sstream;
-  sstream << l << ": " << m;
-  builder.parser_error_message_ = sstream.str();
+  jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, m,
+                             {builder.GetSourceCode(), static_cast<int>(l.begin.line), static_cast<int>(l.begin.column),
+                              static_cast<int>(l.end.line), static_cast<int>(l.end.column)});
+  builder.parser_error_message_ = diag.Render();
 }
diff --git a/athena/parser.hh b/athena/parser.hh
index 22c30fa..297115d 100644
--- a/athena/parser.hh
+++ b/athena/parser.hh
@@ -53,6 +53,7 @@
   #include <utility>
   #include "exec_engine.h"
   #include "ast_builder.h"
+  #include "diagnostic.h"
 
   typedef void* yyscan_t;
   #ifndef yylex
@@ -77,7 +78,7 @@
   }
   }
 
-#line 81 "parser.hh"
+#line 82 "parser.hh"
 
 # include <cassert>
 # include <cstdlib> // std::abort
@@ -218,7 +219,7 @@
 
 #line 10 "parser.yy"
 namespace athena {
-#line 222 "parser.hh"
+#line 223 "parser.hh"
 
 
 
@@ -3288,18 +3289,18 @@ switch (yykind)
 
 #line 10 "parser.yy"
 } // athena
-#line 3292 "parser.hh"
+#line 3293 "parser.hh"
 
 
 // "%code provides" blocks.
-#line 48 "parser.yy"
+#line 49 "parser.yy"
 
 // Give Flex the prototype of yylex we want ...
 #define YY_DECL athena::Parser::symbol_type athena_yylex(yyscan_t yyscanner, athena::ProgramAstBuilder &builder)
 // ... and declare it for the parser's sake.
 YY_DECL;
 
-#line 3303 "parser.hh"
+#line 3304 "parser.hh"
 
 
 #endif // !YY_YY_PARSER_HH_INCLUDED
diff --git a/athena/parser.yy b/athena/parser.yy
index c4ae48c..ad04c13 100644
--- a/athena/parser.yy
+++ b/athena/parser.yy
@@ -17,6 +17,7 @@
   #include <utility>
   #include "exec_engine.h"
   #include "ast_builder.h"
+  #include "diagnostic.h"
 
   typedef void* yyscan_t;
   #ifndef yylex
@@ -433,7 +434,8 @@ boolean:
 %%
 
 void athena::Parser::error(const location_type &l, const std::string &m) {
-  std::stringstream sstream;
-  sstream << l << ": " << m;
-  builder.parser_error_message_ = sstream.str();
+  jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, m,
+                             {builder.GetSourceCode(), static_cast<int>(l.begin.line), static_cast<int>(l.begin.column),
+                              static_cast<int>(l.end.line), static_cast<int>(l.end.column)});
+  builder.parser_error_message_ = diag.Render();
 }
\ No newline at end of file
-- 
2.43.0

