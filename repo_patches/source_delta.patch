From e332c8206f925d78478200615893f336b0775dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:28 +0000
Subject: [PATCH 01/35] fix: INT_MIN divided by -1 no longer traps in the
 virtual machine

---
 source/lib_vm/thread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..5eb5853 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -196,7 +196,9 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      // INT_MIN / -1 traps on some targets so let it wrap instead
+      const int32_t o = (r->v == -1) ? int32_t(0u - uint32_t(l->v))
+                                     : l->v / r->v;
       stack_.push_int(o);
     }
     return;
@@ -223,7 +225,8 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      // INT_MIN % -1 traps on some targets
+      const int32_t o = (r->v == -1) ? 0 : l->v % r->v;
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From 8226d846c53b4ee34f62e306c300f7678fa55489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:00 +0000
Subject: [PATCH 02/35] fix: string concatenation no longer truncates operands
 to 15 characters or asserts on arrays

---
 source/lib_vm/thread.cpp | 49 ++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 5eb5853..a9fc17d 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,25 +32,28 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+bool to_string(std::string &out, const value_t *val) {
+  char buf[64] = {0};
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
+    snprintf(buf, sizeof(buf), "%f", val->f);
+    out = buf;
     return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
+    snprintf(buf, sizeof(buf), "%i", val->integer());
+    out = buf;
     return true;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.assign(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
+    out = "none";
     return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    snprintf(buf, sizeof(buf), "function@%d", val->v);
+    out = buf;
     return true;
   default:
-    assert(false);
     return false;
   }
 }
@@ -108,31 +111,13 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
-    const int32_t len = l->strlen() + rsize;
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
-  }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
-    const int32_t len = lsize + r->strlen();
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
-    memcpy(dst + lsize, r->string(), r->strlen());
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
+  // string concatenation
+  if (l->is_a<val_type_string>() || r->is_a<val_type_string>()) {
+    std::string lstr, rstr;
+    if (to_string(lstr, l) && to_string(rstr, r)) {
+      stack_.push_string(lstr + rstr);
+      return;
+    }
   }
   // try a user handler
   if (vm_.handlers.on_add) {
-- 
2.43.0


From 4fb2f58850b2fd8aab3cb25f60188981c793aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:25 +0000
Subject: [PATCH 03/35] fix: indirect calls of none, of unresolved syscalls or
 with a wrong argument count raise errors

---
 source/lib_common/program.cpp         |  5 ++++-
 source/lib_common/program.h           |  2 ++
 source/lib_compiler/pre_codegen.cpp   |  2 +-
 source/lib_compiler/program_builder.h |  4 ++--
 source/lib_vm/thread.cpp              | 22 +++++++++++++++++++---
 5 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..5c7ccc8 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -138,6 +138,7 @@ bool program_t::serial_save(const char *path) {
   emit(fd, int32_t(syscalls_.size()));
   for (const auto &s : syscalls_) {
     emit(fd, s.name_);
+    emit(fd, s.num_args_);
   }
   // emit functions
   emit(fd, int32_t(functions_.size()));
@@ -184,7 +185,9 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    syscalls_.back().num_args_ = -1;
+    TRY(consume(fd, syscalls_.back().name_));
+    TRY(consume(fd, syscalls_.back().num_args_));
   }
   // read functions
   int32_t num_functions = 0;
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 1a2b2e7..5aee9aa 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -23,6 +23,8 @@ struct program_t {
   struct syscall_entry_t {
     std::string name_;
     nano_syscall_t call_;
+    // number of arguments or -1 for varargs
+    int32_t num_args_;
   };
 
   // access the raw opcodes
diff --git a/source/lib_compiler/pre_codegen.cpp b/source/lib_compiler/pre_codegen.cpp
index 4e94724..b958d95 100644
--- a/source/lib_compiler/pre_codegen.cpp
+++ b/source/lib_compiler/pre_codegen.cpp
@@ -126,7 +126,7 @@ struct pregen_functions_t: public ast_visitor_t {
     if (n->is_syscall) {
       // add syscall to the syscall table
       program_builder_t builder(nano_.program_);
-      builder.add_syscall(n->name);
+      builder.add_syscall(n->name, n->is_varargs ? -1 : int32_t(n->args.size()));
       return;
     }
 
diff --git a/source/lib_compiler/program_builder.h b/source/lib_compiler/program_builder.h
index 657d1b4..7db465f 100644
--- a/source/lib_compiler/program_builder.h
+++ b/source/lib_compiler/program_builder.h
@@ -46,7 +46,7 @@ struct program_builder_t {
     *d = value;
   }
 
-  int32_t add_syscall(const std::string &name) {
+  int32_t add_syscall(const std::string &name, int32_t num_args = -1) {
     auto &sys = program_.syscalls_;
     // it may already exist
     // XXX: we should change the design so that we dont insert multiple times
@@ -57,7 +57,7 @@ struct program_builder_t {
     }
     // insert new syscall
     int32_t index = int32_t(sys.size());
-    sys.push_back({name, nullptr});
+    sys.push_back({name, nullptr, num_args});
     return index;
   }
 
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index a9fc17d..e797e91 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -401,9 +401,16 @@ void thread_t::do_INS_RET_() {
 
 void thread_t::do_syscall_(int32_t operand, int32_t num_args) {
   const auto &calls = vm_.program_.syscalls();
-  assert(operand >= 0 && operand < int32_t(calls.size()));
+  if (operand < 0 || operand >= int32_t(calls.size())) {
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   nano_syscall_t sys = calls[operand].call_;
-  assert(sys);
+  if (!sys) {
+    // this syscall was never resolved by the host
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   sys(*this, num_args);
 }
 
@@ -416,9 +423,17 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
+    // check number of arguments given to a syscall
+    const auto &calls = vm_.program_.syscalls();
+    if (operand >= 0 && operand < int32_t(calls.size())) {
+      const int32_t expected = calls[operand].num_args_;
+      if (expected >= 0 && expected != num_args) {
+        set_error_(thread_error_t::e_bad_num_args);
+        return;
+      }
+    }
     do_syscall_(operand, num_args);
     return;
   }
@@ -429,6 +444,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
-- 
2.43.0


From ddfb1e1eeb2f6f10b5b84010a50c19829eaa3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:01 +0000
Subject: [PATCH 04/35] fix: unary minus works on floats

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index e797e91..74ad1d0 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -242,6 +242,10 @@ void thread_t::do_INS_NEG_() {
     stack_.push_int(-o->v);
     return;
   }
+  if (o->is_a<val_type_float>()) {
+    stack_.push_float(-o->f);
+    return;
+  }
   raise_error(thread_error_t::e_bad_type_operation);
 }
 
-- 
2.43.0


From a02c3071be69a818f97355b0b48ad23c57e1493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:25 +0000
Subject: [PATCH 05/35] fix: garbage collection keeps shared and cyclic values
 intact and frees all garbage

---
 source/lib_vm/vm_gc.cpp | 151 +++++++++++++++++++---------------------
 source/lib_vm/vm_gc.h   |   9 +--
 2 files changed, 77 insertions(+), 83 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..28ac2a8 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -7,7 +7,7 @@
 namespace nano {
 
 value_t *value_gc_t::new_int(const int32_t value) {
-  value_t *v = space_to().alloc<value_t>(0);
+  value_t *v = space_from().alloc<value_t>(0);
   assert(v);
   v->type_ = val_type_int;
   v->v = value;
@@ -15,7 +15,7 @@ value_t *value_gc_t::new_int(const int32_t value) {
 }
 
 value_t *value_gc_t::new_float(const float value) {
-  value_t *v = space_to().alloc<value_t>(0);
+  value_t *v = space_from().alloc<value_t>(0);
   assert(v);
   v->type_ = val_type_float;
   v->f = value;
@@ -24,7 +24,7 @@ value_t *value_gc_t::new_float(const float value) {
 
 value_t *value_gc_t::new_array(int32_t value) {
   size_t size = value * sizeof(value_t *);
-  value_t *v = space_to().alloc<value_t>(size);
+  value_t *v = space_from().alloc<value_t>(size);
   assert(v);
   v->type_ = val_type_array;
   assert(value > 0);
@@ -35,7 +35,7 @@ value_t *value_gc_t::new_array(int32_t value) {
 
 value_t *value_gc_t::new_string(const std::string &value) {
   const int32_t size = int32_t(value.size());
-  value_t *v = space_to().alloc<value_t>(value.size() + 1);
+  value_t *v = space_from().alloc<value_t>(value.size() + 1);
   assert(v);
   v->type_ = val_type_string;
   v->v = size;
@@ -47,7 +47,7 @@ value_t *value_gc_t::new_string(const std::string &value) {
 }
 
 value_t *value_gc_t::new_string(int32_t len) {
-  value_t *v = space_to().alloc<value_t>(len + 1);
+  value_t *v = space_from().alloc<value_t>(len + 1);
   assert(v);
   v->type_ = val_type_string;
   v->v = len;
@@ -60,7 +60,7 @@ value_t *value_gc_t::new_none() {
 }
 
 value_t *value_gc_t::new_func(uint32_t offset) {
-  value_t *v = space_to().alloc<value_t>(0);
+  value_t *v = space_from().alloc<value_t>(0);
   assert(v);
   v->type_ = val_type_func;
   v->v = offset;
@@ -68,7 +68,7 @@ value_t *value_gc_t::new_func(uint32_t offset) {
 }
 
 value_t *value_gc_t::new_syscall(uint32_t index) {
-  value_t *v = space_to().alloc<value_t>(0);
+  value_t *v = space_from().alloc<value_t>(0);
   assert(v);
   v->type_ = val_type_syscall;
   v->v = index;
@@ -76,7 +76,7 @@ value_t *value_gc_t::new_syscall(uint32_t index) {
 }
 
 bool value_gc_t::should_collect() const {
-  const size_t x = (space_to().size() * 100) / space_to().capacity();
+  const size_t x = (space_from().size() * 100) / space_from().capacity();
 #if HARDCORE
   return true;
 #else
@@ -101,6 +101,9 @@ value_t *value_gc_t::copy(const value_t &a) {
     return new_func(a.v);
   case val_type_syscall:
     return new_syscall(a.v);
+  case val_type_array:
+    // arrays are 'reference' type objects and so are shared
+    return const_cast<value_t *>(&a);
   case val_type_none:
     return nullptr;
   default:
@@ -110,88 +113,78 @@ value_t *value_gc_t::copy(const value_t &a) {
 }
 
 void value_gc_t::collect() {
+  // everything reachable has been moved so we can drop all that remains
   swap();
   space_to().clear();
   forward_clear();
 }
 
-void value_gc_t::trace(value_t **list, size_t num) {
+value_t *value_gc_t::move_(value_t *v, std::vector<value_t *> &pending) {
 
   // area data should be moved to
   arena_t &to = space_to();
 
-  for (size_t i = 0; i < num; ++i) {
-    value_t *&v = list[i];
-
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
-      const int32_t size = v->array_size();
-      trace(v->array(), size);
-    }
+  // none is not allocated and values already moved must not move again
+  if (v == nullptr || to.owns(v)) {
+    return v;
+  }
+  // every name for a value has to refer to the same moved value
+  if (value_t *x = forward_find(v)) {
+    return x;
+  }
+  assert(space_from().owns(v));
 
-    // already collected so skip to avoid cyclic trace loops
-    if (to.owns(v)) {
-      continue;
-    }
-    assert(v == nullptr || space_from().owns(v));
+  value_t *n = nullptr;
+  switch (v->type()) {
+  case val_type_syscall:
+  case val_type_func:
+  case val_type_int:
+    n = to.alloc<value_t>(0);
+    n->v = v->v;
+    break;
+  case val_type_float:
+    n = to.alloc<value_t>(0);
+    n->f = v->f;
+    break;
+  case val_type_string: {
+    const int32_t size = v->v;
+    n = to.alloc<value_t>(size + 1);
+    n->v = size;
+    memcpy((char *)(n + 1), (const char *)(v + 1), size + 1);
+    break;
+  }
+  case val_type_array: {
+    const int32_t size = v->array_size();
+    n = to.alloc<value_t>(size * sizeof(value_t *));
+    n->v = size;
+    memcpy((void *)(n + 1), v->array(), size * sizeof(value_t *));
+    // the elements still have to be moved
+    pending.push_back(n);
+    break;
+  }
+  default:
+    assert(!"unknown type");
+    return nullptr;
+  }
+  n->type_ = v->type();
+  forward_add(v, n);
+  return n;
+}
 
-    switch (v->type()) {
-    case val_type_none: {
-      assert(list[i] == nullptr);
-      break;
-    }
-    case val_type_syscall:
-    case val_type_func:
-    case val_type_int: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->v = v->v;
-      list[i] = n;
-      break;
-    }
-    case val_type_float: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->f = v->f;
-      list[i] = n;
-      break;
-    }
-    case val_type_string: {
-      assert(int32_t(strlen(v->string())) == v->v);
-      const int32_t size = v->v;
-      value_t *n = to.alloc<value_t>(size + 1);
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->string(), v->string(), size + 1);
-      list[i] = n;
-      break;
-    }
-    case val_type_array: {
-      // if we have global variables, they might have been relocated at which
-      // point our pointers will point to the wrong half space
-      if (value_t *x = forward_find(v)) {
-        list[i] = x;
-        break;
-      }
-
-      // may want to swap in the new pointer prior to trace to break cycles
-
-      const int32_t size = v->array_size();
-      // move into to space
-      value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->array(), v->array(), size * sizeof(value_t *));
-      // keep track of forwarded global arrays that may have to move
-      forward_add(v, n);
-      list[i] = n;
-      break;
-    }
-    default:
-      assert(!"unknown type");
+void value_gc_t::trace(value_t **list, size_t num) {
+
+  // arrays that have been moved but their elements have not
+  std::vector<value_t *> pending;
+
+  for (size_t i = 0; i < num; ++i) {
+    list[i] = move_(list[i], pending);
+  }
+  while (!pending.empty()) {
+    value_t *a = pending.back();
+    pending.pop_back();
+    const int32_t size = a->array_size();
+    for (int32_t i = 0; i < size; ++i) {
+      a->array()[i] = move_(a->array()[i], pending);
     }
   }
 }
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 0af2924..2240597 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -138,10 +138,11 @@ protected:
     return itt == forward_.end() ? nullptr : itt->second;
   }
 
-  // since getv puts an array on the stack and then geta/seta to set its member
-  // we have to keep a list of already moved arrays.  this could be avoided if
-  // we used different instructions to avoid using getv, and instead looked it
-  // up when we need.
+  // move a value into the other space and return its new location
+  value_t *move_(value_t *v, std::vector<value_t *> &pending);
+
+  // a value can be reachable in many ways (stack slots, globals, elements) so
+  // we have to keep a map of the values moved already to preserve identity.
   std::unordered_map<const value_t *, value_t *> forward_;
 
   uint32_t flipflop_;
-- 
2.43.0


From 801e18b49f68cd78c33121513fff754c6605ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:45 +0000
Subject: [PATCH 06/35] fix: an exhausted value heap ends the thread with an
 error instead of aborting

---
 source/lib_vm/thread.cpp       | 25 +++++++++++++++++++++----
 source/lib_vm/thread.h         |  3 +++
 source/lib_vm/thread_error.cpp |  1 +
 source/lib_vm/thread_error.h   |  1 +
 source/lib_vm/vm_gc.cpp        | 32 ++++++++++++++++++--------------
 source/lib_vm/vm_gc.h          |  3 +++
 6 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 74ad1d0..5e100eb 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -1,5 +1,6 @@
 #include <climits>
 #include <cstring>
+#include <new>
 
 #include "thread.h"
 #include "program.h"
@@ -719,9 +720,15 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   }
 
   // push any arguments
-  for (int i = 0; i < argc; ++i) {
-    const value_t *v = argv[i];
-    stack_.push(gc_.copy(*v));
+  try {
+    for (int i = 0; i < argc; ++i) {
+      const value_t *v = argv[i];
+      stack_.push(gc_.copy(*v));
+    }
+  }
+  catch (const std::bad_alloc &) {
+    error_ = thread_error_t::e_out_of_memory;
+    return false;
   }
 
   // push the initial frame
@@ -738,7 +745,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   return true;
 }
 
-void thread_t::step_imp_() {
+void thread_t::dispatch_() {
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -786,6 +793,16 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+}
+
+void thread_t::step_imp_() {
+  try {
+    dispatch_();
+  }
+  catch (const std::bad_alloc &) {
+    // the value heap is exhausted
+    set_error_(thread_error_t::e_out_of_memory);
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index 0666309..ca56897 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -162,6 +162,9 @@ protected:
   // tick the garbage collector
   void tick_gc_(int32_t cycles);
 
+  // execute a single instruction
+  void dispatch_();
+
   // step a single instruction (internal)
   void step_imp_();
 
diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..f22649f 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -25,6 +25,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
+  case thread_error_t::e_out_of_memory:       return "e_out_of_memory";
   default:
     assert(false);
     return "";
diff --git a/source/lib_vm/thread_error.h b/source/lib_vm/thread_error.h
index e2ace28..391fdff 100644
--- a/source/lib_vm/thread_error.h
+++ b/source/lib_vm/thread_error.h
@@ -26,6 +26,7 @@ enum class thread_error_t {
   e_bad_type_operation,
   e_bad_argument,
   e_bad_member_access,
+  e_out_of_memory,
 };
 
 const char *get_thread_error(const nano::thread_error_t &err);
diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index 28ac2a8..571dea3 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -1,22 +1,31 @@
 #include <string.h>
 
+#include <new>
+
 #include "vm_gc.h"
 
 #define HARDCORE 0
 
 namespace nano {
 
+value_t *value_gc_t::alloc_(size_t extra) {
+  value_t *v = space_from().alloc<value_t>(extra);
+  if (!v) {
+    // the thread will turn this into a thread error
+    throw std::bad_alloc();
+  }
+  return v;
+}
+
 value_t *value_gc_t::new_int(const int32_t value) {
-  value_t *v = space_from().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
   v->type_ = val_type_int;
   v->v = value;
   return v;
 }
 
 value_t *value_gc_t::new_float(const float value) {
-  value_t *v = space_from().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
   v->type_ = val_type_float;
   v->f = value;
   return v;
@@ -24,8 +33,7 @@ value_t *value_gc_t::new_float(const float value) {
 
 value_t *value_gc_t::new_array(int32_t value) {
   size_t size = value * sizeof(value_t *);
-  value_t *v = space_from().alloc<value_t>(size);
-  assert(v);
+  value_t *v = alloc_(size);
   v->type_ = val_type_array;
   assert(value > 0);
   memset(v->array(), 0, size);
@@ -35,8 +43,7 @@ value_t *value_gc_t::new_array(int32_t value) {
 
 value_t *value_gc_t::new_string(const std::string &value) {
   const int32_t size = int32_t(value.size());
-  value_t *v = space_from().alloc<value_t>(value.size() + 1);
-  assert(v);
+  value_t *v = alloc_(value.size() + 1);
   v->type_ = val_type_string;
   v->v = size;
   // copy string
@@ -47,8 +54,7 @@ value_t *value_gc_t::new_string(const std::string &value) {
 }
 
 value_t *value_gc_t::new_string(int32_t len) {
-  value_t *v = space_from().alloc<value_t>(len + 1);
-  assert(v);
+  value_t *v = alloc_(len + 1);
   v->type_ = val_type_string;
   v->v = len;
   v->string()[0] = '\0';
@@ -60,16 +66,14 @@ value_t *value_gc_t::new_none() {
 }
 
 value_t *value_gc_t::new_func(uint32_t offset) {
-  value_t *v = space_from().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
   v->type_ = val_type_func;
   v->v = offset;
   return v;
 }
 
 value_t *value_gc_t::new_syscall(uint32_t index) {
-  value_t *v = space_from().alloc<value_t>(0);
-  assert(v);
+  value_t *v = alloc_(0);
   v->type_ = val_type_syscall;
   v->v = index;
   return v;
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 2240597..30621ce 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -138,6 +138,9 @@ protected:
     return itt == forward_.end() ? nullptr : itt->second;
   }
 
+  // allocate a value or throw std::bad_alloc when the heap is exhausted
+  value_t *alloc_(size_t extra);
+
   // move a value into the other space and return its new location
   value_t *move_(value_t *v, std::vector<value_t *> &pending);
 
-- 
2.43.0


From ff6cb04beee6c43c909cf22eea7468135c4759c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 07/35] fix: wait with a negative count does not stall the
 thread

---
 source/lib_builtins/builtin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..29c01f9 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -216,7 +216,7 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    t.waits = (w > 0) ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From b4e97b440c0bbe6ce175c1703a8878b1853f386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 08/35] fix: every thread error has a name

---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index f22649f..61cef36 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -8,6 +8,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   switch (err) {
   case thread_error_t::e_success:             return "e_success";
   case thread_error_t::e_max_cycle_count:     return "e_max_cycle_count";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   case thread_error_t::e_bad_getv:            return "e_bad_getv";
   case thread_error_t::e_bad_setv:            return "e_bad_setv";
   case thread_error_t::e_bad_num_args:        return "e_bad_num_args";
@@ -24,6 +25,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_type_operation:  return "e_bad_type_operation";
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
   case thread_error_t::e_out_of_memory:       return "e_out_of_memory";
   default:
-- 
2.43.0


From a6db8248e49368461fb54078106c0d4064df8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 09/35] fix: vm reports failed preparation and thread errors,
 completes init and resets globals

---
 source/lib_vm/vm.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..bf78410 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -38,6 +38,8 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  // the values of all globals are gone now too
+  g_.clear();
 }
 
 bool vm_t::call_init() {
@@ -49,7 +51,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // all globals must be initialized before anything else can run
+  while (!t->finished()) {
+    if (!t->resume(1024 * 8)) {
+      break;
+    }
+  }
+  return !t->has_error();
 }
 
 bool vm_t::call_once(const function_t &func,
@@ -62,6 +70,11 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    error = (func.num_args() != argc) ? thread_error_t::e_bad_num_args
+                                      : thread_error_t::e_bad_prepare;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
@@ -117,6 +130,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From 6dbb63f5b04812149333fcf1b45c1852ec84f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:38 +0000
Subject: [PATCH 10/35] fix: unary minus and not apply to their own operand
 only

---
 source/lib_compiler/parser.cpp | 35 ++++++++++++++++++++++------------
 source/lib_compiler/parser.h   |  1 +
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..96f5660 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -110,7 +110,8 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  // only a binary operator can follow an operand
+  return stream_.peek()->is_binary_op();
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
@@ -217,24 +218,16 @@ void parser_t::parse_lhs_() {
   } while (false);
 }
 
-void parser_t::parse_expr_ex_(uint32_t tide) {
+void parser_t::parse_unary_() {
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
 
   // format:
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ] <op> <expr_ex>
-
-  // not
-  if (const token_t *n = stream_.found(TOK_NOT)) {
-    parse_expr_ex_(tide);
-    op_push_(n, tide);
-    return;
-  }
+  //    [-] <lhs> [ '(' <expr> ')' ]
 
   // unary minus
   if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
+    parse_unary_();
     ast_node_t *back = exp_stack_.back();
     exp_stack_.pop_back();
     auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
@@ -276,6 +269,24 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
     break;
   }
+}
+
+void parser_t::parse_expr_ex_(uint32_t tide) {
+  token_stream_t &stream_ = nano_.lexer().stream();
+
+  // format:
+  //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
+  //    ['not'] [-] <lhs> [ '(' <expr> ')' ] <op> <expr_ex>
+
+  // not
+  if (const token_t *n = stream_.found(TOK_NOT)) {
+    // a prefix operator has no left operand so there is nothing to reduce yet
+    op_stack_.push_back(n);
+    parse_expr_ex_(tide);
+    return;
+  }
+
+  parse_unary_();
 
   if (is_operator_()) {
     const token_t *op = stream_.pop();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..7641329 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -49,6 +49,7 @@ protected:
 
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
+  void parse_unary_();
   void parse_lhs_();
 
   // return true if next token is an operator
-- 
2.43.0


From 68d869f1d7ffcf088734de23b9d235d22dc42f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:25 +0000
Subject: [PATCH 11/35] fix: removing a dead branch no longer changes the
 constant that selected it

---
 source/lib_compiler/optimize.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..b56cec0 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -346,6 +346,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
   opt_if_remove_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {}
 
   void visit(ast_stmt_if_t *s) override {
@@ -358,7 +359,8 @@ struct opt_if_remove_t: public ast_visitor_t {
       else {
         s->then_block = s->else_block;
         s->else_block = nullptr;
-        c->val = 1;
+        // note: the literal may be shared with other uses of a constant
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
       }
     }
   }
@@ -378,6 +380,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
 protected:
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From e12edd6632bbf6d08d4032d3e7a95d8a563d33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:27 +0000
Subject: [PATCH 12/35] fix: folding INT_MIN divided by -1 no longer traps in
 the compiler

---
 source/lib_compiler/optimize.cpp | 5 +++--
 source/lib_compiler/sema.cpp     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index b56cec0..d022855 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,9 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      // dividing by -1 can overflow so let it wrap
+      case TOK_DIV: v = (b == -1) ? int32_t(0u - uint32_t(a)) : a / b; break;
+      case TOK_MOD: v = (b == -1) ? 0 : a % b; break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..b0bd538 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -137,8 +137,9 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    // dividing by -1 can overflow so let it wrap
+    case TOK_DIV:     return (b == -1) ? int32_t(0u - uint32_t(a)) : a / b;
+    case TOK_MOD:     return (b == -1) ? 0 : a % b;
     default:
       assert(!"unknown operator");
     }
-- 
2.43.0


From 118ee6ec5315a2bc6073515f3da40bf473cf6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:29 +0000
Subject: [PATCH 13/35] fix: a local without initial value is none each time it
 is declared

---
 source/lib_compiler/codegen.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..114785f 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,12 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
     }
+    else {
+      // the stack slot may be reused and hold an older value
+      emit(INS_NEW_NONE, n->name);
+    }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From c547ec8857bc793de3f7e2aac0b64e94715d7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:57 +0000
Subject: [PATCH 14/35] fix: constant evaluation and member access no longer
 assert on functions and not

---
 source/lib_compiler/sema.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index b0bd538..4679494 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,6 +21,9 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    if (!valid_) {
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
@@ -28,6 +31,9 @@ struct eval_t: public ast_visitor_t {
     case TOK_SUB:
       r = -v;
       break;
+    case TOK_NOT:
+      r = !v;
+      break;
     default:
       assert(!"unknown operator");
     }
@@ -53,8 +59,7 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
@@ -369,7 +374,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        errs_.unexpected_token(*n->name);
       }
       return;
     }
-- 
2.43.0


From 4ec6a08d37f0e5c453c0c7fc79be61854a399e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:59 +0000
Subject: [PATCH 15/35] fix: the branches of an if statement have separate
 scopes

---
 source/lib_compiler/sema.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 4679494..af9767d 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -410,8 +410,13 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
+    // each branch is its own scope
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
-- 
2.43.0


From 248ecb70806d9837606036e728e77492b004d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:04 +0000
Subject: [PATCH 16/35] fix: assigning, indexing or calling a constant is
 diagnosed instead of reaching codegen

---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 31 +++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..124ea9f 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -276,6 +276,7 @@ struct ast_exp_call_t : public ast_node_t {
         args[i] = with;
       }
     }
+    callee = (callee == which) ? with : callee;
   }
 
   const token_t *token;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index af9767d..3f2d0bc 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -199,6 +199,37 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_member_t *n) override {
+    ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      errs_.cant_evaluate_constant(*n->name);
+    }
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
-- 
2.43.0


From 7670cf1c10fbedd3b1c9d5581ce286a36d844668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:07 +0000
Subject: [PATCH 17/35] fix: constants may be none or refer to constants
 declared later

---
 source/lib_compiler/sema.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 3f2d0bc..c3d1cf5 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -266,8 +266,19 @@ struct sema_global_var_t : public ast_visitor_t {
     assert(n->expr);
     switch (n->expr->type) {
     case ast_exp_none_e:
-      n->expr = nullptr;
+      if (!n->is_const) {
+        n->expr = nullptr;
+      }
       break;
+    case ast_exp_ident_e: {
+      // a constant can be given the value of another constant
+      auto *ident = n->expr->cast<ast_exp_ident_t>();
+      auto *decl = ident->decl->cast<ast_decl_var_t>();
+      if (n->is_const && decl && decl->is_const && is_literal_(decl->expr)) {
+        change_ = true;
+        n->expr = decl->expr;
+      }
+    } break;
     case ast_exp_bin_op_e:
     case ast_exp_unary_op_e: {
       int32_t val = 0;
@@ -305,6 +316,11 @@ struct sema_global_var_t : public ast_visitor_t {
   }
 
 protected:
+  bool is_literal_(const ast_node_t *n) const {
+    return n->is_a<ast_exp_none_t>() || n->is_a<ast_exp_lit_var_t>() ||
+           n->is_a<ast_exp_lit_str_t>() || n->is_a<ast_exp_lit_float_t>();
+  }
+
   void run_globals_(ast_program_t *p) {
     for (auto *n : p->children) {
       if (auto *d = n->cast<ast_decl_var_t>()) {
-- 
2.43.0


From 51dd7033c263d2e4ed58634a0711f0370a002950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:25 +0000
Subject: [PATCH 18/35] fix: comments at the end of the text, punctuation above
 z and new line positions in the lexer

---
 source/lib_compiler/lexer.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..4fe0133 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -8,7 +8,7 @@ namespace {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool is_alpha(const char t) {
-  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t >= '_');
+  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t == '_');
 }
 
 bool is_numeric(const char t) {
@@ -77,15 +77,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
 
     // comments
     if (*s == '#') {
-      for (; *s && *s != '\n'; ++s) {
+      // stop before the new line (or the end) which is handled as usual
+      for (; s[1] && s[1] != '\n'; ++s) {
         // empty
       }
-      {
-        assert(s >= new_line_);
-        new_line_ = s + 1;
-        ++line_.line;
-      }
-      push_(TOK_EOL);
       continue;
     }
 
@@ -206,8 +201,9 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
     case '\n':
       assert(s >= new_line_);
       new_line_ = s + 1;
-      ++line_.line;
+      // the new line still belongs to the line it ends
       push_(TOK_EOL);
+      ++line_.line;
       continue;
     case '=':
       if (s[1] == '=') {
-- 
2.43.0


From f0244f4f2f50bc82d182dd6bd5f3e95ec572efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:27 +0000
Subject: [PATCH 19/35] fix: decimal literals with more than nine digits no
 longer overflow

---
 source/lib_compiler/lexer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 4fe0133..a58c07f 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -287,8 +287,10 @@ void lexer_t::push_string_(const char *start, const char *end) {
 }
 
 void lexer_t::push_val_(const char *s, const char *e) {
-  int32_t v = 0;
-  int32_t f = 0;
+  // integers wrap, decimals need more range than that
+  uint32_t v = 0;
+  double d = 0;
+  double f = 0;
   for (; s != e; ++s) {
     if (*s == '.') {
       assert(f == 0);
@@ -296,15 +298,16 @@ void lexer_t::push_val_(const char *s, const char *e) {
     }
     else {
       assert(is_numeric(*s));
-      v = v * 10 + (*s - '0');
+      v = v * 10 + uint32_t(*s - '0');
+      d = d * 10 + (*s - '0');
       f *= 10;
     }
   }
   if (f == 0) {
-    stream_.push(token_t(v, line_));
+    stream_.push(token_t(int32_t(v), line_));
   }
   else {
-    const float x = float(v) / float(f);
+    const float x = float(d / f);
     stream_.push(token_t(x, line_));
   }
 }
-- 
2.43.0


From 9966b67e23af5935a67842e1ef61845d742418b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:29 +0000
Subject: [PATCH 20/35] fix: report the unexpected token itself, name every
 token and reset the parser fully

---
 source/lib_compiler/parser.cpp | 5 ++---
 source/lib_compiler/token.cpp  | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 96f5660..fe48ca8 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
@@ -804,6 +802,7 @@ void parser_t::op_pop_all_(uint32_t tide) {
 
 void parser_t::reset() {
   op_stack_.clear();
+  exp_stack_.clear();
 }
 
 parser_t::parser_t(nano_t &c)
diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..b74583c 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -99,6 +99,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
   case TOK_DOT:      return ".";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   default:
     assert(!"unhandled token type");
     return "";
-- 
2.43.0


From b0adf13147b3c855a8363e0d131ec66d132f5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:14 +0000
Subject: [PATCH 21/35] fix: loading a damaged program file fails cleanly and
 strings survive a round trip

---
 source/lib_common/program.cpp | 36 +++++++++++++++++++++--------------
 source/lib_common/program.h   |  4 ++++
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 5c7ccc8..e460f60 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -72,20 +72,22 @@ bool consume(FILE *fd, nano::program_t::linetable_t &s) {
   return true;
 }
 
-bool consume(FILE *fd, std::string &string) {
-  int32_t size = 0;
-  if (1 != fread(&size, 4, 1, fd)) {
+// return true if the file can still hold a number of bytes
+bool remains(FILE *fd, int32_t size) {
+  const long pos = ftell(fd);
+  if (size < 0 || pos < 0 || fseek(fd, 0, SEEK_END) != 0) {
     return false;
   }
-  assert(size < 256);
+  const long end = ftell(fd);
+  return fseek(fd, pos, SEEK_SET) == 0 && size <= end - pos;
+}
+
+bool consume(FILE *fd, std::string &string) {
+  int32_t size = 0;
+  TRY(consume(fd, size));
+  TRY(remains(fd, size));
   string.resize(size);
-  auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
-    return false;
-  }
-  data[size] = '\0';
-  string.assign(data.get());
-  return true;
+  return fread(&string[0], 1, size, fd) == size_t(size);
 }
 
 bool consume(FILE *fd, nano::function_t &f) {
@@ -168,6 +170,13 @@ bool program_t::serial_load(const char *path) {
   }
   // reset this program prior
   reset();
+  const bool res = serial_read_(fd);
+  // done
+  fclose(fd);
+  return res;
+}
+
+bool program_t::serial_read_(FILE *fd) {
   // read header
   int32_t magic_no = 0;
   TRY(consume(fd, magic_no));
@@ -199,8 +208,9 @@ bool program_t::serial_load(const char *path) {
   // read bytecode
   int32_t code_size = 0;
   TRY(consume(fd, code_size));
+  TRY(remains(fd, code_size));
   code_.resize(code_size);
-  if (fread(code_.data(), 1, code_size, fd) != code_size) {
+  if (fread(code_.data(), 1, code_size, fd) != size_t(code_size)) {
     return false;
   }
   // emit the line table
@@ -212,8 +222,6 @@ bool program_t::serial_load(const char *path) {
     strings_.emplace_back();
     TRY(consume(fd, strings_.back()));
   }
-  // done
-  fclose(fd);
   return true;
 }
 
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 5aee9aa..8b2f615 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -6,6 +6,7 @@
 #include <array>
 #include <memory>
 #include <cassert>
+#include <cstdio>
 
 
 #include "common.h"
@@ -96,6 +97,9 @@ protected:
 
   // XXX: add filetable
 
+  // read a saved program from an open file
+  bool serial_read_(FILE *fd);
+
   // add a line to the line table
   void add_line(int32_t pc, line_t line) {
     line_table_[pc] = line;
-- 
2.43.0


From 9b00fa45ad5de938e69bd8dc8b440ec1a1d4eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:16 +0000
Subject: [PATCH 22/35] fix: saving a program reports write errors

---
 source/lib_common/program.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index e460f60..a4fc7d1 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -157,9 +157,9 @@ bool program_t::serial_save(const char *path) {
   for (const auto &s : strings_) {
     emit(fd, s);
   }
-  // done
-  fclose(fd);
-  return true;
+  // done, any write could have failed along the way
+  const bool failed = ferror(fd) != 0;
+  return fclose(fd) == 0 && !failed;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From f3c584c98eb317e120dddf9eeb07e726b0f87de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:36 +0000
Subject: [PATCH 23/35] fix: imports are not confused by path prefixes and
 unreadable sources are not kept

---
 source/lib_common/file.h     |  7 +++++--
 source/lib_common/source.cpp | 32 ++++++++++++++++++--------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..a661294 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <memory>
 #include <stdio.h>
 #include <stdlib.h>
@@ -16,13 +17,15 @@ struct file_t {
     }
 
     fseek(fd, 0, SEEK_END);
-    _size = ftell(fd);
+    const long end = ftell(fd);
     fseek(fd, 0, SEEK_SET);
 
-    if (_size == 0) {
+    // note: this is LONG_MAX for a directory
+    if (end <= 0 || end == LONG_MAX) {
       fclose(fd);
       return false;
     }
+    _size = size_t(end);
     _data.reset(new uint8_t[_size]);
 
     const size_t read = fread(_data.get(), 1, _size, fd);
diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..871dead 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -4,13 +4,10 @@
 
 namespace {
 
-std::string base_path(std::string in) {
-  const size_t last1 = in.rfind('/');
-  const size_t last2 = in.rfind('\\');
-  const size_t last = std::max(last1 == std::string::npos ? 0 : last1,
-                               last2 == std::string::npos ? 0 : last2);
-  in.resize(last);
-  return in;
+// return the directory part of a path including the final separator
+std::string base_path(const std::string &in) {
+  const size_t last = in.find_last_of("/\\");
+  return last == std::string::npos ? std::string() : in.substr(0, last + 1);
 }
 
 // a path compare that is insensitive to slashes and case
@@ -28,7 +25,7 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  return *y == '\0';
 }
 
 } // namespace {}
@@ -36,8 +33,7 @@ bool path_cmp(const char *x, const char *y) {
 namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
-  std::string base = base_path(s.file_path());
-  in_out = base + "/" + in_out;
+  in_out = base_path(s.file_path()) + in_out;
 }
 
 bool source_manager_t::load(const char *path) {
@@ -47,13 +43,21 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 3c901ce71266e240d6eaae4b807858b264f8a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:17 +0000
Subject: [PATCH 24/35] fix: every instruction of a statement carries the line
 the statement is on

---
 source/lib_compiler/ast.h        |  4 ++--
 source/lib_compiler/codegen.cpp  |  2 +-
 source/lib_compiler/optimize.cpp | 10 +++++-----
 source/lib_compiler/sema.cpp     | 25 ++++++++++++++++++++-----
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 124ea9f..b7de97e 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -155,9 +155,9 @@ struct ast_exp_lit_var_t: public ast_node_t {
   {
   }
 
-  ast_exp_lit_var_t(const int32_t &value)
+  ast_exp_lit_var_t(const int32_t &value, const token_t *t = nullptr)
     : ast_node_t(TYPE)
-    , token(nullptr)
+    , token(t)
     , val(value)
   {
   }
diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index 114785f..fa31ba0 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -261,7 +261,7 @@ struct codegen_pass_t: ast_visitor_t {
     }
 
     // unconditional jump to end
-    emit(INS_JMP, 0); // ---> L1
+    emit(INS_JMP, 0, n->token); // ---> L1
     uint32_t to_L1 = get_fixup();
 
     // else
diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index d022855..1abdf32 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -178,7 +178,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -188,7 +188,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -198,7 +198,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -208,7 +208,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -361,7 +361,7 @@ struct opt_if_remove_t: public ast_visitor_t {
         s->then_block = s->else_block;
         s->else_block = nullptr;
         // note: the literal may be shared with other uses of a constant
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1, s->token);
       }
     }
   }
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index c3d1cf5..58d038e 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -164,6 +164,7 @@ struct sema_const_t: public ast_visitor_t {
 
   sema_const_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {
   }
 
@@ -177,13 +178,26 @@ struct sema_const_t: public ast_visitor_t {
     }
     ast_node_t *parent = stack.rbegin()[1];
     if (decl->expr) {
+      // inline a copy of the value that is located where it is used
       ast_node_t *e = decl->expr;
       switch (e->type) {
-      case ast_exp_lit_var_e:
-      case ast_exp_lit_str_e:
-      case ast_exp_lit_float_e:
+      case ast_exp_lit_var_e: {
+        auto *c = ast_.alloc<ast_exp_lit_var_t>(*e->cast<ast_exp_lit_var_t>());
+        c->token = n->name;
+        parent->replace_child(n, c);
+      } break;
+      case ast_exp_lit_str_e: {
+        auto *c = ast_.alloc<ast_exp_lit_str_t>(*e->cast<ast_exp_lit_str_t>());
+        c->token = n->name;
+        parent->replace_child(n, c);
+      } break;
+      case ast_exp_lit_float_e: {
+        auto *c = ast_.alloc<ast_exp_lit_float_t>(*e->cast<ast_exp_lit_float_t>());
+        c->token = n->name;
+        parent->replace_child(n, c);
+      } break;
       case ast_exp_none_e:
-        parent->replace_child(n, e);
+        parent->replace_child(n, ast_.alloc<ast_exp_none_t>(n->name));
         break;
       default:
         errs_.cant_evaluate_constant(*n->name);
@@ -244,6 +258,7 @@ struct sema_const_t: public ast_visitor_t {
   }
 
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
@@ -284,7 +299,7 @@ struct sema_global_var_t : public ast_visitor_t {
       int32_t val = 0;
       if (eval.eval(n->expr, val)) {
         change_ = true;
-        n->expr = ast_.alloc<ast_exp_lit_var_t>(val);
+        n->expr = ast_.alloc<ast_exp_lit_var_t>(val, n->name);
       }
       else {
         if (strict_) {
-- 
2.43.0


From deab497e97acff434fd51c28fd8abc7e962ec819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:21 +0000
Subject: [PATCH 25/35] fix: breakpoints on the first statement of a thread are
 hit before it runs

---
 source/lib_vm/thread.cpp | 21 +++++++++++++++++++--
 source/lib_vm/thread.h   |  3 +++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 5e100eb..73ed28c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -707,6 +707,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   finished_ = true;
   cycles_ = 0;
   halted_ = false;
+  last_line_ = line_t{};
 
   stack_.clear();
 
@@ -804,6 +805,12 @@ void thread_t::step_imp_() {
     set_error_(thread_error_t::e_out_of_memory);
   }
   // check for any breakpoints
+  check_breakpoints_();
+  // increment cycle count
+  ++cycles_;
+}
+
+void thread_t::check_breakpoints_() {
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
     const line_t l = get_source_line();
@@ -815,8 +822,6 @@ void thread_t::step_imp_() {
     // keep track of the last source line we were on
     last_line_ = l;
   }
-  // increment cycle count
-  ++cycles_;
 }
 
 void thread_t::enter_(uint32_t sp, uint32_t pc, uint32_t callee) {
@@ -866,6 +871,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
@@ -892,6 +898,13 @@ bool thread_t::resume(int32_t cycles) {
     return false;
   }
   halted_ = false;
+  if (cycles_ == 0) {
+    // we may be about to start on a line with a breakpoint
+    check_breakpoints_();
+    if (halted_) {
+      return !has_error();
+    }
+  }
   // while we should keep processing instructions
   for (; cycles; --cycles) {
     tick_gc_(cycles);
@@ -926,6 +939,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  if (breakpoints_.empty() && cycles_ != 0) {
+    // the last line is not tracked without breakpoints
+    last_line_ = get_source_line();
+  }
   breakpoints_.insert(line);
 }
 
diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index ca56897..6277d70 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -165,6 +165,9 @@ protected:
   // execute a single instruction
   void dispatch_();
 
+  // halt if we have arrived at a breakpoint
+  void check_breakpoints_();
+
   // step a single instruction (internal)
   void step_imp_();
 
-- 
2.43.0


From fd6e64323282ace1cef57c84f96bdf99747f62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:43 +0000
Subject: [PATCH 26/35] fix: a runtime error is reported on the line of the
 instruction that failed

---
 source/lib_vm/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 73ed28c..0d40661 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -797,6 +797,7 @@ void thread_t::dispatch_() {
 }
 
 void thread_t::step_imp_() {
+  const int32_t pc = pc_;
   try {
     dispatch_();
   }
@@ -804,6 +805,10 @@ void thread_t::step_imp_() {
     // the value heap is exhausted
     set_error_(thread_error_t::e_out_of_memory);
   }
+  if (has_error()) {
+    // remain at the instruction that failed so its line can be reported
+    pc_ = pc;
+  }
   // check for any breakpoints
   check_breakpoints_();
   // increment cycle count
-- 
2.43.0


From 8850f2c49af1256b690f97577650d0ed1249fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:37 +0000
Subject: [PATCH 27/35] fix: an import through '.' or '..' is recognised as a
 file already loaded

Two files in different directories importing each other were loaded again and
again under ever longer paths, so that compilation did not end.
---
 source/lib_common/source.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 871dead..ba0fbec 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -1,4 +1,6 @@
 #include <algorithm>
+#include <string>
+#include <vector>
 
 #include "source.h"
 
@@ -10,6 +12,37 @@ std::string base_path(const std::string &in) {
   return last == std::string::npos ? std::string() : in.substr(0, last + 1);
 }
 
+// remove the redundant parts ('.', '..' and empty names) from a path
+std::string clean_path(const std::string &in) {
+  // the parts of the path, each including its separator
+  std::vector<std::string> parts;
+  for (size_t i = 0; i < in.size();) {
+    const size_t sep = in.find_first_of("/\\", i);
+    const size_t end = sep == std::string::npos ? in.size() : sep + 1;
+    const std::string name = in.substr(i, std::min(sep, in.size()) - i);
+    const std::string part = in.substr(i, end - i);
+    i = end;
+    if (name == "." || (name.empty() && !parts.empty())) {
+      continue;
+    }
+    if (name == ".." && !parts.empty()) {
+      const std::string &last = parts.back();
+      const bool is_root = last.size() == 1 && (last == "/" || last == "\\");
+      const bool is_up = last.compare(0, 2, "..") == 0 && last.size() == 3;
+      if (!is_root && !is_up) {
+        parts.pop_back();
+        continue;
+      }
+    }
+    parts.push_back(part);
+  }
+  std::string out;
+  for (const std::string &part : parts) {
+    out += part;
+  }
+  return out;
+}
+
 // a path compare that is insensitive to slashes and case
 bool path_cmp(const char *x, const char *y) {
   for (; *x != '\0'; ++x, ++y) {
@@ -37,9 +70,10 @@ void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
 }
 
 bool source_manager_t::load(const char *path) {
+  const std::string clean = clean_path(path);
   for (const auto &s : sources_) {
     // file already loaded so return
-    if (path_cmp(s->file_path().c_str(), path)) {
+    if (path_cmp(clean_path(s->file_path()).c_str(), clean.c_str())) {
       return true;
     }
   }
-- 
2.43.0


From c1b04129907a9fa918a6052ad5050c4487e97148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:10 +0000
Subject: [PATCH 28/35] fix: a thread prepared again forgets the wait and
 frames of its last run

---
 source/lib_vm/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 0d40661..4cfc98a 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -709,6 +709,9 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   halted_ = false;
   last_line_ = line_t{};
 
+  // forget anything left over from an earlier run
+  waits = 0;
+  f_.clear();
   stack_.clear();
 
   // load the target pc (entry point)
-- 
2.43.0


From e32d8aa7cce55680d5ad31b9d596958701898220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 29/35] fix: gets returns an empty string at the end of the
 input

---
 source/driver/driver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..f5ff505 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -51,8 +51,10 @@ void vm_putc(nano::thread_t &t, int32_t) {
 
 void vm_gets(nano::thread_t &t, int32_t) {
   using namespace nano;
-  char buffer[80];
-  fgets(buffer, sizeof(buffer), stdin);
+  char buffer[80] = {0};
+  if (!fgets(buffer, sizeof(buffer), stdin)) {
+    buffer[0] = '\0';
+  }
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
   }
-- 
2.43.0


From 6121aad61998de87165410ef33141be73d0b7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 30/35] fix: putc and puts of none raise a bad argument error

---
 source/driver/driver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index f5ff505..b598df6 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -39,7 +39,6 @@ void vm_getc(nano::thread_t &t, int32_t) {
 void vm_putc(nano::thread_t &t, int32_t) {
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -65,7 +64,6 @@ void vm_gets(nano::thread_t &t, int32_t) {
 void vm_puts(nano::thread_t &t, int32_t) {
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From b08f0157f93863f6566d3e620586f98ab5ccdb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 31/35] fix: array initialisers and member assignments survive
 the ast collection

---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..f99400e 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -151,6 +151,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
 protected:
   std::set<const ast_node_t*> nodes_;
 };
-- 
2.43.0


From 87d8d9d811a5397d14c3490ac32cf02340e4b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 32/35] fix: nano_comp accepts paths of any length

---
 source/comp/driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..d504912 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <string>
 
 #include "../lib_compiler/nano.h"
 #include "../lib_compiler/codegen.h"
@@ -21,9 +22,8 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  const std::string path = std::string(base) + ext;
+  return fopen(path.c_str(), "wb");
 }
 
 void usage(const char *path) {
-- 
2.43.0


From 28b09f35b31bf9e6a4fbedc2362c266e3a1dfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 33/35] fix: './/x' is not an absolute path

Empty path parts were taken for the root directory whenever nothing was
in front of them, so './/x' was confused with '/x' and loaded apart
from 'x'.
---
 source/lib_common/source.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index ba0fbec..0405a23 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -21,8 +21,10 @@ std::string clean_path(const std::string &in) {
     const size_t end = sep == std::string::npos ? in.size() : sep + 1;
     const std::string name = in.substr(i, std::min(sep, in.size()) - i);
     const std::string part = in.substr(i, end - i);
+    // an empty name is only significant as the root of an absolute path
+    const bool is_first = i == 0;
     i = end;
-    if (name == "." || (name.empty() && !parts.empty())) {
+    if (name == "." || (name.empty() && !is_first)) {
       continue;
     }
     if (name == ".." && !parts.empty()) {
-- 
2.43.0


From 57bd122e0242b534603d806571abc926884c95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 34/35] fix: strings that hold a zero byte are compared in full

---
 source/lib_vm/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 4cfc98a..b795f04 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -325,7 +325,7 @@ void thread_t::do_INS_EQ_() {
       r->is_a<val_type_string>()) {
     int32_t res = 0;
     if (l->strlen() == r->strlen()) {
-      if (strcmp(l->string(), r->string()) == 0) {
+      if (memcmp(l->string(), r->string(), l->strlen()) == 0) {
         res = 1;
       }
     }
-- 
2.43.0


From bf142d5c6afd36b3ea8b8c1e37e69b01dee99d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 35/35] fix: disassembling a byte that is no opcode does not
 read past it

---
 source/lib_compiler/disassembler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_compiler/disassembler.cpp b/source/lib_compiler/disassembler.cpp
index 9434602..8d37729 100644
--- a/source/lib_compiler/disassembler.cpp
+++ b/source/lib_compiler/disassembler.cpp
@@ -54,6 +54,11 @@ int32_t disassembler_t::disasm(const uint8_t *ptr, std::string &out) const {
 
   out.clear();
 
+  // not an instruction so there are no operands to read either
+  if (op >= __INS_COUNT__) {
+    return 0;
+  }
+
   // instructions with no operand
   switch (op) {
   case INS_ADD:
-- 
2.43.0

