From c0eb75e8d4ac01bb39f1e43d7861aa081ef657d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 01/42] fix: looking ahead at an invalid token leaves the
 reading position unchanged

---
 ruruby-parse/src/parser/lexer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index bc4db3d..75dbfc2 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -132,8 +132,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -143,14 +144,16 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
+        let mut res;
         loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+            res = self.read_token();
+            match &res {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                _ => break,
             }
         }
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From bd2ec1bd51e6ad6905ce7c23a35264bdd1fa8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 02/42] fix: backtracking in the parser discards lookahead read
 from the abandoned position

---
 ruruby-parse/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 4413d50..8ca8714 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -87,6 +87,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        self.lexer.flush();
     }
 
     fn context_mut(&mut self) -> &mut ParseContext {
-- 
2.43.0


From b4df3ab496c47674002473fd8d8bbd0dae2d5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 03/42] fix: Enumerator#inspect shows the enumerator's own
 arguments

---
 ruruby/src/builtin/enumerator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index 46d2a43..ec71a50 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -55,9 +55,9 @@ fn inspect(vm: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
     let arg_string = {
         match args.len() {
             0 => "".to_string(),
-            1 => format!(" {:?}", vm[0]),
+            1 => format!(" {:?}", args[0]),
             _ => {
-                let mut s = format!(" {:?}", vm[0]);
+                let mut s = format!(" {:?}", args[0]);
                 for i in 1..args.len() {
                     s = format!("{},{:?}", s, args[i]);
                 }
-- 
2.43.0


From 25be0fa3edee7d8b706d1bd54d31226c46d51f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 04/42] fix: fixnum shifts keep every bit

---
 ruruby/src/arith.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index f77d14d..f084ac7 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -251,7 +251,7 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shr(rhs as u32) {
             Some(i) => Value::integer(i),
-            None => Value::integer(0),
+            None => Value::integer(if lhs < 0 { -1 } else { 0 }),
         }
     } else {
         Value::bignum(lhs.to_bigint().unwrap() >> rhs)
@@ -262,8 +262,8 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
 fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shl(rhs as u32) {
-            Some(i) => Value::integer(i),
-            None => {
+            Some(i) if i >> rhs == lhs => Value::integer(i),
+            _ => {
                 let n = lhs.to_bigint().unwrap() << rhs;
                 Value::bignum(n)
             }
-- 
2.43.0


From d96ddaa9e780c85c8880cbbf4528a169a2ed0d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 05/42] fix: attribute writer on an immediate receiver raises

---
 ruruby/src/vm/executor/method.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 3cb765a..a162df9 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -591,7 +591,11 @@ impl VM {
                 oref.set_var(id, val);
                 Ok(val)
             }
-            None => unreachable!("AttrReader must be used only for class instance."),
+            None => Err(RubyError::runtime(format!(
+                "can't modify frozen {}: {:?}",
+                self_val.get_class_name(),
+                self_val
+            ))),
         }
     }
 }
-- 
2.43.0


From f8356e34f51d0960c0e023d3aba19253ec4829a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 06/42] fix: including, prepending and autoload registration
 invalidate cached constants

---
 ruruby/src/builtin/module.rs    | 1 +
 ruruby/src/globals/constants.rs | 5 +++++
 ruruby/src/value/class.rs       | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 5179616..0a90ff1 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -197,6 +197,7 @@ fn autoload(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let feature = arg1.expect_string("2nd")?.to_string();
     let mut parent = Module::new(self_val);
     parent.set_autoload(const_name, feature);
+    vm.globals.inc_const_version();
     Ok(Value::nil())
 }
 
diff --git a/ruruby/src/globals/constants.rs b/ruruby/src/globals/constants.rs
index 70e8e3d..4a33c66 100644
--- a/ruruby/src/globals/constants.rs
+++ b/ruruby/src/globals/constants.rs
@@ -26,6 +26,11 @@ impl Globals {
         self.const_version += 1;
     }
 
+    /// Invalidate all entries of inline constant cache.
+    pub(crate) fn inc_const_version(&mut self) {
+        self.const_version += 1;
+    }
+
     /// Search inline constant cache for `slot`.
     ///
     /// Return None if not found.
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 7ed55b9..8d93f02 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -479,6 +479,7 @@ impl ClassInfo {
     pub(crate) fn append_include(&mut self, globals: &mut Globals, module: Module) {
         self.append_include_without_increment_version(module);
         globals.methods.inc_class_version();
+        globals.inc_const_version();
     }
 
     pub(crate) fn append_include_without_increment_version(&mut self, mut module: Module) {
@@ -525,6 +526,7 @@ impl ClassInfo {
             imodule.upper = superclass;
         }
         globals.methods.inc_class_version();
+        globals.inc_const_version();
     }
 
     #[inline(always)]
-- 
2.43.0


From 0521f371c9cada694683c410e46ac407dec5e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 07/42] fix: an unqualified constant is looked up from its
 definition scope, not from the receiver's class

---
 ruruby/src/vm/executor/constants.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index de74462..f84ad37 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -49,8 +49,10 @@ impl VM {
         match self.get_lexical_const(id)? {
             Some(v) => Ok(v),
             None => {
-                let self_val = self.self_value();
-                let class = self.globals.get_class(self_val);
+                let class = match self.get_method_iseq().class_defined.last() {
+                    Some(class) => *class,
+                    None => self.globals.classes.object,
+                };
                 self.get_super_const(class, id)
             }
         }
-- 
2.43.0


From 2e7b0057052ed451dc1777873cd3ea3c385c1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 08/42] fix: changing the definition scope of a body
 invalidates cached constants

---
 ruruby/src/builtin/module.rs       | 2 ++
 ruruby/src/vm/executor/opt_core.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 0a90ff1..db479e1 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -444,9 +444,11 @@ fn module_eval(vm: &mut VM, self_value: Value, args: &Args2) -> VMResult {
             // The scopes of constants and class variables are same as module definition of `self_val`.
             let mut iseq = vm.caller_method_iseq();
             iseq.class_defined.push(self_val);
+            vm.globals.inc_const_version();
             let res =
                 vm.eval_block_with_methodid(method, self_val, vm.caller_cfp().ep(), &Args::new0());
             iseq.class_defined.pop().unwrap();
+            vm.globals.inc_const_version();
             res
         }
         Some(block) => {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index cad91fd..bffa13a 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -511,6 +511,7 @@ impl VM {
                         let val = self.define_class(base, id, is_module, super_val)?;
                         let mut iseq = self.globals.methods[method].as_iseq();
                         iseq.class_defined = self.get_class_defined(val);
+                        self.globals.inc_const_version();
                         debug_assert!(iseq.is_classdef());
                         self.stack_push(val.into());
                         dispatch!(self.invoke_method(method, &Args2::new(0), true), true);
@@ -520,6 +521,7 @@ impl VM {
                         let singleton = self.stack_pop().get_singleton_class()?;
                         let mut iseq = self.globals.methods[method].as_iseq();
                         iseq.class_defined = self.get_class_defined(singleton);
+                        self.globals.inc_const_version();
                         debug_assert!(iseq.is_classdef());
                         self.stack_push(singleton.into());
                         dispatch!(self.invoke_method(method, &Args2::new(0), true), true);
@@ -529,6 +531,7 @@ impl VM {
                         let method = self.pc.read_method().unwrap();
                         let mut iseq = self.globals.methods[method].as_iseq();
                         iseq.class_defined = self.get_method_iseq().class_defined.clone();
+                        self.globals.inc_const_version();
                         //let self_value = self.self_value();
                         self.define_method(self_val, id, method);
                         if self.is_module_function() {
@@ -540,6 +543,7 @@ impl VM {
                         let method = self.pc.read_method().unwrap();
                         let mut iseq = self.globals.methods[method].as_iseq();
                         iseq.class_defined = self.get_method_iseq().class_defined.clone();
+                        self.globals.inc_const_version();
                         let singleton = self.stack_pop();
                         self.define_singleton_method(singleton, id, method)?;
                         if self.is_module_function() {
-- 
2.43.0


From e2f58f72a35b3ae75e8243285b7dfca513a16b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 09/42] fix: GC did not trace the owner of Method and
 UnboundMethod objects

---
 ruruby/src/globals/method.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 7de7f9a..e81b9ce 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -621,5 +621,6 @@ impl GC<RValue> for MethodObjInfo {
         if let Some(rec) = self.receiver {
             rec.mark(alloc);
         }
+        self.owner.mark(alloc);
     }
 }
-- 
2.43.0


From c01c90316f7d83fe8a8d1da1dab0bd882c5c24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 10/42] fix: GC did not trace the self and the block of
 captured environments

---
 ruruby/src/vm/executor.rs       | 7 ++-----
 ruruby/src/vm/executor/frame.rs | 4 ++++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ba546b4..b477df1 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -77,11 +77,8 @@ impl GC<RValue> for VM {
             if f.is_ruby_func() {
                 let ep = f.ep();
                 if self.check_boundary(ep.as_ptr()).is_none() {
-                    ep.locals().iter().for_each(|v| {
-                        v.mark(alloc);
-                    });
-                }
-                if let Some(d) = ep.outer() {
+                    ep.mark(alloc);
+                } else if let Some(d) = ep.outer() {
                     d.mark(alloc)
                 }
             };
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 0fa344d..8128e30 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -237,7 +237,11 @@ impl ruruby_parse::parser::LocalsContext for EnvFrame {
 impl GC<RValue> for EnvFrame {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
         self.locals().iter().for_each(|v| v.mark(alloc));
+        self.self_value().mark(alloc);
         if self.is_ruby_func() {
+            if let Some(block) = self.block() {
+                block.mark(alloc)
+            }
             if let Some(d) = self.outer() {
                 d.mark(alloc)
             }
-- 
2.43.0


From 77a67d10f46c9b379a6d3d65c25cb56e4457a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 11/42] fix: GC did not trace the object a singleton class
 belongs to

---
 ruruby/src/value/class.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 8d93f02..b62bccf 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -329,6 +329,9 @@ impl GC<RValue> for ClassInfo {
         if let Some(module) = &self.ext.origin {
             module.mark(alloc)
         };
+        if let Some(target) = &self.ext.singleton_for {
+            target.mark(alloc)
+        };
     }
 }
 
-- 
2.43.0


From cef12e03b78cb5fd6fe76408077466492c59d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 12/42] fix: GC did not trace the receiver and arguments of an
 exhausted Enumerator

---
 ruruby/src/coroutine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index d3e4008..253b741 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -70,11 +70,11 @@ impl Drop for FiberContext {
 
 impl GC<RValue> for FiberContext {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
+        self.kind.mark(alloc);
         if self.state == FiberState::Dead {
             return;
         }
         self.vm.mark(alloc);
-        self.kind.mark(alloc);
     }
 }
 
-- 
2.43.0


From 7063e38d5556e14318ca7154189820d3341761ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 13/42] fix: GC did not trace the lexical scopes that method
 bodies resolve constants in

---
 ruruby/src/globals.rs        | 1 +
 ruruby/src/globals/method.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 27e13a7..33e76d5 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -48,6 +48,7 @@ impl GC<RValue> for Globals {
             vm.mark(alloc);
         }
         self.val.mark(alloc);
+        self.methods.mark(alloc);
     }
 }
 
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index e81b9ce..eacc591 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -14,6 +14,12 @@ pub struct MethodRepo {
     perf: MethodPerf,
 }
 
+impl GC<RValue> for MethodRepo {
+    fn mark(&self, alloc: &mut Allocator<RValue>) {
+        self.table.iter().for_each(|info| info.mark(alloc));
+    }
+}
+
 impl std::ops::Index<FnId> for MethodRepo {
     type Output = MethodInfo;
     #[inline(always)]
-- 
2.43.0


From 03d1afb45ce778c1e4edd9cda39b5de84d79af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 14/42] fix: GC did not trace built-in classes whose constants
 were reassigned

---
 ruruby/src/builtin.rs | 22 ++++++++++++++++++++++
 ruruby/src/globals.rs |  1 +
 2 files changed, 23 insertions(+)

diff --git a/ruruby/src/builtin.rs b/ruruby/src/builtin.rs
index ec534f5..5a2643b 100644
--- a/ruruby/src/builtin.rs
+++ b/ruruby/src/builtin.rs
@@ -165,6 +165,12 @@ impl BuiltinClass {
         init!(math, dir, process, gc, structobj, time);
     }
 
+    /// Mark all built-in classes, which must survive even if the constants bound to them were reassigned.
+    pub(crate) fn mark_all(alloc: &mut Allocator<RValue>) {
+        ESSENTIALS.with(|m| m.borrow().mark(alloc));
+        BUILTINS.with(|m| m.borrow().mark(alloc));
+    }
+
     pub(crate) fn object() -> Module {
         ESSENTIALS.with(|m| m.borrow().object)
     }
@@ -272,10 +278,26 @@ impl BuiltinClass {
 
 impl GC<RValue> for EssentialClass {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
+        self.class.mark(alloc);
+        self.module.mark(alloc);
         self.object.mark(alloc);
     }
 }
 
+impl GC<RValue> for BuiltinClass {
+    fn mark(&self, alloc: &mut Allocator<RValue>) {
+        macro_rules! mark {
+            ($($class:ident),*) => {$(
+                self.$class.mark(alloc);
+            )*}
+        }
+        mark!(integer, float, complex, array, symbol, procobj, method);
+        mark!(unbound_method, range, hash, regexp, string, fiber);
+        mark!(enumerator, exception, binding, standard, nilclass);
+        mark!(trueclass, falseclass, kernel, comparable, numeric);
+    }
+}
+
 use std::path::PathBuf;
 
 #[cfg(not(windows))]
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 33e76d5..8cb6b05 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -49,6 +49,7 @@ impl GC<RValue> for Globals {
         }
         self.val.mark(alloc);
         self.methods.mark(alloc);
+        BuiltinClass::mark_all(alloc);
     }
 }
 
-- 
2.43.0


From b65d1de54033f120bfb8e0ea5ec18db12c97e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:45 +0000
Subject: [PATCH 15/42] fix: == with a user-defined method depended on whether
 the right operand was a literal

---
 ruruby/src/builtin/complex.rs |  2 +-
 ruruby/src/vm/executor/ops.rs | 19 ++++++++-----------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index 61c28e4..ccbd5c7 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -86,7 +86,7 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let (r1, i1) = self_val.to_complex().unwrap();
     let (r2, i2) = match vm[0].to_complex() {
         Some(t) => t,
-        None => return Err(RubyError::typeerr("Not a real.")),
+        None => return Ok(Value::false_val()),
     };
     let b = r1 == r2 && i1 == i2;
     Ok(Value::bool(b))
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 8afa8e2..8dc5b3b 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -373,12 +373,16 @@ impl VM {
                 return Ok(rhsi as f64 == lhsf);
             }
         }
-        if rhs.is_packed_value() || lhs.is_packed_value() {
-            return Ok(lhs.id() == rhs.id());
-        }
         if lhs.id() == rhs.id() {
             return Ok(true);
         };
+        if lhs.is_packed_value() {
+            return Ok(false);
+        }
+        if rhs.is_packed_value() {
+            let v = self.eval_send1(IdentId::_EQ, lhs, rhs)?;
+            return Ok(v.to_bool());
+        }
         let (lhsr, rhsr) = (lhs.rvalue(), rhs.rvalue());
         match (lhsr.kind(), rhsr.kind()) {
             (ObjKind::BIGNUM, ObjKind::BIGNUM) => Ok(*lhsr.bignum() == *rhsr.bignum()),
@@ -456,14 +460,7 @@ impl VM {
         } else if let Some(lhsf) = lhs.as_flonum() {
             lhsf == i as f64
         } else {
-            match lhs.unpack() {
-                RV::Integer(lhs) => lhs == i as i64,
-                RV::Float(lhs) => lhs == i as f64,
-                _ => {
-                    let v = self.eval_send1(IdentId::_EQ, lhs, Value::integer(i as i64))?;
-                    return Ok(v.to_bool());
-                }
-            }
+            return self.eval_eq2(Value::integer(i as i64), lhs);
         };
 
         Ok(res)
-- 
2.43.0


From 4845773d322784c6e44e62a747731862edbec82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 16/42] fix: exceptions raised by a user-defined == were
 replaced by false

---
 ruruby/src/vm/executor/ops.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 8dc5b3b..b60d5b0 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -429,10 +429,10 @@ impl VM {
                     rhs.rvalue()
                 )))
             }
-            (_, _) => match self.eval_send1(IdentId::_EQ, lhs, rhs) {
-                Ok(v) => Ok(v.to_bool()),
-                _ => Ok(false),
-            },
+            (_, _) => {
+                let v = self.eval_send1(IdentId::_EQ, lhs, rhs)?;
+                Ok(v.to_bool())
+            }
         }
     }
 
-- 
2.43.0


From 562690c8cc222d756b96f5e0e3e437bdbfb9eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 17/42] fix: bits above 63 of a negative Integer were 0

---
 ruruby/src/builtin/integer.rs | 14 ++++++++------
 ruruby/src/vm/executor/ops.rs |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index e2cf4b6..4764874 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -165,19 +165,21 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     if let Some(i) = self_val.as_fixnum() {
-        if vm[0].as_bignum().is_some() {
-            return Ok(Value::integer(0));
+        if let Some(index) = vm[0].as_bignum() {
+            let val = index.is_positive() && i < 0;
+            return Ok(Value::integer(val as i64));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
-        let val = if index < 0 || 63 < index {
+        let val = if index < 0 {
             0
         } else {
-            (i >> index) & 1
+            (i >> std::cmp::min(index, 63)) & 1
         };
         Ok(Value::integer(val))
     } else if let Some(i) = self_val.as_bignum() {
-        if vm[0].as_bignum().is_some() {
-            return Ok(Value::integer(0));
+        if let Some(index) = vm[0].as_bignum() {
+            let val = index.is_positive() && i.is_negative();
+            return Ok(Value::integer(val as i64));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
         let val = if index < 0 {
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index b60d5b0..f524b1e 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -585,7 +585,7 @@ impl VM {
             },
             None => {
                 if let Some(i) = receiver.as_fixnum() {
-                    let val = if 63 < idx { 0 } else { (i >> idx) & 1 };
+                    let val = (i >> std::cmp::min(idx, 63)) & 1;
                     return Ok(VMResKind::Return(Value::integer(val)));
                 }
             }
-- 
2.43.0


From 06fe7d0c2ea4173c594229a08c2613216800c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 18/42] fix: indexing an Integer or Method with a literal
 bypassed a redefined [] that other indices called

---
 ruruby/src/vm/executor/ops.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index f524b1e..a0e3825 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -551,8 +551,24 @@ impl VM {
                     let val = oref.rhash().get(&idx).cloned().unwrap_or_default();
                     return Ok(VMResKind::Return(val));
                 }
+                ObjKind::METHOD => {
+                    let mref = oref.method();
+                    if let Some(recv) = mref.receiver {
+                        self.stack_push(recv);
+                        self.stack_push(idx);
+                        let args = Args2::new(1);
+                        return self.invoke_method(mref.method, &args, true);
+                    }
+                }
                 _ => {}
             }
+        } else if let (Some(i), Some(idx)) = (receiver.as_fixnum(), idx.as_fixnum()) {
+            let val = if idx < 0 {
+                0
+            } else {
+                (i >> std::cmp::min(idx, 63)) & 1
+            };
+            return Ok(VMResKind::Return(Value::integer(val)));
         };
         self.invoke_send1(IdentId::_INDEX, receiver, idx)
     }
-- 
2.43.0


From 5e9277144988dce722ccb9b14cdb1e343d1cbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 19/42] fix: hashes equal up to the order of their entries have
 equal hash values, eql? compares their values by eql?

---
 ruruby/src/value/hash.rs   | 40 ++++++++++++++++++++++++++++++++------
 ruruby/src/value/rvalue.rs |  2 +-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 4ffff35..2c82dd8 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[derive(Debug, Clone)]
@@ -10,25 +10,53 @@ pub enum HashInfo {
 
 impl Hash for HashInfo {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // The order of entries does not matter for equality, so it must not matter here.
+        fn entry_hash(key: impl Hash, val: &Value) -> u64 {
+            let mut hasher = fxhash::FxHasher::default();
+            key.hash(&mut hasher);
+            val.hash(&mut hasher);
+            hasher.finish()
+        }
+        let mut sum: u64 = 0;
         match self {
             HashInfo::Map(h) => {
                 for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
+                    sum = sum.wrapping_add(entry_hash(key, val));
                 }
             }
             HashInfo::IdentMap(h) => {
                 for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
+                    sum = sum.wrapping_add(entry_hash(key, val));
                 }
             }
         }
+        sum.hash(state);
     }
 }
 
-impl PartialEq for HashInfo {
+impl HashInfo {
     // This type of equality is used for comparison for keys of Hash.
+    pub(crate) fn eql(&self, other: &Self) -> bool {
+        match (self, other) {
+            (HashInfo::Map(map1), HashInfo::Map(map2)) => {
+                map1.len() == map2.len()
+                    && map1
+                        .iter()
+                        .all(|(k, v)| map2.get(k).map_or(false, |v2| v.eql(v2)))
+            }
+            (HashInfo::IdentMap(map1), HashInfo::IdentMap(map2)) => {
+                map1.len() == map2.len()
+                    && map1
+                        .iter()
+                        .all(|(k, v)| map2.get(k).map_or(false, |v2| v.eql(v2)))
+            }
+            _ => false,
+        }
+    }
+}
+
+impl PartialEq for HashInfo {
+    // Hash#==()
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (HashInfo::Map(map1), HashInfo::Map(map2)) => map1 == map2,
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 705b7c5..07e9ca6 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -435,7 +435,7 @@ impl RValue {
                 })
             }
             (ObjKind::RANGE, ObjKind::RANGE) => self.range().eql(&other.range()),
-            (ObjKind::HASH, ObjKind::HASH) => *self.rhash() == *other.rhash(),
+            (ObjKind::HASH, ObjKind::HASH) => self.rhash().eql(&other.rhash()),
             (ObjKind::METHOD, ObjKind::METHOD) => *self.method() == *other.method(),
             (ObjKind::UNBOUND_METHOD, ObjKind::UNBOUND_METHOD) => *self.method() == *other.method(),
             (ObjKind::INVALID, _) => panic!("Invalid rvalue. (maybe GC problem) {:?}", self),
-- 
2.43.0


From 06472c4f70af3271958be1b4d8e4c860994b3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 20/42] fix: equal Method objects have equal hash values (owner
 is part of both)

---
 ruruby/src/globals/method.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index eacc591..92f27c6 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -595,6 +595,7 @@ impl PartialEq for MethodObjInfo {
     fn eq(&self, other: &Self) -> bool {
         self.name == other.name
             && self.method == other.method
+            && self.owner == other.owner
             && match (self.receiver, other.receiver) {
                 (Some(r1), Some(r2)) => r1.id() == r2.id(),
                 _ => false,
-- 
2.43.0


From 4972da5b6a0031f252db3e9789c3f0153b4069d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:39 +0000
Subject: [PATCH 21/42] fix: strings that compare equal are the same hash key
 whatever their representation

---
 ruruby/src/value/string.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index 789dd5e..9e92711 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -5,7 +5,7 @@ pub type SmallString = ArrayString<31>;
 
 const SMALL_STRING_CAPACITY: usize = 31;
 
-#[derive(Clone, PartialEq, Hash)]
+#[derive(Clone)]
 pub enum RString {
     Str(String),
     SmallStr(SmallString),
@@ -281,12 +281,15 @@ impl RString {
     }
 }
 
-/*impl std::hash::Hash for RString {
+// Equality and hash depend only on the contents, not on the representation.
+impl PartialEq for RString {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_bytes() == other.as_bytes()
+    }
+}
+
+impl std::hash::Hash for RString {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        match self {
-            RString::Str(s) => s.hash(state),
-            RString::SmallStr(s) => s.hash(state),
-            RString::Bytes(b) => b.hash(state),
-        };
+        self.as_bytes().hash(state);
     }
-}*/
+}
-- 
2.43.0


From ec7fa655724e6bdd35d644e00a9bec3a762c0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 22/42] fix: a Float outside the Integer range is no longer
 silently saturated

Value::coerce_to_fixnum() turned 1e30, Float::INFINITY and NAN into i64::MAX or
0, so that an index or count was silently wrong and 1.upto(1e30) aborted on
an overflow. Raise RangeError, and let iteration limits stop at the outermost
Fixnum.
---
 ruruby/src/builtin/integer.rs |  6 +++---
 ruruby/src/builtin/range.rs   |  8 ++++----
 ruruby/src/value/value.rs     | 18 +++++++++++++++++-
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 4764874..4aaf16b 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -371,7 +371,7 @@ fn upto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let num = self_val.as_fixnum().unwrap();
-    let max = vm[0].coerce_to_fixnum("Arg")?;
+    let max = vm[0].coerce_to_limit("Arg")?;
     if num <= max {
         let iter = (num..max + 1).map(|i| Value::integer(i));
         vm.eval_block_each1_iter(block, iter, self_val)
@@ -395,7 +395,7 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let num = self_val.as_fixnum().unwrap();
-    let min = vm[0].coerce_to_fixnum("Arg")?;
+    let min = vm[0].coerce_to_limit("Arg")?;
     if num >= min {
         let iter = (min..num + 1).rev().map(|i| Value::integer(i));
         //Ok(self_val)
@@ -454,7 +454,7 @@ fn step(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let cur = self_val.as_fixnum().unwrap();
-    let limit = vm[0].coerce_to_fixnum("Limit")?;
+    let limit = vm[0].coerce_to_limit("Limit")?;
     let step = if args.len() == 2 {
         let step = vm[1].coerce_to_fixnum("Step")?;
         if step == 0 {
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 83289b5..1f5d833 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -139,7 +139,7 @@ fn map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
     let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let end = range.end.coerce_to_limit("End")? + if range.exclude { 0 } else { 1 };
     let res = vm.eval_block_map1_iter(block, (start..end).map(|i| Value::integer(i)))?;
     Ok(res)
 }
@@ -149,7 +149,7 @@ fn flat_map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
     let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let end = range.end.coerce_to_limit("End")? + if range.exclude { 0 } else { 1 };
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
     for i in start..end {
@@ -178,7 +178,7 @@ fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let end = range.end.coerce_to_limit("End")? + if range.exclude { 0 } else { 1 };
 
     let iter = (start..end).map(|i| Value::integer(i));
     vm.eval_block_each1_iter(block, iter, self_val)
@@ -189,7 +189,7 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
     let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let end = range.end.coerce_to_limit("End")? + if range.exclude { 0 } else { 1 };
     let f = vm.eval_block_map1(block);
     for i in start..end {
         let res = f(vm, Value::integer(i))?;
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 368eca1..a8911d2 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -565,11 +565,24 @@ impl Value {
     pub(crate) fn coerce_to_fixnum(&self, _msg: &str) -> Result<i64, RubyError> {
         match self.unpack() {
             RV::Integer(i) => Ok(i),
-            RV::Float(f) => Ok(f.trunc() as i64),
+            RV::Float(f) => match f.trunc().to_i64() {
+                Some(i) if Value::is_i63(i) => Ok(i),
+                _ => Err(RubyError::range(format!("Float {} out of range.", f))),
+            },
             _ => Err(VMError::cant_coerse(*self, "Fixnum")),
         }
     }
 
+    /// The limit of an iteration over Integers.
+    /// A Float limit which no Fixnum reaches is as good as the outermost Fixnum.
+    pub(crate) fn coerce_to_limit(&self, msg: &str) -> Result<i64, RubyError> {
+        match self.unpack() {
+            RV::Float(f) if f >= Self::FIXNUM_MAX as f64 => Ok(Self::FIXNUM_MAX),
+            RV::Float(f) if f <= Self::FIXNUM_MIN as f64 => Ok(Self::FIXNUM_MIN),
+            _ => self.coerce_to_fixnum(msg),
+        }
+    }
+
     pub(crate) fn as_bignum(&self) -> Option<&BigInt> {
         match self.as_rvalue() {
             Some(info) => match info.kind() {
@@ -1012,6 +1025,9 @@ impl Value {
         Value::from((num << 1) as u64 | 0b1)
     }
 
+    pub(crate) const FIXNUM_MAX: i64 = i64::MAX >> 1;
+    pub(crate) const FIXNUM_MIN: i64 = i64::MIN >> 1;
+
     #[inline(always)]
     pub(crate) fn is_i63(num: i64) -> bool {
         let top = (num as u64) >> 62 ^ (num as u64) >> 63;
-- 
2.43.0


From 42c16bf37df25590dc6ab4ee6634eb38e777440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 23/42] fix: Integer#div with integers is exact

(2**62 + 1).div(1) went through a Float and lost its low bits.
---
 ruruby/src/value/real.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index f36f96a..ebbbf22 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -57,6 +57,10 @@ impl Real {
     }
 
     pub(crate) fn quotient(self, other: Self) -> Self {
+        match (&self, &other) {
+            (Real::Float(_), _) | (_, Real::Float(_)) => {}
+            _ => return self / other,
+        }
         let quo = (self.to_f64() / other.to_f64()).floor();
         match ToPrimitive::to_i64(&quo) {
             Some(i) => Real::Integer(i),
@@ -131,7 +135,10 @@ impl Div for Real {
             (Real::Bignum(n1), Real::Integer(i2)) => Real::integer(n1.div_floor(&BigInt::from(i2))),
             (Real::Bignum(n1), Real::Float(f2)) => Real::Float(n1.to_f64().unwrap() / f2),
             (Real::Integer(i1), Real::Bignum(n2)) => Real::integer(BigInt::from(i1).div_floor(&n2)),
-            (Real::Integer(i1), Real::Integer(i2)) => Real::Integer(i1.div_floor(i2)),
+            (Real::Integer(i1), Real::Integer(i2)) => match (i1, i2) {
+                (i64::MIN, -1) => Real::Bignum(-BigInt::from(i1)),
+                _ => Real::Integer(Integer::div_floor(&i1, &i2)),
+            },
             (Real::Integer(i1), Real::Float(f2)) => Real::Float(i1 as f64 / f2),
             (Real::Float(f1), Real::Bignum(n2)) => Real::Float(f1 / n2.to_f64().unwrap()),
             (Real::Float(f1), Real::Integer(i2)) => Real::Float(f1 / i2 as f64),
-- 
2.43.0


From c1616c8cb6f554d007e34dfb12c10c2d63dc6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 24/42] fix: dividing a Complex by an integer zero raises
 ZeroDivisionError

Complex(1, 2) / 0 aborted the interpreter.
---
 ruruby/src/builtin/complex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index ccbd5c7..82fe257 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -76,6 +76,9 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::typeerr("Not a real.")),
     };
     let abs2 = r2.clone().exp2() + i2.clone().exp2();
+    if let Real::Integer(0) = abs2 {
+        return Err(RubyError::zero_div("Divided by zero."));
+    }
     let r = (r2.clone() * r1.clone() + i2.clone() * i1.clone()) / abs2.clone();
     let i = (r2 * i1 - r1 * i2) / abs2;
     Ok(Value::complex(r.into_val(), i.into_val()))
-- 
2.43.0


From 08d122f4a9b57013b74f9c9d88526b13fa117405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 25/42] fix: Integer#bit_length of an arbitrary-precision
 integer

The number of bits was computed in 32 bits, and was off by one or overflowed
for values whose length is a multiple of 64 bits.
---
 ruruby/src/builtin/integer.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 4aaf16b..532357a 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -504,23 +504,20 @@ fn bit_length(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let bits = if let Some(i) = self_val.as_fixnum() {
         if i >= 0 {
-            64 - i.leading_zeros()
+            (64 - i.leading_zeros()) as i64
         } else {
-            64 - i.leading_ones()
+            (64 - i.leading_ones()) as i64
         }
     } else if let Some(b) = self_val.as_bignum() {
-        let all = ((b.bits() + 63) / 64 * 64) as usize;
-        let lead = if !b.is_negative() {
-            (0..all).into_iter().find(|x| b.bit((all - *x) as u64))
+        if b.is_negative() {
+            (!b).bits() as i64
         } else {
-            (0..all).into_iter().find(|x| !b.bit((all - *x) as u64))
+            b.bits() as i64
         }
-        .unwrap_or(all) as u32;
-        all as u32 - lead + 1
     } else {
         unreachable!()
     };
-    Ok(Value::integer(bits as i64))
+    Ok(Value::integer(bits))
 }
 
 #[test]
-- 
2.43.0


From ac04223195b237a3fce24b6b94de3e9d57fe84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 26/42] fix: String#<< with an integer above 255 or below 0

The code point was cut down to its lowest 8 bits.
---
 ruruby/src/builtin/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index dac6650..14573b1 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -264,7 +264,14 @@ fn concat(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Some(rhs) => lhs.append(rhs),
         None => match vm[0].as_fixnum() {
             Some(i) => {
-                let rhs = RString::Bytes(vec![i as i8 as u8]);
+                let rhs = match i {
+                    0..=0xff => RString::Bytes(vec![i as u8]),
+                    0..=0x10_ffff => match std::char::from_u32(i as u32) {
+                        Some(ch) => RString::from(ch.to_string()),
+                        None => return Err(RubyError::range("Invalid codepoint.")),
+                    },
+                    _ => return Err(RubyError::range(format!("{} out of char range.", i))),
+                };
                 lhs.append(&rhs);
             }
             None => return Err(RubyError::argument("Arg must be String or Integer.")),
-- 
2.43.0


From 0718356517d66e69a43d76f7d27138ba18a0f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 27/42] fix: String#[]= with a negative index or a length of
 zero

"abc"[0, 0] = "x" aborted the interpreter on an underflow, and a negative
index never counted from the end.
---
 ruruby/src/builtin/string.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 14573b1..5fa89f4 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -225,21 +225,25 @@ fn index_assign(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(2, 3)?;
     let string = self_val.as_mut_rstring().unwrap();
     let str_len = string.chars().count();
-    let start_pos = vm[0].coerce_to_fixnum("1st arg")? as usize;
+    let pos = vm[0].coerce_to_fixnum("1st arg")?;
     let (len, mut subst_val) = match args.len() {
-        2 => (0, vm[1]),
-        3 => (vm[1].coerce_to_fixnum("2nd arg")? as usize - 1, vm[2]),
+        2 => (1, vm[1]),
+        3 => (vm[1].coerce_to_fixnum("2nd arg")?, vm[2]),
         _ => unreachable!(),
     };
-    if start_pos >= str_len {
+    let start_pos = if pos < 0 { pos + str_len as i64 } else { pos };
+    if start_pos < 0 || start_pos >= str_len as i64 {
         return Err(RubyError::index(format!(
             "Index {:?} out of string.",
             vm[0]
         )));
     }
+    if len < 0 {
+        return Err(RubyError::index(format!("Negative length {}.", len)));
+    }
     let (start, end) = (
-        string.char_indices().nth(start_pos).unwrap().0,
-        match string.char_indices().nth(start_pos + len + 1) {
+        string.char_indices().nth(start_pos as usize).unwrap().0,
+        match string.char_indices().nth((start_pos + len) as usize) {
             Some((p, _)) => p,
             None => string.len(),
         },
-- 
2.43.0


From bc2d1c0f4873bbae41d3d22517ce59ffc5a1e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:24 +0000
Subject: [PATCH 28/42] fix: Time.utc rejects components which do not fit

Time.utc(2**32 + 2000) was taken for the year 2000.
---
 ruruby/src/builtin/time.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/time.rs b/ruruby/src/builtin/time.rs
index b37a988..305bae2 100644
--- a/ruruby/src/builtin/time.rs
+++ b/ruruby/src/builtin/time.rs
@@ -140,9 +140,12 @@ fn time_utc(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         ),
         _ => unreachable!(),
     };
-    let native_dt = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32)
+    fn small<T: std::convert::TryFrom<i64>>(i: i64) -> Result<T, RubyError> {
+        T::try_from(i).map_err(|_| RubyError::argument("Out of range."))
+    }
+    let native_dt = NaiveDate::from_ymd_opt(small(y)?, small(m)?, small(d)?)
         .ok_or_else(|| RubyError::argument("Out of range."))?
-        .and_hms_micro_opt(h as u32, min as u32, sec as u32, usec as u32)
+        .and_hms_micro_opt(small(h)?, small(min)?, small(sec)?, small(usec)?)
         .ok_or_else(|| RubyError::argument("Out of range."))?;
     let time = TimeInfo::UTC(DateTime::<Utc>::from_naive_utc_and_offset(native_dt, Utc));
     Ok(Value::time(Module::new(self_val), time))
-- 
2.43.0


From 0d10a21d97f13c8e6e3a247a74e1f07872f6d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:06 +0000
Subject: [PATCH 29/42] fix: conversions to Integer are exact

1e30.to_i, 1e30.floor and Integer(1e30) were 2**63-1, "99999999999999999999".to_i
was 0, and Integer(2**70) was refused.
---
 ruruby/src/builtin/float.rs  |  5 ++---
 ruruby/src/builtin/kernel.rs | 11 ++++++-----
 ruruby/src/builtin/string.rs |  6 +++---
 ruruby/src/value/value.rs    | 10 +++++++++-
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index d050653..a746ea2 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -89,7 +89,7 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn floor(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let lhs = self_val.as_float().unwrap();
-    Ok(Value::integer(lhs.floor() as i64))
+    Value::integer_from_f64(lhs.floor())
 }
 
 /// abs -> Float
@@ -104,8 +104,7 @@ fn abs(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn toi(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     //args.check_args_num( 1, 1)?;
-    let num = self_val.as_float().unwrap().trunc() as i64;
-    Ok(Value::integer(num))
+    Value::integer_from_f64(self_val.as_float().unwrap())
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 0d82b16..bdafa7b 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -324,11 +324,12 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let arg0 = vm[0];
     let val = match arg0.unpack() {
-        RV::Integer(num) => num,
-        RV::Float(num) => num as i64,
+        RV::Integer(num) => Value::integer(num),
+        RV::Float(num) => Value::integer_from_f64(num)?,
         RV::Object(obj) => match obj.kind() {
-            ObjKind::STRING => match obj.string().parse::<i64>() {
-                Some(num) => num,
+            ObjKind::BIGNUM => arg0,
+            ObjKind::STRING => match obj.string().parse::<num::BigInt>() {
+                Some(num) => Value::bignum(num),
                 None => {
                     let inspect = vm.val_inspect(arg0)?;
                     return Err(RubyError::argument(format!(
@@ -345,7 +346,7 @@ fn kernel_integer(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             return Err(VMError::no_implicit_conv(arg0, "Integer"));
         }
     };
-    Ok(Value::integer(val))
+    Ok(val)
 }
 
 fn kernel_complex(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 5fa89f4..694359b 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -968,11 +968,11 @@ fn toi(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Ok(s) => s,
         Err(_) => return Ok(Value::integer(0)),
     };
-    let i: i64 = match self_.parse() {
+    let i: num::BigInt = match self_.parse() {
         Ok(i) => i,
-        Err(_) => 0,
+        Err(_) => return Ok(Value::integer(0)),
     };
-    Ok(Value::integer(i))
+    Ok(Value::bignum(i))
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index a8911d2..dee75a3 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1,5 +1,5 @@
 use num::bigint::{Sign, ToBigInt};
-use num::{BigInt, ToPrimitive};
+use num::{BigInt, FromPrimitive, ToPrimitive};
 
 use crate::coroutine::*;
 use crate::*;
@@ -1042,6 +1042,14 @@ impl Value {
         }
     }
 
+    /// The Integer nearest to `f` in the direction of zero.
+    pub(crate) fn integer_from_f64(f: f64) -> VMResult {
+        match BigInt::from_f64(f) {
+            Some(num) => Ok(Value::bignum(num)),
+            None => Err(RubyError::range(format!("{} can not be an Integer.", f))),
+        }
+    }
+
     pub fn bignum(num: BigInt) -> Self {
         if let Some(i) = num.to_i64() {
             Value::integer(i)
-- 
2.43.0


From 2837226d1a849b9b6d7120d870f7971949fcd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 30/42] fix: shifting out all bits of a negative Integer leaves
 -1

-1 >> 2**70 was 0.
---
 ruruby/src/builtin/integer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 532357a..450d336 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -199,7 +199,7 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shr_fixnum(lhs, rhs),
-            None => shr_bignum(rhs),
+            None => shr_bignum(lhs < 0, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
@@ -210,18 +210,18 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Ok(Value::bignum(lhs << -rhs))
                 }
             }
-            None => shr_bignum(rhs),
+            None => shr_bignum(lhs.is_negative(), rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shr_bignum(rhs: Value) -> VMResult {
+fn shr_bignum(negative: bool, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if !rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(Value::integer(if negative { -1 } else { 0 }))
             } else {
                 Err(RubyError::runtime("Shift width too big"))
             }
@@ -236,7 +236,7 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shl_fixnum(lhs, rhs),
-            None => shl_bignum(rhs),
+            None => shl_bignum(lhs < 0, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
@@ -247,18 +247,18 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Ok(Value::bignum(lhs >> -rhs))
                 }
             }
-            None => shl_bignum(rhs),
+            None => shl_bignum(lhs.is_negative(), rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shl_bignum(rhs: Value) -> VMResult {
+fn shl_bignum(negative: bool, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(Value::integer(if negative { -1 } else { 0 }))
             } else {
                 Err(RubyError::runtime("Shift width too big"))
             }
-- 
2.43.0


From d93271e8c338fb1bc9a8e1f8704639ffc6bebadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 31/42] fix: Integer#digits stops at the last digit, not at the
 first zero

105.digits was [5], 100.digits was [0], and (2**70).digits aborted.
---
 ruruby/src/builtin/integer.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 450d336..6c2c528 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -811,22 +811,22 @@ fn digits(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     } else {
         match vm[0].coerce_to_fixnum("Arg")? {
             i if i < 0 => return Err(RubyError::argument("Negative radix.")),
-            0 => return Err(RubyError::argument("Invalid radix 0.")),
+            i if i < 2 => return Err(RubyError::argument(format!("Invalid radix {}.", i))),
             i => i,
         }
     };
     let mut ary = vec![];
-    let mut self_ = self_val.as_fixnum().unwrap();
-    if self_ < 0 {
+    let mut self_ = match self_val.as_fixnum() {
+        Some(i) => BigInt::from(i),
+        None => self_val.as_bignum().unwrap().clone(),
+    };
+    if self_.is_negative() {
         return Err(RubyError::math_domain("Out of domain."));
     }
-    loop {
-        let r = self_ % base;
-        self_ = self_ / base;
-        if r == 0 {
-            break;
-        }
-        ary.push(Value::integer(r));
+    while !self_.is_zero() {
+        let (quo, rem) = self_.div_rem(&BigInt::from(base));
+        self_ = quo;
+        ary.push(Value::bignum(rem));
     }
     if ary.len() == 0 {
         ary.push(Value::integer(0))
-- 
2.43.0


From 64133c3d9bd809a5773a78d5b33882abdbb22585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:41 +0000
Subject: [PATCH 32/42] fix: keep branches out of a method or class body from
 the loop around it

---
 ruruby/src/codegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index f6108ca..06a16f7 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -164,6 +164,8 @@ impl Codegen {
 
         self.context_stack
             .push(Context::from(lvar_collector.table.clone(), kind));
+        // Branches in this iseq must not be registered in a loop of the outer iseq.
+        self.loop_stack.push(LoopInfo::new_top());
         for (lvar_id, param) in param_list.into_iter().enumerate() {
             match param.kind {
                 ParamKind::Param(id) => {
@@ -214,6 +216,7 @@ impl Codegen {
             self.emit_set_local(&mut iseq, *id);
         });
         self.gen(globals, &mut iseq, node, use_value)?;
+        self.loop_stack.pop().unwrap();
         let context = self.context_stack.pop().unwrap();
 
         let iseq_sourcemap = context.iseq_sourcemap;
-- 
2.43.0


From 8fa94bc22dd85f90b3a542d251c4dba11b63196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 33/42] fix: discard the value of a non-local return when the
 caller does not use it

---
 ruruby/src/vm/executor.rs          | 11 +++++++----
 ruruby/src/vm/executor/opt_core.rs |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index b477df1..8be545e 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -397,23 +397,26 @@ impl VM {
                         }
                         RubyErrorKind::MethodReturn => {
                             // In the case of MethodReturn, returned value is to be saved in vm.globals.val.
-                            loop {
+                            let use_value = loop {
                                 if invoke_count == 0 {
                                     #[cfg(feature = "trace")]
                                     eprintln!("<+++ MethodReturn({:?})", self.globals.val);
                                     self.unwind_frame();
                                     return Err(err);
                                 };
+                                let use_value = !self.discard_val();
                                 self.unwind_frame();
                                 #[cfg(feature = "trace")]
                                 eprintln!("<--- MethodReturn({:?})", self.globals.val);
                                 invoke_count -= 1;
                                 if self.iseq.is_method() {
-                                    break;
+                                    break use_value;
                                 }
+                            };
+                            if use_value {
+                                let val = self.globals.val;
+                                self.stack_push(val);
                             }
-                            let val = self.globals.val;
-                            self.stack_push(val);
                             continue;
                         }
                         _ => {}
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index bffa13a..fe923cb 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -40,11 +40,14 @@ impl VM {
                                 if *invoke_count == 0 {
                                     return Ok(val);
                                 } else {
+                                    let use_value = !self.discard_val();
                                     self.unwind_frame();
                                     *invoke_count -= 1;
                                     #[cfg(feature = "trace")]
                                     eprintln!("<--- Ok({:?})", self.globals.val);
-                                    self.stack_push(val);
+                                    if use_value {
+                                        self.stack_push(val);
+                                    }
                                     break;
                                 }
                             }
-- 
2.43.0


From 9ae4a35bdb0775483f4c72855f76bd8177e8f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:23 +0000
Subject: [PATCH 34/42] fix: make break from a block leave the method that
 yielded to it

---
 ruruby/src/vm/executor/opt_core.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index fe923cb..15ddacd 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -140,17 +140,28 @@ impl VM {
                         debug_assert!(
                             self.kind() == ISeqKind::Block || self.kind() == ISeqKind::Other
                         );
-                        self.globals.val = self.stack_pop();
-                        self.unwind_frame();
-                        if *invoke_count == 0 {
-                            let err = RubyError::block_return();
-                            return Err(err);
-                        } else {
+                        let val = self.stack_pop();
+                        self.globals.val = val;
+                        // The frame which the block was given in.
+                        let home = self.cfp.ep().outer().map(|ep| ep.ep());
+                        loop {
+                            let use_value = !self.discard_val();
+                            self.unwind_frame();
+                            if *invoke_count == 0 {
+                                let err = RubyError::block_return();
+                                return Err(err);
+                            }
                             *invoke_count -= 1;
                             #[cfg(feature = "trace")]
-                            eprintln!("<--- BlockReturn({:?})", self.globals.val);
-                            break;
+                            eprintln!("<--- BlockReturn({:?})", val);
+                            if home.is_none() || home == Some(self.cfp.ep()) {
+                                if use_value {
+                                    self.stack_push(val);
+                                }
+                                break;
+                            }
                         }
+                        break;
                     }
                     Inst::MRETURN => {
                         // - `return` in block
-- 
2.43.0


From 76db0a6ccd44da42a5ee300ae45625f5b875db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:18 +0000
Subject: [PATCH 35/42] fix: resuming a fiber that is already running raises
 FiberError

---
 ruruby/src/coroutine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index 253b741..7d0ae4f 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -18,6 +18,7 @@ use stack::*;
 pub enum FiberState {
     Created,
     Running,
+    Suspended,
     Dead,
 }
 
@@ -106,6 +107,9 @@ impl FiberHandle {
                 #[cfg(feature = "trace")]
                 eprintln!("<=== yield Ok({:?})", val);
                 vm.globals.fiber_result = VMResult::Ok(val);
+                unsafe {
+                    (*handle.0).state = FiberState::Suspended;
+                }
                 asm::yield_context(handle.0);
                 let val = vm.stack_pop();
                 Ok(val)
@@ -177,7 +181,9 @@ impl FiberContext {
                 asm::invoke_context(ptr);
                 self.vm.globals.fiber_result.clone()
             }
-            FiberState::Running => {
+            FiberState::Running => Err(RubyError::fiber("Double resume.")),
+            FiberState::Suspended => {
+                self.state = FiberState::Running;
                 self.vm.stack_push(val);
                 asm::switch_context(ptr);
                 self.vm.globals.fiber_result.clone()
-- 
2.43.0


From c975310e39d73d55f7e591f61de12bfd24aca4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:53 +0000
Subject: [PATCH 36/42] fix: enforce the bounds of the value stack and raise
 SystemStackError when it is exhausted

---
 ruruby-common/src/error.rs                  |  6 +++++
 ruruby/src/builtin/exception.rs             |  3 +++
 ruruby/src/globals.rs                       |  4 +++
 ruruby/src/vm/executor.rs                   | 17 +++++++-----
 ruruby/src/vm/executor/frame.rs             | 11 ++++++++
 ruruby/src/vm/executor/frame/arg_handler.rs | 30 +++++++++++++--------
 ruruby/src/vm/executor/frame/ruby_stack.rs  | 21 ++++++++++++---
 ruruby/src/vm/executor/method.rs            | 21 +++++++++------
 ruruby/src/vm/executor/opt_core.rs          |  8 +++---
 9 files changed, 89 insertions(+), 32 deletions(-)

diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index 50e2006..e28f7ba 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -69,6 +69,7 @@ pub enum RuntimeErrKind {
     Range,
     ZeroDivision,
     DomainError,
+    SystemStack,
 }
 
 impl std::fmt::Debug for RuntimeErrKind {
@@ -88,6 +89,7 @@ impl std::fmt::Debug for RuntimeErrKind {
             Self::Range => write!(f, "RangeError"),
             Self::ZeroDivision => write!(f, "ZeroDivisionError"),
             Self::DomainError => write!(f, "Math::DomainError"),
+            Self::SystemStack => write!(f, "SystemStackError"),
         }
     }
 }
@@ -259,6 +261,10 @@ impl RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::ZeroDivision, msg.into())
     }
 
+    pub fn system_stack(msg: impl Into<String>) -> RubyError {
+        RubyError::new_runtime_err(RuntimeErrKind::SystemStack, msg.into())
+    }
+
     pub fn math_domain(msg: impl Into<String>) -> RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::DomainError, msg.into())
     }
diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index c2eef0b..ef0c810 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -67,6 +67,9 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(exception);
     globals.set_toplevel_constant("SystemExit", err);
 
+    let err = Module::class_under(exception);
+    globals.set_toplevel_constant("SystemStackError", err);
+
     exception.into()
 }
 
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 8cb6b05..d9c4b63 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -277,6 +277,10 @@ impl Globals {
                     let err_class = self.get_toplevel_constant("LocalJumpError").into_module();
                     Value::exception(err_class, err)
                 }
+                RuntimeErrKind::SystemStack => {
+                    let err_class = self.get_toplevel_constant("SystemStackError").into_module();
+                    Value::exception(err_class, err)
+                }
                 RuntimeErrKind::DomainError => {
                     let math = self.get_toplevel_constant("Math");
                     let err_class = math
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 8be545e..440b1b8 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -210,9 +210,10 @@ impl VM {
         self.stack.check_boundary(p)
     }
 
-    pub(crate) fn stack_push_args(&mut self, args: &Args) -> Args2 {
+    pub(crate) fn stack_push_args(&mut self, args: &Args) -> Result<Args2, RubyError> {
+        self.check_stack(args.len())?;
         self.stack.extend_from_slice(args);
-        Args2::from(args)
+        Ok(Args2::from(args))
     }
 
     // handling arguments
@@ -839,7 +840,7 @@ impl VM {
 
     /// Pop values and store them in new `Args`. `args_num` specifies the number of values to be popped.
     /// If there is some Array or Range with splat operator, break up the value and store each of them.
-    fn pop_args_to_args(&mut self, arg_num: usize) -> Args2 {
+    fn pop_args_to_args(&mut self, arg_num: usize) -> Result<Args2, RubyError> {
         let arg_start = self.stack.sp - arg_num;
         let mut p = arg_start;
         while p < self.stack.sp {
@@ -858,6 +859,7 @@ impl VM {
                             if ary_len == 0 {
                                 self.stack.remove(p);
                             } else {
+                                self.check_stack(ary_len)?;
                                 self.stack.grow(ary_len - 1);
                                 RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
                                 p[0..ary_len].copy_from_slice(&a[..]);
@@ -867,11 +869,12 @@ impl VM {
                         // TODO: should use `to_a` method.
                         ObjKind::RANGE => {
                             let r = &*obj.range();
-                            let start = r.start.coerce_to_fixnum("Expect Integer.").unwrap();
-                            let end = r.end.coerce_to_fixnum("Expect Integer.").unwrap()
+                            let start = r.start.coerce_to_fixnum("Expect Integer.")?;
+                            let end = r.end.coerce_to_fixnum("Expect Integer.")?
                                 + if r.exclude { 0 } else { 1 };
-                            if end >= start {
+                            if end > start {
                                 let ary_len = (end - start) as usize;
+                                self.check_stack(ary_len)?;
                                 self.stack.grow(ary_len - 1);
                                 RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
                                 for (idx, val) in (start..end).enumerate() {
@@ -892,7 +895,7 @@ impl VM {
             };
         }
         let len = (self.stack.sp - arg_start) as usize;
-        Args2::new(len)
+        Ok(Args2::new(len))
     }
 
     fn pop_args_to_array(&mut self, arg_num: usize) -> Value {
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 8128e30..2d2e23e 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -19,6 +19,8 @@ const EV_BLK: isize = 7;
 
 pub(super) const CONT_FRAME_LEN: usize = 3;
 pub(super) const RUBY_FRAME_LEN: usize = 5;
+/// Room to be left for the frame itself and its operands.
+const STACK_MARGIN: usize = 256;
 
 const FLG_NONE: u64 = 0b0000_0000;
 const FLG_DISCARD: u64 = 0b0000_0100;
@@ -680,6 +682,15 @@ impl VM {
             };
     }
 
+    /// Check whether there is enough room on the stack for a new frame with `local_len` local variables.
+    #[inline(always)]
+    pub(super) fn check_stack(&self, local_len: usize) -> Result<(), RubyError> {
+        if self.stack.remaining() < local_len + STACK_MARGIN {
+            return Err(RubyError::system_stack("stack level too deep"));
+        }
+        Ok(())
+    }
+
     fn push_control_frame(&mut self, prev_cfp: ControlFrame, ep: EnvFrame, flag: u64) {
         let f = control_frame(prev_cfp, ep, flag);
         self.stack.extend_from_slice(&f);
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index e5c8532..2df02e8 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -8,6 +8,7 @@ impl VM {
         outer: EnvFrame,
         use_value: bool,
     ) -> Result<(), RubyError> {
+        self.check_stack(iseq.lvars)?;
         // This is necessary to follow moving outer frame to heap during iteration.
         let outer = outer.ep();
         let base = self.sp() - args.len();
@@ -33,7 +34,7 @@ impl VM {
             (false, kw_flag)
         };
 
-        self.prepare_block_args(base, iseq);
+        self.prepare_block_args(base, iseq)?;
         self.fill_positional_arguments(base, iseq);
         // Handling keyword arguments and a keyword rest paramter.
         if params.kwrest || ordinary_kwarg {
@@ -63,6 +64,7 @@ impl VM {
         args: &Args2,
         use_value: bool,
     ) -> InvokeResult {
+        self.check_stack(iseq.lvars)?;
         let base_ptr = self.sp() - args.len();
         let params = &iseq.params;
         let kw_flag = !args.kw_arg.is_nil();
@@ -107,16 +109,17 @@ impl VM {
         args: &Args2,
         outer: EnvFrame,
         use_value: bool,
-    ) {
+    ) -> Result<(), RubyError> {
+        self.check_stack(iseq.lvars)?;
         // This is necessary to follow moving outer frame to heap during iteration.
         let outer = outer.ep();
         let base = self.sp() - args.len();
         let lvars = iseq.lvars;
-        self.prepare_block_args(base, iseq);
+        self.prepare_block_args(base, iseq)?;
         let args_len = (self.sp() - base) as usize;
         let req_len = iseq.params.req;
         if req_len < args_len {
-            self.stack.sp = base + req_len;
+            self.stack.resize_to(base + req_len);
         }
 
         self.stack.resize_to(base + lvars);
@@ -131,6 +134,7 @@ impl VM {
             local_len,
             base.as_lfp(),
         );
+        Ok(())
     }
 
     pub(crate) fn push_method_frame_fast(
@@ -139,6 +143,7 @@ impl VM {
         args: &Args2,
         use_value: bool,
     ) -> InvokeResult {
+        self.check_stack(iseq.lvars)?;
         let min = iseq.params.req;
         let len = args.len();
         if len != min {
@@ -152,22 +157,24 @@ impl VM {
 }
 
 impl VM {
-    fn prepare_block_args(&mut self, base: StackPtr, iseq: ISeqRef) {
+    fn prepare_block_args(&mut self, base: StackPtr, iseq: ISeqRef) -> Result<(), RubyError> {
         // if a single Array argument is given for the block requiring multiple formal parameters,
         // the arguments must be expanded.
         if self.sp() - base == 1 && iseq.mularg_flag {
             if let Some(ary) = base[0].as_array() {
+                self.check_stack(ary.len())?;
                 self.stack.pop();
                 self.stack.extend_from_slice(&**ary);
             }
         }
+        Ok(())
     }
 
     fn fill_positional_arguments(&mut self, mut base: StackPtr, iseq: ISeqRef) {
         let params = &iseq.params;
         let lvars = iseq.lvars;
-        let args_len = (self.sp() - base) as usize;
         let req_len = params.req;
+        let args_len = (self.sp() - base) as usize;
         let rest_len = if params.rest == Some(true) { 1 } else { 0 };
         let post_len = params.post;
         let no_post_len = args_len - post_len;
@@ -184,11 +191,12 @@ impl VM {
             }
             // fill post_req params.
             RubyStack::stack_copy_within(base, no_post_len..args_len, optreq_len + rest_len);
-            self.stack.sp = base
-                + optreq_len
-                + rest_len
-                + post_len
-                + if params.delegate.is_some() { 1 } else { 0 };
+            self.stack.resize_to(
+                base + optreq_len
+                    + rest_len
+                    + post_len
+                    + if params.delegate.is_some() { 1 } else { 0 },
+            );
             self.stack.resize_to(base + lvars);
         } else {
             self.stack.resize_to(base + lvars);
diff --git a/ruruby/src/vm/executor/frame/ruby_stack.rs b/ruruby/src/vm/executor/frame/ruby_stack.rs
index 599966c..8a67aff 100644
--- a/ruruby/src/vm/executor/frame/ruby_stack.rs
+++ b/ruruby/src/vm/executor/frame/ruby_stack.rs
@@ -61,12 +61,24 @@ impl RubyStack {
         len as usize
     }
 
+    /// Get the number of `Value`s that can still be pushed.
+    #[inline(always)]
+    pub(crate) fn remaining(&self) -> usize {
+        VM_STACK_SIZE - self.len()
+    }
+
+    /// Make sure that `len` more `Value`s can be pushed.
+    #[inline(always)]
+    fn reserve(&self, len: usize) {
+        assert!(len <= self.remaining(), "VM stack overflow.");
+    }
+
     /// Resize the stack so that len is equal to new_len.
     /// If new_len is greater than len, the stack is extended by the difference, with each additional slot filled with Nil.
     /// If new_len is less than len, the stack is simply truncated.
     pub(crate) fn resize_to(&mut self, new_sp: StackPtr) {
-        debug_assert!(new_sp <= self.sp + VM_STACK_SIZE);
         if new_sp > self.sp {
+            self.reserve((new_sp - self.sp) as usize);
             let mut p = self.sp;
             for _ in 0..(new_sp - self.sp) as usize {
                 p[0] = Value::nil();
@@ -78,7 +90,7 @@ impl RubyStack {
 
     #[inline(always)]
     pub(crate) fn grow(&mut self, offset: usize) {
-        debug_assert!(self.len() + offset <= VM_STACK_SIZE);
+        self.reserve(offset);
         for _ in 0..offset {
             self.sp[0] = Value::nil();
             self.sp += 1;
@@ -93,6 +105,7 @@ impl RubyStack {
     }
 
     pub(crate) fn insert(&mut self, mut p: StackPtr, element: Value) {
+        self.reserve(1);
         self.sp += 1;
         unsafe { std::ptr::copy(p.0, (p + 1).0, (self.sp - p - 1) as usize) };
         p[0] = element;
@@ -100,7 +113,7 @@ impl RubyStack {
 
     #[inline(always)]
     pub(crate) fn push(&mut self, val: Value) {
-        debug_assert!(self.len() != VM_STACK_SIZE);
+        self.reserve(1);
         self.sp[0] = val;
         self.sp += 1;
     }
@@ -134,11 +147,13 @@ impl RubyStack {
 
     pub(crate) fn extend_from_slice(&mut self, src: &[Value]) {
         let src_len = src.len();
+        self.reserve(src_len);
         self.sp[0..src_len].copy_from_slice(src);
         self.sp += src_len;
     }
 
     pub(crate) fn extend_from_within_ptr(&mut self, src: StackPtr, len: usize) {
+        self.reserve(len);
         let slice = &src[0..len];
         self.sp[0..len].copy_from_slice(slice);
         self.sp += len;
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index a162df9..5f04809 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -12,7 +12,7 @@ impl VM {
         args: &Args,
     ) -> VMResult {
         self.stack_push(receiver);
-        let args = self.stack_push_args(args);
+        let args = self.stack_push_args(args)?;
         self.invoke_send(method_name, receiver, &args, true)?
             .handle(self)
     }
@@ -32,6 +32,7 @@ impl VM {
 
     /// Evaluate the block with self_val of outer context, and given `args`.
     pub(crate) fn eval_block(&mut self, block: &Block, slice: &[Value]) -> VMResult {
+        self.check_stack(slice.len())?;
         match block {
             Block::Block(method, outer) => {
                 let outer = self.cfp_from_frame(*outer).ep();
@@ -79,7 +80,7 @@ impl VM {
     ) -> VMResult {
         let self_val = self_val.into();
         self.stack_push(self_val);
-        let args = self.stack_push_args(args);
+        let args = self.stack_push_args(args)?;
         self.invoke_block(method, outer, &args)?.handle(self)
     }
 
@@ -119,7 +120,7 @@ impl VM {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
-                        self.push_block_frame_fast(iseq, &args, outer, false);
+                        self.push_block_frame_fast(iseq, &args, outer, false)?;
                         self.run_loop()?;
                     }
                 } else {
@@ -174,7 +175,7 @@ impl VM {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
-                        self.push_block_frame_fast(iseq, &args, outer, false);
+                        self.push_block_frame_fast(iseq, &args, outer, false)?;
                         let res = self.run_loop()?;
                         self.temp_push(res);
                     }
@@ -233,7 +234,7 @@ impl VM {
                     Box::new(move |vm: &mut VM, v: Value| -> VMResult {
                         vm.stack_push(self_value);
                         vm.stack_push(v);
-                        vm.push_block_frame_fast(iseq, &args, outer, false);
+                        vm.push_block_frame_fast(iseq, &args, outer, false)?;
                         vm.run_loop()
                     })
                 } else {
@@ -261,7 +262,7 @@ impl VM {
             Block::Block(method, outer) => {
                 let outer = self.cfp_from_frame(*outer).ep();
                 self.stack_push(self_value);
-                let args = self.stack_push_args(args);
+                let args = self.stack_push_args(args)?;
                 self.invoke_block(*method, outer, &args)?.handle(self)
             }
             Block::Proc(proc) => self.eval_proc(*proc, self_value, &args),
@@ -278,6 +279,7 @@ impl VM {
         args: &Args2,
     ) -> VMResult {
         let self_val = self_val.into();
+        self.check_stack(slice.len())?;
         self.stack_push(self_val);
         self.stack.extend_from_slice(slice);
         self.invoke_method(method, args, true)?.handle(self)
@@ -292,6 +294,7 @@ impl VM {
         args: &Args2,
     ) -> VMResult {
         let self_val = self_val.into();
+        self.check_stack(len)?;
         self.stack_push(self_val);
         self.stack.extend_from_within_ptr(src, len);
         self.invoke_method(method, args, true)?.handle(self)
@@ -334,7 +337,7 @@ impl VM {
         args: &Args,
     ) -> VMResult {
         self.stack_push(Value::nil());
-        let args = self.stack_push_args(&args);
+        let args = self.stack_push_args(&args)?;
         self.invoke_proc(proc, self_value, &args)?.handle(self)
     }
 
@@ -344,6 +347,7 @@ impl VM {
         code: String,
         mut binding_context: EnvFrame,
     ) -> VMResult {
+        self.check_stack(0)?;
         let id = self.parse_program_binding(path, code, binding_context)?;
         let iseq = self.globals.methods[id].as_iseq();
         binding_context.set_iseq(iseq);
@@ -474,7 +478,7 @@ impl VM {
             RubyFunc { iseq } => {
                 let iseq = iseq.clone();
                 if iseq.opt_flag {
-                    self.push_block_frame_fast(iseq, args, outer, true);
+                    self.push_block_frame_fast(iseq, args, outer, true)?;
                 } else {
                     self.push_block_frame_slow(iseq, args, outer, true)?;
                 }
@@ -542,6 +546,7 @@ impl VM {
         #[cfg(feature = "perf-method")]
         self.globals.methods.inc_counter(_method_id);
 
+        self.check_stack(0)?;
         let iseq = self.iseq;
         let pc = self.pc;
         let cfp = self.cfp;
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 15ddacd..89b2cc1 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -506,7 +506,7 @@ impl VM {
                     Inst::OPT_SEND_N => dispatch!(self.vm_fast_send(false), false),
                     Inst::YIELD => {
                         let args_num = self.pc.read32() as usize;
-                        let args = self.pop_args_to_args(args_num);
+                        let args = self.pop_args_to_args(args_num)?;
                         dispatch!(self.vm_yield(&args), true);
                     }
                     Inst::SUPER => {
@@ -591,6 +591,7 @@ impl VM {
                     Inst::TAKE => {
                         let len = self.pc.read_usize();
                         let val = self.stack_pop();
+                        self.check_stack(len)?;
                         match val.as_array() {
                             Some(info) => {
                                 //let elem = &info.elements;
@@ -728,7 +729,7 @@ impl VM {
         let keyword = self.handle_hash_args(flag)?;
         let receiver = (self.sp() - args_num - 1)[0];
         let mut args = if flag.has_splat() {
-            self.pop_args_to_args(args_num)
+            self.pop_args_to_args(args_num)?
         } else {
             Args2::new(args_num)
         };
@@ -736,6 +737,7 @@ impl VM {
             if let Some(v) = self.cur_delegate() {
                 let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
                 args.append(ary);
+                self.check_stack(ary.len())?;
                 self.stack.extend_from_slice(ary);
             }
         }
@@ -791,7 +793,7 @@ impl VM {
                 }
                 Args2::new(args_num + param_num)
             } else {
-                self.pop_args_to_args(args_num)
+                self.pop_args_to_args(args_num)?
             };
             self.invoke_method(method, &args, true)
         } else {
-- 
2.43.0


From c7e7a8ef0413842ad149d2e42944f22a40c9b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:53 +0000
Subject: [PATCH 37/42] fix: pad missing required arguments of a block instead
 of underflowing

---
 ruruby/src/vm/executor/frame/arg_handler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index 2df02e8..8e5ab91 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -174,6 +174,10 @@ impl VM {
         let params = &iseq.params;
         let lvars = iseq.lvars;
         let req_len = params.req;
+        if ((self.sp() - base) as usize) < req_len + params.post {
+            // a block can be called with fewer arguments than its required parameters.
+            self.stack.resize_to(base + req_len + params.post);
+        }
         let args_len = (self.sp() - base) as usize;
         let rest_len = if params.rest == Some(true) { 1 } else { 0 };
         let post_len = params.post;
-- 
2.43.0


From 5bf92feb782f0ac64be67b094a07a06a4ee62a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:46 +0000
Subject: [PATCH 38/42] fix: fetch all operands before an operation that may
 raise, so that its source position is found

---
 ruruby/src/vm/executor/opt_core.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 89b2cc1..f84e48e 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -81,8 +81,10 @@ impl VM {
             #[cfg(not(tarpaulin_include))]
             macro_rules! jmp_cmp {
                 ($eval:ident) => {{
-                    let b = self.$eval()?;
-                    self.jmp_cond(b);
+                    let disp = self.pc.read_disp();
+                    if !self.$eval()? {
+                        self.pc += disp;
+                    }
                 }};
             }
 
@@ -91,8 +93,10 @@ impl VM {
                 ($eval:ident) => {{
                     let lhs = self.stack_pop();
                     let i = self.pc.read32() as i32;
-                    let b = self.$eval(lhs, i)?;
-                    self.jmp_cond(b);
+                    let disp = self.pc.read_disp();
+                    if !self.$eval(lhs, i)? {
+                        self.pc += disp;
+                    }
                 }};
             }
 
@@ -323,8 +327,8 @@ impl VM {
                         self.stack_push(Value::bool(is_undef));
                     }
                     Inst::GET_SCOPE => {
-                        let parent = self.stack_pop().expect_mod_class()?;
                         let id = self.pc.read_id();
+                        let parent = self.stack_pop().expect_mod_class()?;
                         let val = self.get_scope(parent, id)?;
                         self.stack_push(val);
                     }
-- 
2.43.0


From 824d839971d4a96a56b3250d8373cfc57ad64d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:46 +0000
Subject: [PATCH 39/42] fix: record the source position of every instruction
 that may raise

---
 ruruby/src/codegen.rs      | 12 +++++++++++-
 ruruby/src/codegen/send.rs |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 06a16f7..6d3bc94 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -53,12 +53,12 @@ impl Codegen {
         let mut iseq_sourcemap = vec![];
         iseq.push(Inst::GET_LOCAL);
         iseq.push32(0);
-        iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
         iseq.push(Inst::OPT_SEND);
         iseq.push32(method.into());
         iseq.push16(0);
         iseq.push_method(None);
         iseq.push32(globals.methods.add_inline_cache_entry());
+        iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
         iseq.gen_return();
 
         let info = MethodInfo::RubyFunc {
@@ -291,6 +291,7 @@ impl Codegen {
             NodeKind::Const { id, toplevel: _ } => {
                 iseq.gen_push_nil();
                 iseq.gen_set_const(id);
+                self.save_loc(iseq, lhs_loc);
             }
             NodeKind::InstanceVar(id) => iseq.gen_set_instance_var(id),
             NodeKind::GlobalVar(id) => iseq.gen_set_global_var(id),
@@ -299,6 +300,7 @@ impl Codegen {
             NodeKind::Scope(parent, id) => {
                 self.gen(globals, iseq, *parent, true)?;
                 iseq.gen_set_const(id);
+                self.save_loc(iseq, lhs_loc);
             }
             NodeKind::Send {
                 receiver, method, ..
@@ -387,6 +389,7 @@ impl Codegen {
                 self.gen_assign_val(globals, iseq, rhs, use_value)?;
                 iseq.gen_push_nil();
                 iseq.gen_set_const(id);
+                self.save_loc(iseq, lhs_loc);
             }
             NodeKind::InstanceVar(id) => {
                 self.gen_assign_val(globals, iseq, rhs, use_value)?;
@@ -408,6 +411,7 @@ impl Codegen {
                 self.gen_assign_val(globals, iseq, rhs, use_value)?;
                 self.gen(globals, iseq, *parent, true)?;
                 iseq.gen_set_const(id);
+                self.save_loc(iseq, lhs_loc);
             }
             NodeKind::Send {
                 receiver, method, ..
@@ -647,11 +651,13 @@ impl Codegen {
                         NodeKind::CompStmt(nodes) => {
                             self.gen_comp_stmt(globals, iseq, nodes, true)?;
                             iseq.push(Inst::TO_S);
+                            self.save_cur_loc(iseq);
                             c += 1;
                         }
                         NodeKind::GlobalVar(id) => {
                             iseq.gen_get_global_var(id);
                             iseq.push(Inst::TO_S);
+                            self.save_cur_loc(iseq);
                             c += 1;
                         }
                         _ => unimplemented!("Illegal arguments in Nodekind::InterporatedString."),
@@ -678,6 +684,7 @@ impl Codegen {
                             NodeKind::CompStmt(nodes) => {
                                 self.gen_comp_stmt(globals, iseq, nodes, true)?;
                                 iseq.push(Inst::TO_S);
+                                self.save_cur_loc(iseq);
                             }
                             _ => {
                                 unimplemented!("Illegal arguments in Nodekind::InterporatedString.")
@@ -1314,6 +1321,7 @@ impl Codegen {
                         iseq.gen_dup(1);
                     };
                     iseq.gen_take(lhs_len);
+                    self.save_loc(iseq, node_loc);
 
                     for lhs in mlhs.into_iter().rev() {
                         self.gen_assign(globals, iseq, lhs)?;
@@ -1420,6 +1428,7 @@ impl Codegen {
                 iseq.push(Inst::DEF_METHOD);
                 iseq.push32(id.into());
                 iseq.push32(method.into());
+                self.save_loc(iseq, node_loc);
                 if use_value {
                     iseq.gen_val(Value::symbol(id));
                 };
@@ -1439,6 +1448,7 @@ impl Codegen {
                 iseq.push(Inst::DEF_SMETHOD);
                 iseq.push32((id).into());
                 iseq.push32(method.into());
+                self.save_loc(iseq, node_loc);
                 if use_value {
                     iseq.gen_val(Value::symbol(id));
                 };
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 34bf5eb..4a3da99 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -60,6 +60,7 @@ impl Codegen {
                 iseq.gen_dup(1);
                 iseq.gen_push_nil();
                 iseq.push(Inst::NE);
+                self.save_loc(iseq, loc);
                 let src = iseq.gen_jmp_if_f();
                 self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
                 iseq.write_disp_from_cur(src);
-- 
2.43.0


From 20922a2f773ad900ccfe57224f7fe85b772a3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:36 +0000
Subject: [PATCH 40/42] fix: definedness checks do not load constants,
 Array#grep passes exceptions on

---
 ruruby/src/builtin/array.rs         | 16 ++++++++-------
 ruruby/src/builtin/module.rs        |  2 +-
 ruruby/src/vm/executor/constants.rs | 32 +++++++++++++++++++++++++++++
 ruruby/src/vm/executor/opt_core.rs  |  4 ++--
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 191865f..4c282af 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -924,13 +924,15 @@ fn grep(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
     let ary = match &args.block {
-        None => aref
-            .iter()
-            .filter_map(|x| match vm.eval_teq(*x, vm[0]) {
-                Ok(true) => Some(*x),
-                _ => None,
-            })
-            .collect(),
+        None => {
+            let mut ary = vec![];
+            for x in aref.iter() {
+                if vm.eval_teq(*x, vm[0])? {
+                    ary.push(*x);
+                }
+            }
+            ary
+        }
         _ => unimplemented!(),
     };
     Ok(Value::array_from(ary))
diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index db479e1..7a38808 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -221,7 +221,7 @@ fn const_defined(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let name = vm[0].expect_string_or_symbol("1st arg")?;
     Ok(Value::bool(
-        vm.get_super_const(Module::new(self_val), name).is_ok(),
+        vm.is_super_const_defined(Module::new(self_val), name),
     ))
 }
 
diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index f84ad37..6b8de09 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -27,6 +27,22 @@ impl VM {
         }
     }
 
+    /// Check whether a constant `id` is defined in the inheritance chain of `class`.
+    /// A constant registered for autoload is defined. This never loads it.
+    pub(crate) fn is_super_const_defined(&mut self, mut class: Module, id: IdentId) -> bool {
+        let is_module = class.is_module();
+        let mut object = self.globals.classes.object;
+        loop {
+            if class.get_mut_const(id).is_some() {
+                return true;
+            }
+            match class.upper() {
+                Some(upper) => class = upper,
+                None => return is_module && object.get_mut_const(id).is_some(),
+            }
+        }
+    }
+
     /// Enumerate constants of caller context.
     pub(crate) fn enumerate_const(&self) -> Vec<IdentId> {
         let mut map = FxHashSet::default();
@@ -58,6 +74,22 @@ impl VM {
         }
     }
 
+    /// Check whether a constant `id` is defined in the lexical class stack
+    /// or in the inheritance chain. This never loads a constant registered for autoload.
+    pub(super) fn is_const_defined(&mut self, id: IdentId) -> bool {
+        let class_defined = &self.get_method_iseq().class_defined;
+        for m in class_defined.iter().rev() {
+            if { *m }.get_mut_const(id).is_some() {
+                return true;
+            }
+        }
+        let class = match class_defined.last() {
+            Some(class) => *class,
+            None => self.globals.classes.object,
+        };
+        self.is_super_const_defined(class, id)
+    }
+
     /// Search constant table of `parent` for a constant `id`.
     /// If the constant was found, returns the value.
     /// Returns error if the constant was not defined or an autoload failed.
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index f84e48e..d90fb8f 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -295,7 +295,7 @@ impl VM {
                     }
                     Inst::CHECK_CONST => {
                         let id = self.pc.read_id();
-                        let is_undef = self.find_const(id).is_err();
+                        let is_undef = !self.is_const_defined(id);
                         self.stack_push(Value::bool(is_undef));
                     }
                     Inst::GET_CONST => {
@@ -321,7 +321,7 @@ impl VM {
                         let parent = self.stack_pop();
                         let id = self.pc.read_id();
                         let is_undef = match parent.expect_mod_class() {
-                            Ok(parent) => self.get_scope(parent, id).is_err(),
+                            Ok(mut parent) => parent.get_mut_const(id).is_none(),
                             Err(_) => true,
                         };
                         self.stack_push(Value::bool(is_undef));
-- 
2.43.0


From 832cb06523c0ca81b3be08148c7bdc5ef5a8a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:12 +0000
Subject: [PATCH 41/42] fix: builtins do not keep pointers into arrays, hashes
 or strings while user code runs

---
 ruruby/src/builtin/array.rs     | 118 ++++++++++++++++----------------
 ruruby/src/builtin/hash.rs      |  18 ++---
 ruruby/src/builtin/kernel.rs    |   4 +-
 ruruby/src/builtin/range.rs     |   2 +-
 ruruby/src/builtin/string.rs    |  18 ++---
 ruruby/src/builtin/structobj.rs |   2 +-
 ruruby/src/value/array.rs       |  33 ++++++---
 ruruby/src/value/hash.rs        |  11 ++-
 ruruby/src/value/value.rs       |  12 ++++
 ruruby/src/vm/executor/ops.rs   |   6 +-
 10 files changed, 126 insertions(+), 98 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 4c282af..81911cf 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -209,8 +209,8 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Ok(Value::nil()),
     };
     if lhs.len() >= rhs.len() {
-        for (i, rhs_v) in rhs.iter().enumerate() {
-            match vm.eval_compare(*rhs_v, lhs[i])?.as_fixnum() {
+        for (rhs_v, lhs_v) in rhs.elements().zip(lhs.elements()) {
+            match vm.eval_compare(rhs_v, lhs_v)?.as_fixnum() {
                 Some(0) => {}
                 Some(ord) => return Ok(Value::fixnum(ord)),
                 None => return Ok(Value::nil()),
@@ -222,8 +222,8 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             Ok(Value::fixnum(1))
         }
     } else {
-        for (i, lhs_v) in lhs.iter().enumerate() {
-            match vm.eval_compare(rhs[i], *lhs_v)?.as_fixnum() {
+        for (lhs_v, rhs_v) in lhs.elements().zip(rhs.elements()) {
+            match vm.eval_compare(rhs_v, lhs_v)?.as_fixnum() {
                 Some(0) => {}
                 Some(ord) => return Ok(Value::fixnum(ord)),
                 None => return Ok(Value::nil()),
@@ -317,7 +317,7 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         };
         let res = Value::array_from_with_class(v, vm.globals.get_class(self_val));
         Ok(res.into())
-    } else if let Some(s) = vm[0].clone().as_string() {
+    } else if let Some(s) = vm[0].as_string().map(|s| s.to_string()) {
         match ary.len() {
             0 => return Ok(Value::string("")),
             1 => {
@@ -328,7 +328,7 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 let mut res = ary[0].val_to_s(vm)?.to_string();
                 for i in 1..ary.len() {
                     let elem = ary[i].val_to_s(vm)?;
-                    res = res + s + &elem;
+                    res = res + &s + &elem;
                 }
                 return Ok(Value::string(res));
             }
@@ -356,19 +356,19 @@ fn concat(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs_v = &**self_val.expect_array("Receiver")?;
-    let rhs_v = &**vm[0].expect_array("Argument")?;
+    let lhs_v = self_val.expect_array("Receiver")?;
+    let rhs_v = vm[0].expect_array("Argument")?;
     let mut v = vec![];
-    for lhs in lhs_v {
+    for lhs in lhs_v.elements() {
         let mut flag = true;
-        for rhs in rhs_v {
-            if vm.eval_eq2(*lhs, *rhs)? {
+        for rhs in rhs_v.elements() {
+            if vm.eval_eq2(lhs, rhs)? {
                 flag = false;
                 break;
             }
         }
         if flag {
-            v.push(*lhs)
+            v.push(lhs)
         }
     }
     Ok(Value::array_from(v))
@@ -436,15 +436,15 @@ fn flat_map(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let param_num = block.to_iseq(&vm.globals).params.req;
     let aref = vm.self_value().into_array();
     let temp_len = vm.temp_len();
-    for elem in &**aref {
+    for elem in aref.elements() {
         let ary = if param_num == 0 {
             vm.eval_block0(&block)?
         } else if param_num == 1 {
-            vm.eval_block1(&block, *elem)?
+            vm.eval_block1(&block, elem)?
         } else {
             match elem.as_array() {
                 Some(ary) => vm.eval_block(&block, &ary[0..param_num])?,
-                None => vm.eval_block1(&block, *elem)?,
+                None => vm.eval_block1(&block, elem)?,
             }
         };
 
@@ -517,11 +517,11 @@ fn partition(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut res_true = vec![];
     let mut res_false = vec![];
     let f = vm.eval_block_map1(block);
-    for i in &**aref {
-        if f(vm, *i)?.to_bool() {
-            res_true.push(*i);
+    for i in aref.elements() {
+        if f(vm, i)?.to_bool() {
+            res_true.push(i);
         } else {
-            res_false.push(*i);
+            res_false.push(i);
         };
     }
     let ary = vec![
@@ -535,8 +535,8 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let target = vm[0];
     let aref = self_val.into_array();
-    for item in aref.iter() {
-        if vm.eval_eq2(*item, target)? {
+    for item in aref.elements() {
+        if vm.eval_eq2(item, target)? {
             return Ok(Value::true_val());
         }
     }
@@ -676,9 +676,9 @@ fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::nil());
     }
     let mut max = aref[0];
-    for elem in &**aref {
-        if vm.eval_gt2(max, *elem)? {
-            max = *elem;
+    for elem in aref.elements() {
+        if vm.eval_gt2(max, elem)? {
+            max = elem;
         };
     }
     Ok(max)
@@ -726,10 +726,10 @@ fn uniq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for elem in &**aref {
-                let res = f(vm, *elem)?;
+            for elem in aref.elements() {
+                let res = f(vm, elem)?;
                 if h.insert(HashKey(res)) {
-                    v.push(*elem);
+                    v.push(elem);
                 };
             }
         }
@@ -866,7 +866,7 @@ fn join(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let aref = self_val.into_array();
     let mut res = String::new();
-    for elem in &**aref {
+    for elem in aref.elements() {
         let s = elem.val_to_s(vm)?;
         if res.is_empty() {
             res = s.into_owned();
@@ -926,9 +926,9 @@ fn grep(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = match &args.block {
         None => {
             let mut ary = vec![];
-            for x in aref.iter() {
-                if vm.eval_teq(*x, vm[0])? {
-                    ary.push(*x);
+            for x in aref.elements() {
+                if vm.eval_teq(x, vm[0])? {
+                    ary.push(x);
                 }
             }
             ary
@@ -971,10 +971,10 @@ fn sort_by(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut ary = vec![];
     {
         let f = vm.eval_block_map1(block);
-        for v in &**self_val.as_array().unwrap() {
-            let v1 = f(vm, *v)?;
+        for v in self_val.as_array().unwrap().elements() {
+            let v1 = f(vm, v)?;
             vm.temp_push(v1);
-            ary.push((*v, v1));
+            ary.push((v, v1));
         }
     }
     vm.sort_by(&mut ary, |vm, a, b| {
@@ -990,8 +990,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if vm.eval_teq(*v, vm[0])? {
+        for v in aref.elements() {
+            if vm.eval_teq(v, vm[0])? {
                 return Ok(Value::true_val());
             };
         }
@@ -1001,7 +1001,7 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     match &args.block {
         None => {
-            for v in aref.iter() {
+            for v in aref.elements() {
                 if v.to_bool() {
                     return Ok(Value::true_val());
                 };
@@ -1009,8 +1009,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if f(vm, *v)?.to_bool() {
+            for v in aref.elements() {
+                if f(vm, v)?.to_bool() {
                     return Ok(Value::true_val());
                 };
             }
@@ -1025,8 +1025,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if !vm.eval_teq(*v, vm[0])? {
+        for v in aref.elements() {
+            if !vm.eval_teq(v, vm[0])? {
                 return Ok(Value::false_val());
             };
         }
@@ -1036,7 +1036,7 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     match &args.block {
         None => {
-            for v in aref.iter() {
+            for v in aref.elements() {
                 if !v.to_bool() {
                     return Ok(Value::false_val());
                 };
@@ -1044,8 +1044,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if !f(vm, *v)?.to_bool() {
+            for v in aref.elements() {
+                if !f(vm, v)?.to_bool() {
                     return Ok(Value::false_val());
                 };
             }
@@ -1068,8 +1068,8 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         1 => {
             let other = vm[0];
             let mut count = 0;
-            for elem in &**ary {
-                if vm.eval_eq2(*elem, other)? {
+            for elem in ary.elements() {
+                if vm.eval_eq2(elem, other)? {
                     count += 1;
                 }
             }
@@ -1084,8 +1084,8 @@ fn inject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
     let ary = self_val.expect_array("").unwrap();
     let mut res = vm[0];
-    for elem in ary.iter() {
-        res = vm.eval_block2(block, res, *elem)?;
+    for elem in ary.elements() {
+        res = vm.eval_block2(block, res, elem)?;
     }
     Ok(res)
 }
@@ -1106,8 +1106,8 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let block = to_enum_str!(vm, self_val, args, "find_index");
     let f = vm.eval_block_map1(block);
-    for (i, elem) in ary.iter().enumerate() {
-        if f(vm, *elem)?.to_bool() {
+    for (i, elem) in ary.elements().enumerate() {
+        if f(vm, elem)?.to_bool() {
             return Ok(Value::integer(i as i64));
         };
     }
@@ -1120,9 +1120,9 @@ fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "reject");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if !f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.elements() {
+        if !f(vm, elem)?.to_bool() {
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1134,9 +1134,9 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "select");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.elements() {
+        if f(vm, elem)?.to_bool() {
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1147,9 +1147,9 @@ fn find(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "find");
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            return Ok(*elem);
+    for elem in ary.elements() {
+        if f(vm, elem)?.to_bool() {
+            return Ok(elem);
         };
     }
     Ok(Value::nil())
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 33bba04..8eba6ac 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -111,10 +111,9 @@ fn default(_: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// Enumerable#select { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/select.html
 fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
     let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    for (k, v) in self_val.hash_entries() {
         if vm.eval_block2(&method, k, v)?.to_bool() {
             res.insert(HashKey(k), v);
         };
@@ -126,10 +125,9 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// Enumerable#reject { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/reject.html
 fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
     let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    for (k, v) in self_val.hash_entries() {
         if !vm.eval_block2(&method, k, v)?.to_bool() {
             res.insert(HashKey(k), v);
         };
@@ -147,8 +145,7 @@ fn has_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn has_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let hash = self_val.as_hash().unwrap();
-    for v in hash.iter().map(|(_, v)| v) {
+    for v in self_val.hash_entries().map(|(_, v)| v) {
         if vm.eval_eq2(vm[0], v)? {
             return Ok(Value::bool(true));
         }
@@ -177,10 +174,9 @@ fn values(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (_, v) in hash.iter() {
+    for (_, v) in self_val.hash_entries() {
         //vm.eval_block1(&block, v)?;
         f(vm, v)?;
     }
@@ -190,10 +186,9 @@ fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (k, _) in hash.iter() {
+    for (k, _) in self_val.hash_entries() {
         //vm.eval_block1(&block, k)?;
         f(vm, k)?;
     }
@@ -205,9 +200,8 @@ fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Hash/i/each.html
 fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
-    for (k, v) in hash.iter() {
+    for (k, v) in self_val.hash_entries() {
         vm.eval_block2(&block, k, v)?;
     }
 
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index bdafa7b..126812d 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -41,8 +41,8 @@ fn puts(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         match val.as_array() {
             None => println!("{}", val.val_to_s(vm)?),
             Some(aref) => {
-                for val in &**aref {
-                    flatten(vm, val.clone())?;
+                for val in aref.elements() {
+                    flatten(vm, val)?;
                 }
             }
         }
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 1f5d833..31b0c1e 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -21,7 +21,7 @@ impl RangeInfo {
     }
 
     pub(crate) fn to_s(&self, vm: &mut VM) -> Result<String, RubyError> {
-        let start = self.start.val_to_s(vm)?;
+        let start = self.start.val_to_s(vm)?.into_owned();
         let end = self.end.val_to_s(vm)?;
         let sym = if self.exclude { "..." } else { ".." };
         Ok(format!("{}{}{}", start, sym, end))
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 694359b..9ac661e 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -612,8 +612,8 @@ fn gsub_main(vm: &mut VM, mut self_val: Value, args: &Args2) -> Result<(String,
         }
         Some(block) => {
             args.check_args_num(1)?;
-            let given = self_val.expect_string("Receiver")?;
-            RegexpInfo::replace_all_block(vm, vm[0], given, block)
+            let given = self_val.expect_string("Receiver")?.to_string();
+            RegexpInfo::replace_all_block(vm, vm[0], &given, block)
         }
     }
 }
@@ -807,12 +807,12 @@ fn bytes(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let rstr = match self_val.as_rstring() {
-                Some(rstr) => rstr,
+                Some(rstr) => rstr.as_bytes().to_vec(),
                 None => return Err(RubyError::argument("Receiver must be String.")),
             };
             let f = vm.eval_block_map1(block);
-            for b in rstr.as_bytes() {
-                let byte = Value::integer(*b as i64);
+            for b in rstr {
+                let byte = Value::integer(b as i64);
                 //vm.eval_block1(block, byte)?;
                 f(vm, byte)?;
             }
@@ -825,12 +825,12 @@ fn each_byte(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let block = args.expect_block()?;
     let rstr = match self_val.as_rstring() {
-        Some(rstr) => rstr,
+        Some(rstr) => rstr.as_bytes().to_vec(),
         None => return Err(RubyError::argument("Receiver must be String.")),
     };
     let f = vm.eval_block_map1(block);
-    for b in rstr.as_bytes() {
-        let byte = Value::integer(*b as i64);
+    for b in rstr {
+        let byte = Value::integer(b as i64);
         //vm.eval_block1(block, byte)?;
         f(vm, byte)?;
     }
@@ -850,7 +850,7 @@ fn chars(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn each_char(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let block = args.expect_block()?;
-    let chars = self_val.expect_string("Receiver")?;
+    let chars = self_val.expect_string("Receiver")?.to_string();
     let f = vm.eval_block_map1(block);
     for c in chars.chars() {
         let char = Value::string(c.to_string());
diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index fb20d80..c7d36cb 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -103,7 +103,7 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         }
     };
 
-    for x in &**members {
+    for x in members.elements() {
         let id = x.as_symbol().unwrap().add_prefix("@");
         let val = match self_val.get_var(id) {
             Some(v) => Cow::from(vm.val_inspect(v)?),
diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index c62cc5c..092fa5d 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -69,6 +69,18 @@ impl Array {
         self.0
     }
 
+    /// Iterate over the elements by position.
+    ///
+    /// The elements are looked up in the array at each step, so the array may be changed meanwhile.
+    pub(crate) fn elements(self) -> impl Iterator<Item = Value> {
+        let mut pos = 0;
+        std::iter::from_fn(move || {
+            let elem = self.inner.get(pos).copied();
+            pos += 1;
+            elem
+        })
+    }
+
     #[inline(always)]
     pub(crate) fn id(self) -> u64 {
         self.0.id()
@@ -187,20 +199,21 @@ impl ArrayInfo {
     where
         F: FnMut(&Value) -> Result<bool, RubyError>,
     {
-        let len = self.len();
+        // `f` may change `self`.
+        let mut i = 0;
         let mut del = 0;
-        {
-            let v = &mut **self;
-            for i in 0..len {
-                if !f(&v[i])? {
-                    del += 1;
-                } else if del > 0 {
-                    v.swap(i - del, i);
-                }
+        while i < self.len() {
+            let elem = self.inner[i];
+            if !f(&elem)? {
+                del += 1;
+            } else if del > 0 && i < self.len() {
+                self.inner.swap(i - del, i);
             }
+            i += 1;
         }
         if del > 0 {
-            self.truncate(len - del);
+            let len = self.len().saturating_sub(del);
+            self.truncate(len);
         }
         Ok(del != 0)
     }
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 2c82dd8..5568ea8 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -255,6 +255,13 @@ impl HashInfo {
         Iter::new(self)
     }
 
+    pub(crate) fn get_index(&self, index: usize) -> Option<(Value, Value)> {
+        match self {
+            HashInfo::Map(map) => map.get_index(index).map(|(k, v)| (k.0, *v)),
+            HashInfo::IdentMap(map) => map.get_index(index).map(|(k, v)| (k.0, *v)),
+        }
+    }
+
     pub(crate) fn get(&self, v: &Value) -> Option<&Value> {
         match self {
             HashInfo::Map(map) => map.get(&HashKey(*v)),
@@ -317,7 +324,9 @@ impl HashInfo {
             _ => {
                 let mut result = "".to_string();
                 let mut first = true;
-                for (k, v) in self.iter() {
+                let mut i = 0;
+                while let Some((k, v)) = self.get_index(i) {
+                    i += 1;
                     let k_inspect = vm.val_inspect(k)?;
                     let v_inspect = vm.val_inspect(v)?;
                     result = if first {
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index dee75a3..60bbd64 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -850,6 +850,18 @@ impl Value {
         }
     }
 
+    /// Iterate over the entries of a hash by position.
+    ///
+    /// The entries are looked up in the hash at each step, so the hash may be changed meanwhile.
+    pub(crate) fn hash_entries(self) -> impl Iterator<Item = (Value, Value)> {
+        let mut pos = 0;
+        std::iter::from_fn(move || {
+            let entry = self.as_hash()?.get_index(pos);
+            pos += 1;
+            entry
+        })
+    }
+
     pub(crate) fn as_hash(&self) -> Option<&HashInfo> {
         match self.as_rvalue() {
             Some(oref) => match oref.kind() {
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index a0e3825..b8e6f49 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -402,12 +402,12 @@ impl VM {
                 Ok(lhsr.string().as_bytes() == rhsr.string().as_bytes())
             }
             (ObjKind::ARRAY, ObjKind::ARRAY) => {
-                let (lhs, rhs) = (&*lhsr.array(), &*rhsr.array());
+                let (lhs, rhs) = (lhs.into_array(), rhs.into_array());
                 if lhs.len() != rhs.len() {
                     return Ok(false);
                 }
-                for (l, r) in lhs.iter().zip(rhs.iter()) {
-                    if !self.eval_eq2(*r, *l)? {
+                for (l, r) in lhs.elements().zip(rhs.elements()) {
+                    if !self.eval_eq2(r, l)? {
                         return Ok(false);
                     }
                 }
-- 
2.43.0


From 6fe0306c312cbf0f108416bbc1ddcb0b218f757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:17 +0000
Subject: [PATCH 42/42] fix: fibers of enumerations and values held by uniq and
 Hash#sort stay alive while blocks run

---
 ruruby/src/builtin/array.rs      |  1 +
 ruruby/src/builtin/enumerator.rs |  7 +++++--
 ruruby/src/builtin/hash.rs       |  1 +
 ruruby/src/vm/executor/fiber.rs  | 10 ++++++++--
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 81911cf..29d54f4 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -728,6 +728,7 @@ fn uniq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             let f = vm.eval_block_map1(block);
             for elem in aref.elements() {
                 let res = f(vm, elem)?;
+                vm.temp_push(res);
                 if h.insert(HashKey(res)) {
                     v.push(elem);
                 };
diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index ec71a50..78e559d 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -101,6 +101,7 @@ fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let mut fiber = vm.dup_enum(eref);
+    let fiber = fiber.as_enumerator().unwrap();
     let f = vm.eval_block_map1(block);
     loop {
         let val = match fiber.resume(Value::nil()) {
@@ -130,7 +131,6 @@ fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
-    let mut info = vm.dup_enum(eref);
     let block = match &args.block {
         None => {
             // return Enumerator
@@ -140,6 +140,8 @@ fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
+    let mut info = vm.dup_enum(eref);
+    let info = info.as_enumerator().unwrap();
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
     loop {
@@ -158,7 +160,6 @@ fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
-    let mut info = vm.dup_enum(eref);
     let block = match &args.block {
         None => {
             // return Enumerator
@@ -169,6 +170,8 @@ fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
 
+    let mut info = vm.dup_enum(eref);
+    let info = info.as_enumerator().unwrap();
     let mut c = 0;
     let len = vm.temp_len();
     loop {
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 8eba6ac..85d7943 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -267,6 +267,7 @@ fn sort(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         let ary = vec![k, v];
         vec.push(Value::array_from(ary));
     }
+    vm.temp_extend_from_slice(&vec);
     vm.sort_array(&mut vec)?;
     Ok(Value::array_from(vec))
 }
diff --git a/ruruby/src/vm/executor/fiber.rs b/ruruby/src/vm/executor/fiber.rs
index 306a0ea..d182393 100644
--- a/ruruby/src/vm/executor/fiber.rs
+++ b/ruruby/src/vm/executor/fiber.rs
@@ -2,9 +2,15 @@ use crate::coroutine::*;
 use crate::*;
 
 impl VM {
-    pub(crate) fn dup_enum(&mut self, eref: &FiberContext) -> Box<FiberContext> {
+    /// Create a new Enumerator object for the enumeration of `eref`.
+    /// The object is a temporary root until the current method returns.
+    pub(crate) fn dup_enum(&mut self, eref: &FiberContext) -> Value {
         match &eref.kind {
-            FiberKind::Enum(box info) => Box::new(self.create_enum_info(info.clone())),
+            FiberKind::Enum(box info) => {
+                let val = Value::enumerator(self.create_enum_info(info.clone()));
+                self.temp_push(val);
+                val
+            }
             _ => unreachable!(),
         }
     }
-- 
2.43.0

