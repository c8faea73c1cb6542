From a065df2460bd3b876f667a7a8241bc2637b9ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:02 +0000
Subject: [PATCH 001/119] fix: parenthesize a negative literal under a unary
 operator

---
 veriloggen/verilog/to_verilog.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..fee8266 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -326,44 +326,51 @@ class VerilogCommonVisitor(object):
         return vast.Lor(left, right)
 
     # -------------------------------------------------------------------------
+    def _visit_unary_operand(self, node):
+        """ a negative literal after an unary operator requires parentheses """
+        right = self.visit(node)
+        if isinstance(right, vast.IntConst) and right.value.startswith('-'):
+            right = vast.Uminus(vast.IntConst(right.value[1:]))
+        return right
+
     def visit_Uplus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uplus(right)
 
     def visit_Uminus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uminus(right)
 
     def visit_Ulnot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Ulnot(right)
 
     def visit_Unot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unot(right)
 
     def visit_Uand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uand(right)
 
     def visit_Unand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unand(right)
 
     def visit_Uor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uor(right)
 
     def visit_Unor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unor(right)
 
     def visit_Uxor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uxor(right)
 
     def visit_Uxnor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uxnor(right)
 
    # ---------------------------------------------------------------------------
-- 
2.43.0


From 2de485b5e3d04b3a9c1567683a2688c953f8eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:03 +0000
Subject: [PATCH 002/119] fix: resolve negative indices and lengths of arrays
 by the array dimension

---
 veriloggen/core/vtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..11246c0 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -482,7 +482,7 @@ class _Numeric(VeriloggenNode):
                 return Cat(*values)
 
         if isinstance(r, int) and r < 0:
-            r = self.get_width() - abs(r)
+            r = self._len() - abs(r)
 
         return Pointer(self, r)
 
@@ -1603,7 +1603,7 @@ class Pointer(_SpecialOperator):
                 root = root.var
                 depth += 1
 
-            if not hasattr(root, 'dims'):
+            if getattr(root, 'dims', None) is None:
                 return 1
 
             if len(root.dims) >= depth:
@@ -1658,11 +1658,11 @@ class Pointer(_SpecialOperator):
             root = root.var
             depth += 1
 
-        if not hasattr(root, 'dims'):
+        if getattr(root, 'dims', None) is None:
             return 1
 
         if len(root.dims) > depth:
-            return root.dims[depth - 1]
+            return root.dims[depth]
 
         return self.get_width()
 
-- 
2.43.0


From a6d2f976268ef15e57bf4f92d284e3a5138d3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 003/119] fix: emit the most negative value of a signed literal
 without negation

---
 veriloggen/verilog/to_verilog.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index fee8266..32ca069 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -66,7 +66,13 @@ class VerilogCommonVisitor(object):
 
         if isinstance(node.value, int) and node.value < 0:
             value = abs(node.value)
-            value_list.append('-')
+            # the most negative value is represented without the negation,
+            # as its absolute value does not fit in the width
+            if (node.width and node.signed and
+                    value % (2 ** node.width) == 2 ** (node.width - 1)):
+                value = 2 ** (node.width - 1)
+            else:
+                value_list.append('-')
 
         if node.width:
             value_list.append(str(node.width))
-- 
2.43.0


From b338d04f15c3ac0e157dbac3ae404a6dd8d6369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 004/119] fix: keep width and x/z digits of string literals
 (8'shff, 'h0x0)

---
 veriloggen/core/vtypes.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 11246c0..1cca8d6 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -62,10 +62,10 @@ def str_to_value(s):
 
     match = re.search(r'h(.+)', targ)
     if match is not None:
-        try:
-            v = int(match.group(1), 16)
-        except:
-            v = match.group(1)
+        v = match.group(1).strip()
+        if re.search(r'^[0-9a-fA-F]+$', v):
+            v = int(v, 16)
+        else:
             check_int_hex(v)
         return v, 16
 
@@ -80,19 +80,19 @@ def str_to_value(s):
 
     match = re.search(r'o(.+)', targ)
     if match is not None:
-        try:
-            v = int(match.group(1), 8)
-        except:
-            v = match.group(1)
+        v = match.group(1).strip()
+        if re.search(r'^[0-7]+$', v):
+            v = int(v, 8)
+        else:
             check_int_oct(v)
         return v, 8
 
     match = re.search(r'b(.+)', targ)
     if match is not None:
-        try:
-            v = int(match.group(1), 2)
-        except:
-            v = match.group(1)
+        v = match.group(1).strip()
+        if re.search(r'^[01]+$', v):
+            v = int(v, 2)
+        else:
             check_int_bin(v)
         return v, 2
 
@@ -106,16 +106,16 @@ def str_to_value(s):
 
 def str_to_width(s):
     targ = s.replace('_', '')
-    match = re.search(r'(.+)\'h.+', targ)
+    match = re.search(r'(.+)\'s?h.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'d.+', targ)
+    match = re.search(r'(.+)\'s?d.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'o.+', targ)
+    match = re.search(r'(.+)\'s?o.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'b.+', targ)
+    match = re.search(r'(.+)\'s?b.+', targ)
     if match is not None:
         return int(match.group(1), 10)
     return None
-- 
2.43.0


From 79715a0ace3c09f66ab3f26ef742779296393d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 005/119] fix: emit '#' of assignment delays in always
 statements

---
 veriloggen/verilog/to_verilog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 32ca069..a0b1a56 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -839,8 +839,10 @@ class VerilogAlwaysVisitor(VerilogCommonVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
-        ldelay = self.visit(node.ldelay) if node.ldelay else None
-        rdelay = self.visit(node.rdelay) if node.rdelay else None
+        ldelay = vast.DelayStatement(self.visit(
+            node.ldelay)) if node.ldelay else None
+        rdelay = vast.DelayStatement(self.visit(
+            node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         if node.blk:
-- 
2.43.0


From 36047855a108604d55ec448dabbfd7a0c7416b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 006/119] fix: emit an event control on a plain signal without
 an edge

---
 veriloggen/verilog/to_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index a0b1a56..3bdb016 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -511,7 +511,7 @@ class VerilogCommonVisitor(object):
     def visit_Event(self, node):
         sensitivity = vast.SensList(
             tuple([self.visit(n) if isinstance(n, vtypes.Sensitive) else
-                   vast.Sens(self.visit(n)) for n in node.sensitivity]))
+                   vast.Sens(self.visit(n), 'level') for n in node.sensitivity]))
         return vast.EventStatement(sensitivity)
 
     def visit_Delay(self, node):
-- 
2.43.0


From 45759bc4179fff2212ce7cb6771ca1b8218ae8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 007/119] fix: emit task calls as statements with parenthesized
 arguments

---
 veriloggen/verilog/to_verilog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 3bdb016..ae57cdb 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -505,6 +505,8 @@ class VerilogCommonVisitor(object):
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
+        if isinstance(statement, vast.SingleStatement):
+            return statement
         return vast.SingleStatement(statement)
 
     # -------------------------------------------------------------------------
@@ -538,7 +540,9 @@ class VerilogCommonVisitor(object):
     def visit_TaskCall(self, node):
         name = vast.Identifier(node.name)
         args = tuple([self.visit(a) for a in node.args])
-        return vast.TaskCall(name, args)
+        # ASTCodeGenerator has no template for vast.TaskCall
+        call = vast.FunctionCall(name, args) if args else name
+        return vast.SingleStatement(call)
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-- 
2.43.0


From d896c68273d923b5197b2f32279dd1a0e6cfd249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 008/119] fix: reject a second Reg or Wire of the same name on
 a port

---
 veriloggen/core/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a43a4f5..9cd682a 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -88,7 +88,7 @@ class Module(vtypes.VeriloggenNode):
 
         t = vtypes.Wire(width, dims, signed, value, name=name, module=self)
         self.check_existing_identifier(name, vtypes.Input, vtypes.Output)
-        if self.is_reg(name):
+        if name in self.variable:
             raise ValueError("Object '%s' is already defined." % name)
         self.variable[name] = t
         self.items.append(t)
@@ -108,6 +108,8 @@ class Module(vtypes.VeriloggenNode):
         t = vtypes.Reg(width, dims, signed, value,
                        initval, name=name, module=self)
         self.check_existing_identifier(name, vtypes.Output)
+        if name in self.variable:
+            raise ValueError("Object '%s' is already defined." % name)
         self.variable[name] = t
         self.items.append(t)
         return t
-- 
2.43.0


From 4f1c2c198f3b41085db5aa8160b5d7a2e0391f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 009/119] fix: resolve hooks and collect modules in all
 generate blocks

---
 veriloggen/core/module.py | 47 +++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 9cd682a..b0518ab 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1239,31 +1239,42 @@ class Module(vtypes.VeriloggenNode):
                 kwargs = {}
             method(*args, **kwargs)
 
+        for gen in self._get_generates():
+            gen.resolve_hook()
+
         for sub in self.submodule.values():
             sub.resolve_hook()
 
     def has_hook(self):
         if self.hook:
             return True
+        for gen in self._get_generates():
+            if gen.has_hook():
+                return True
         for sub in self.submodule.values():
             if sub.has_hook():
                 return True
         return False
 
+    def _get_generates(self):
+        """ all generate blocks directly in this module, including the Else blocks """
+        ret = []
+        for gen in self.generate.values():
+            gens = gen if isinstance(gen, (tuple, list)) else [gen]
+            for g in gens:
+                ret.append(g)
+                if isinstance(g, GenerateIf):
+                    ret.append(g.Else)
+        return ret
+
     # -------------------------------------------------------------------------
     def find_module(self, name):
         if name in self.submodule:
             return self.submodule[name]
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    r = g.find_module(name)
-                    if r is not None:
-                        return r
-            else:
-                r = gen.find_module(name)
-                if r is not None:
-                    return r
+        for gen in self._get_generates():
+            r = gen.find_module(name)
+            if r is not None:
+                return r
         for sub in self.submodule.values():
             r = sub.find_module(name)
             if r is not None:
@@ -1273,12 +1284,8 @@ class Module(vtypes.VeriloggenNode):
     def get_modules(self):
         modules = collections.OrderedDict()
         modules[self.name] = self
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self._get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
@@ -1451,12 +1458,8 @@ class Generate(Module):
 
     def get_modules(self):
         modules = collections.OrderedDict()
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self._get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
-- 
2.43.0


From 46bea6d08f5bcb95244cd66724e92fe6a0ad5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 010/119] fix: keep different module definitions of a same name
 in the hierarchy

---
 veriloggen/core/module.py        | 39 ++++++++++++++++----
 veriloggen/verilog/to_verilog.py | 62 +++++++++++++++++++++++++++++---
 2 files changed, 91 insertions(+), 10 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index b0518ab..5d29767 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -570,16 +570,14 @@ class Module(vtypes.VeriloggenNode):
         self.items.append(t)
 
         mod = self.find_module(module.name)
-        if mod is None:
-            self.submodule[module.name] = module
 
-        while mod is not None:
-            if mod == module:
-                break
+        while mod is not None and mod != module:
             module.name = module.name + '_'
-            self.submodule[module.name] = module
             mod = self.find_module(module.name)
 
+        if mod is None:
+            self.submodule[module.name] = module
+
         return t
 
     # -------------------------------------------------------------------------
@@ -1290,6 +1288,27 @@ class Module(vtypes.VeriloggenNode):
             modules.update(sub.get_modules())
         return modules
 
+    def get_all_modules(self):
+        """ all different module objects of the hierarchy, which may have a same name,
+        in the order of get_modules() and in the order from the leaves """
+        modules = collections.OrderedDict()
+        leaf_first = []
+        self._collect_modules(modules, leaf_first)
+        return list(modules.values()), leaf_first
+
+    def _collect_modules(self, modules, leaf_first):
+        if id(self) in modules:
+            return
+        is_generate = isinstance(self, Generate)
+        if not is_generate:
+            modules[id(self)] = self
+        for gen in self._get_generates():
+            gen._collect_modules(modules, leaf_first)
+        for sub in self.submodule.values():
+            sub._collect_modules(modules, leaf_first)
+        if not is_generate:
+            leaf_first.append(self)
+
     def check_existing_identifier(self, name, *types):
         s = self.find_identifier(name)
         if s is None:
@@ -1340,6 +1359,14 @@ class StubModule(vtypes.VeriloggenNode):
         modules[self.name] = self
         return modules
 
+    def get_all_modules(self):
+        return [self], [self]
+
+    def _collect_modules(self, modules, leaf_first):
+        if id(self) not in modules:
+            modules[id(self)] = self
+            leaf_first.append(self)
+
 
 class Instance(vtypes.VeriloggenNode):
 
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index ae57cdb..28ba980 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -15,14 +15,24 @@ from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
 # -------------------------------------------------------------------------
 def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
-    modules = tuple(node.get_modules().values())
+    codegen = ASTCodeGenerator()
+
+    all_modules, leaf_first_modules = node.get_all_modules()
+    original_names = [(mod, mod.name) for mod in all_modules]
+
+    try:
+        modules = resolve_module_names(node, all_modules, leaf_first_modules,
+                                       visitor, codegen)
+
+        module_ast_list = [visitor.visit(mod) for mod in modules
+                           if not isinstance(mod, module.StubModule)]
+    finally:
+        for mod, name in original_names:
+            mod.name = name
 
-    module_ast_list = [visitor.visit(mod) for mod in modules
-                       if not isinstance(mod, module.StubModule)]
     description = vast.Description(module_ast_list)
     source = vast.Source(filename, description)
 
-    codegen = ASTCodeGenerator()
     main = codegen.visit(source)
 
     stub = [mod.get_code()
@@ -36,6 +46,50 @@ def write_verilog(node, filename=None, for_verilator=False):
     return code
 
 
+def resolve_module_names(top, all_modules, leaf_first_modules, visitor, codegen):
+    """ select module definitions to be emitted, so that each name has a unique definition.
+    Modules with a same name are merged if their definitions are identical,
+    otherwise they are renamed. """
+
+    names = [mod.name for mod in all_modules]
+    reserved = set(names)
+
+    if len(reserved) == len(names):
+        return all_modules
+
+    def get_definition(mod):
+        return codegen.visit(visitor.visit(mod))
+
+    stubs = []
+    definitions = {top.name: None}
+    selected = set([id(top)])
+
+    # definitions of leaf modules must be determined before their parents
+    for mod in leaf_first_modules:
+        if mod is top:
+            continue
+        if names.count(mod.name) == 1:
+            selected.add(id(mod))
+            continue
+        if isinstance(mod, module.StubModule):
+            if mod not in stubs:
+                stubs.append(mod)
+                selected.add(id(mod))
+            continue
+        definition = get_definition(mod)
+        while definitions.get(mod.name, definition) != definition:
+            mod.name = mod.name + '_'
+            while mod.name in reserved and mod.name not in definitions:
+                mod.name = mod.name + '_'
+            definition = get_definition(mod)
+        if mod.name not in definitions:
+            definitions[mod.name] = definition
+            reserved.add(mod.name)
+            selected.add(id(mod))
+
+    return [mod for mod in all_modules if id(mod) in selected]
+
+
 # -------------------------------------------------------------------------
 class VerilogCommonVisitor(object):
 
-- 
2.43.0


From 11dc6754f1d02e615c79c01df4178d4493dabf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 011/119] fix: do not declare a wire again when a port of the
 same name is declared

---
 veriloggen/verilog/to_verilog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 28ba980..a1e9c71 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -740,6 +740,9 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
 
     def visit_Wire(self, node):
         name = node.name
+        # a port declaration in the ANSI style already declares the net
+        if self.module.io_variable.get(name) is not None and self.module.variable.get(name) is node:
+            return None
         width = self.make_width(node)
         dims = self.make_dims(node)
         signed = node.signed
-- 
2.43.0


From f0f2302618d8cff5ba46262a8a29b4ad24c4ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 012/119] fix: skip existing names for temporary objects

---
 veriloggen/core/module.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 5d29767..5c9e609 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -99,7 +99,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Wire(name, width, dims, signed, value)
 
     def Reg(self, name, width=None, dims=None, signed=False, value=None,
@@ -119,7 +119,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Reg(name, width, dims, signed, value, initval)
 
     def Integer(self, name, width=None, dims=None, signed=False, value=None,
@@ -137,7 +137,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Integer(name, width, dims, signed, value, initval)
 
     def Real(self, name, width=None, dims=None, signed=False, value=None,
@@ -155,7 +155,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Real(name, width, dims, signed, value, initval)
 
     def Genvar(self, name, width=None, dims=None, signed=False, value=None):
@@ -171,7 +171,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Genvar(name, width, dims, signed, value)
 
     def Parameter(self, name, value, width=None, signed=False, dims=None):
@@ -195,7 +195,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Localparam(name, value, width, signed, dims)
 
     # -------------------------------------------------------------------------
@@ -1168,6 +1168,13 @@ class Module(vtypes.VeriloggenNode):
         self.tmp_count += 1
         return ret
 
+    def get_tmp_name(self, prefix):
+        """ name of a temporary object, which is not used in this module """
+        name = '_'.join([prefix, str(self.get_tmp())])
+        while self.find_identifier(name) is not None:
+            name = '_'.join([prefix, str(self.get_tmp())])
+        return name
+
     # -------------------------------------------------------------------------
     def is_input(self, name):
         if name not in self.io_variable:
-- 
2.43.0


From 52e48ad9f62ffacd4abb9c6716df39abd7bef493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:41 +0000
Subject: [PATCH 013/119] fix: keep a reference to a parameter of the same
 module as parameter value

---
 veriloggen/core/vtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 1cca8d6..3e6a678 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -751,7 +751,10 @@ class _ParameterVariable(_Variable):
 
     def __init__(self, value, width=None, signed=False, name=None,
                  raw_width=None, module=None):
-        if isinstance(value, _ParameterVariable):
+        if (isinstance(value, _ParameterVariable) and
+            (module is None or
+             module.find_identifier(value.name) is not value)):
+            # only a parameter of the same module can be referred by its name
             value = value.value
         if value is None:
             raise ValueError('value must not be None.')
-- 
2.43.0


From 4daefe69a106f7875f17ca2075bd0d5b6f91825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 014/119] fix: reset array elements to the initial value of the
 array

---
 veriloggen/seq/reset_visitor.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/veriloggen/seq/reset_visitor.py b/veriloggen/seq/reset_visitor.py
index e857718..8e93e40 100644
--- a/veriloggen/seq/reset_visitor.py
+++ b/veriloggen/seq/reset_visitor.py
@@ -31,11 +31,16 @@ class ResetVisitor(object):
         if val is None:
             return None
         left = vtypes.Pointer(val.left, node.pos)
+        if self._is_array_element(node):
+            # every element of an array has the initial value
+            return vtypes.Subst(left, val.right)
         if not isinstance(val.right, (vtypes._Variable, vtypes.Scope)):
             if isinstance(val.right, (int, bool)):
                 val_right = vtypes.Int(val.right)
             elif isinstance(val.right, float):
                 val_right = vtypes.Float(val.right)
+            elif isinstance(val.right, vtypes._Numeric):
+                val_right = val.right
             else:
                 raise TypeError("unsupported value type: %s" % str(val.right))
             right = vtypes.And(vtypes.Srl(
@@ -44,6 +49,14 @@ class ResetVisitor(object):
             right = vtypes.Pointer(val.right, node.pos)
         return vtypes.Subst(left, right)
 
+    def _is_array_element(self, node):
+        depth = 0
+        while isinstance(node, vtypes.Pointer):
+            node = node.var
+            depth += 1
+        dims = getattr(node, 'dims', None)
+        return dims is not None and depth <= len(dims)
+
     def visit_Slice(self, node):
         val = self.visit(node.var)
         if val is None:
-- 
2.43.0


From 764f2a5b27bb0fc3b7f741e98ae61a4425c39ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 015/119] fix: visit Casex statements in Seq and FSM without
 infinite recursion

---
 veriloggen/seq/subst_visitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 6b2ade3..996b2e0 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -50,7 +50,7 @@ class SubstDstVisitor(object):
         return statement
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         statement = self.visit(node.statement)
@@ -117,7 +117,7 @@ class SubstSrcVisitor(CollectVisitor):
         self.visit(node.statement)
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         self.visit(node.condition)
@@ -180,13 +180,13 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Case(self, node):
         comp = self.visit(node.comp)
         statement = self.visit(node.statement)
-        ret = vtypes.Case(comp)
+        ret = node.__class__(comp)
         ret.statement = statement
         ret.last = node.last
         return ret
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         condition = self.visit(node.condition)
-- 
2.43.0


From 139bebe53c0a09c309b9a1c9a5c09ec616883c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 016/119] fix: do not share the registers of Prev with another
 initial value or condition

---
 veriloggen/seq/seq.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..1f94e42 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -79,6 +79,7 @@ class Seq(vtypes.VeriloggenNode):
         self.delay_amount = 0
         self.delayed_body = collections.defaultdict(list)
         self.prev_dict = collections.OrderedDict()
+        self.prev_initvals = collections.defaultdict(list)
         self.body = []
 
         self.dst_var = collections.OrderedDict()
@@ -167,13 +168,23 @@ class Seq(vtypes.VeriloggenNode):
         else:
             name_prefix = _tmp_name(prefix)
 
-        key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
-            return self.prev_dict[key]
+        cond = make_condition(cond)
+
+        if cond is None:
+            # registers are shared only by the requests of the same initval
+            initvals = self.prev_initvals[name_prefix]
+            for i, v in enumerate(initvals):
+                if v is initval or (isinstance(v, int) and
+                                    isinstance(initval, int) and v == initval):
+                    break
+            else:
+                i = len(initvals)
+                initvals.append(initval)
+            if i > 0:
+                name_prefix = '_'.join([name_prefix, 'init', str(i)])
 
         p = var
         for i in range(delay):
-            cond = make_condition(cond)
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
                 self._add_statement([tmp(p)], cond=cond)
@@ -353,6 +364,7 @@ class Seq(vtypes.VeriloggenNode):
             self.delayed_body[delay].extend(body)
 
         self.prev_dict.update(src.prev_dict)
+        self.prev_initvals.update(src.prev_initvals)
         self.body.extend(src.body)
         self.dst_var.update(src.dst_var)
 
-- 
2.43.0


From 82bd9fee8c7832f76ca5e70198d067caf22646d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 017/119] fix: reset a variable bit in a concatenation through
 a wire instead of a localparam

---
 veriloggen/seq/reset_visitor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/veriloggen/seq/reset_visitor.py b/veriloggen/seq/reset_visitor.py
index 8e93e40..545fc9b 100644
--- a/veriloggen/seq/reset_visitor.py
+++ b/veriloggen/seq/reset_visitor.py
@@ -57,6 +57,17 @@ class ResetVisitor(object):
         dims = getattr(node, 'dims', None)
         return dims is not None and depth <= len(dims)
 
+    def _has_const_position(self, node):
+        while isinstance(node, (vtypes.Pointer, vtypes.Slice)):
+            positions = ((node.pos,) if isinstance(node, vtypes.Pointer) else
+                         (node.msb, node.lsb))
+            for pos in positions:
+                if not isinstance(pos, (int, vtypes._Constant,
+                                        vtypes._ParameterVariable)):
+                    return False
+            node = node.var
+        return True
+
     def visit_Slice(self, node):
         val = self.visit(node.var)
         if val is None:
@@ -84,6 +95,10 @@ class ResetVisitor(object):
             elif isinstance(val.right, vtypes._Constant):
                 right = copy.deepcopy(val.right)
                 right.width = width
+            elif not self._has_const_position(v):
+                # localparam can not have a variable
+                right = v._get_module().TmpWire(width)
+                right.assign(val.right)
             else:
                 right = v._get_module().TmpLocalparam(val.right, width)
 
-- 
2.43.0


From ea770fcea16323e87513435689a18bcf35eafb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 018/119] fix: widths of operators and concatenations of
 variables without width

---
 veriloggen/core/vtypes.py | 18 ++++++++++++------
 veriloggen/seq/seq.py     |  2 ++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 3e6a678..65f17f3 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -158,6 +158,12 @@ def get_initval(obj):
     return None
 
 
+def get_operand_width(v):
+    # a variable without width has 1 bit
+    width = get_width(v)
+    return 1 if width is None else width
+
+
 def max_width(left, right):
     if left is None and right is None:
         return None
@@ -1007,8 +1013,8 @@ class _BinaryOperator(_Operator):
                         str(self.right), ')'])
 
     def get_width(self):
-        left = get_width(self.left)
-        right = get_width(self.right)
+        left = get_operand_width(self.left)
+        right = get_operand_width(self.right)
         return max_width(left, right) + 1
 
     def get_signed(self):
@@ -1061,8 +1067,8 @@ class Times(_BinaryOperator):
         return left * right
 
     def get_width(self):
-        left = get_width(self.left)
-        right = get_width(self.right)
+        left = get_operand_width(self.left)
+        right = get_operand_width(self.right)
         return left + right
 
 
@@ -1755,7 +1761,7 @@ class Cat(_SpecialOperator):
         return self
 
     def get_width(self):
-        values = [get_width(v) for v in self.vars]
+        values = [get_operand_width(v) for v in self.vars]
         ret = values[0]
         for v in values[1:]:
             ret = ret + v
@@ -1817,7 +1823,7 @@ class Repeat(_SpecialOperator):
         self.times = times
 
     def get_width(self):
-        return get_width(self.var) * self.times
+        return get_operand_width(self.var) * self.times
 
     def __str__(self):
         return ''.join(['{', str(self.times), '{', str(self.var), '}}'])
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 1f94e42..b927419 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -158,6 +158,8 @@ class Seq(vtypes.VeriloggenNode):
         signed = vtypes.get_signed(var)
 
         if not isinstance(var, vtypes._Variable):
+            if width is None:
+                width = 1
             width = self.m.TmpLocalparam(width)
             w = self.m.TmpWire(width, signed=signed)
             w.assign(var)
-- 
2.43.0


From 0581b70c0dee8619ba9e20960bd762a3affb090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 019/119] fix: Else and Elif after an Elif statement with
 timing attributes

---
 veriloggen/fsm/fsm.py | 12 ++++++++++--
 veriloggen/seq/seq.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..18ff0b5 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -75,6 +75,7 @@ class FSM(vtypes.VeriloggenNode):
         self.last_cond = []
         self.last_kwargs = {}
         self.last_if_statement = None
+        self.last_separated = False
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
@@ -200,6 +201,11 @@ class FSM(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+
+        # a statement of Elif or Else with attributes has the whole condition,
+        # so that the following Elif or Else can not be attached to it.
+        self.last_separated = len(self.last_cond) > 1
+
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -241,7 +247,8 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.last_separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
@@ -272,7 +279,8 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.last_separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index b927419..7e0f933 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -91,6 +91,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_cond = []
         self.last_kwargs = {}
         self.last_if_statement = None
+        self.last_separated = False
         self.next_else = False
         self.elif_cond = None
         self.next_kwargs = {}
@@ -128,6 +129,11 @@ class Seq(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+
+        # a statement of Elif or Else with attributes has the whole condition,
+        # so that the following Elif or Else can not be attached to it.
+        self.last_separated = len(self.last_cond) > 1
+
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -236,7 +242,8 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.last_separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
@@ -264,7 +271,8 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.last_separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
-- 
2.43.0


From 2cbb5339e9129ebbe4e0eea1cf34ed88b4e0d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 020/119] fix: store a multi-bit condition of a delayed
 statement as its truth value

---
 veriloggen/fsm/fsm.py |  4 ++--
 veriloggen/seq/seq.py | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 18ff0b5..377263e 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -10,7 +10,7 @@ from veriloggen.core.module import Module
 from veriloggen.core.submodule import Submodule
 from veriloggen.seq.subst_visitor import *
 from veriloggen.seq.reset_visitor import ResetVisitor
-from veriloggen.seq.seq import Seq, make_condition
+from veriloggen.seq.seq import Seq, make_condition, to_bool
 
 
 _tmp_count = 0
@@ -840,7 +840,7 @@ class FSM(vtypes.VeriloggenNode):
         name_prefix = '_'.join(
             ['', self.name, 'cond', str(index), str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = to_bool(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 7e0f933..87fe48d 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -59,6 +59,25 @@ def _get_manager_cond(cond):
     return cond
 
 
+def to_bool(cond):
+    """ condition as 1-bit value, to be stored in a register """
+    if isinstance(cond, (int, bool)):
+        return 1 if cond else 0
+
+    try:
+        width = vtypes.get_width(cond)
+    except TypeError:
+        return vtypes.Uor(cond)
+
+    if isinstance(width, vtypes.Localparam):
+        width = width.value
+
+    if width is None or (isinstance(width, int) and width == 1):
+        return cond
+
+    return vtypes.Uor(cond)
+
+
 def TmpSeq(m, clk, rst=None, nohook=False, as_module=False, prefix=None):
     if prefix is None:
         prefix = '_tmp_seq'
@@ -702,7 +721,7 @@ class Seq(vtypes.VeriloggenNode):
     def _add_delayed_cond(self, statement, delay):
         name_prefix = '_'.join(['', self.name, 'cond', str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = to_bool(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
-- 
2.43.0


From 3862d75159e2c68f396af01c59ee8be5f384e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 021/119] fix: a statement after Elif with timing attributes
 failed with AttributeError

---
 veriloggen/fsm/fsm.py | 1 +
 veriloggen/seq/seq.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 377263e..ce2eaa7 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -201,6 +201,7 @@ class FSM(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+        self._clear_elif_cond()
 
         # a statement of Elif or Else with attributes has the whole condition,
         # so that the following Elif or Else can not be attached to it.
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 87fe48d..d1c78e0 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -148,6 +148,7 @@ class Seq(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+        self._clear_elif_cond()
 
         # a statement of Elif or Else with attributes has the whole condition,
         # so that the following Elif or Else can not be attached to it.
-- 
2.43.0


From bf21e0e7f2ff3da8b60c4b76a9377d46f0dd088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 022/119] fix: Prev with a condition between If and Else took
 the Else

---
 veriloggen/seq/seq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index d1c78e0..658b665 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -215,7 +215,10 @@ class Seq(vtypes.VeriloggenNode):
         for i in range(delay):
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
+                # not the target of the following Elif and Else
+                last_if_statement = self.last_if_statement
                 self._add_statement([tmp(p)], cond=cond)
+                self.last_if_statement = last_if_statement
                 p = tmp
 
             else:
-- 
2.43.0


From b31c730b18f26a0c1aa5d2a773347c08b1bf64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 023/119] fix: partial reset of a negative initial value

---
 veriloggen/seq/reset_visitor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/seq/reset_visitor.py b/veriloggen/seq/reset_visitor.py
index 545fc9b..537335e 100644
--- a/veriloggen/seq/reset_visitor.py
+++ b/veriloggen/seq/reset_visitor.py
@@ -34,6 +34,10 @@ class ResetVisitor(object):
         if self._is_array_element(node):
             # every element of an array has the initial value
             return vtypes.Subst(left, val.right)
+        if self._is_negative(val.right) and isinstance(node.pos, int):
+            # a shifted literal is not always wide enough for the sign
+            right = vtypes.Int((val.right >> node.pos) & 1, width=1)
+            return vtypes.Subst(left, right)
         if not isinstance(val.right, (vtypes._Variable, vtypes.Scope)):
             if isinstance(val.right, (int, bool)):
                 val_right = vtypes.Int(val.right)
@@ -57,6 +61,9 @@ class ResetVisitor(object):
         dims = getattr(node, 'dims', None)
         return dims is not None and depth <= len(dims)
 
+    def _is_negative(self, value):
+        return isinstance(value, int) and value < 0
+
     def _has_const_position(self, node):
         while isinstance(node, (vtypes.Pointer, vtypes.Slice)):
             positions = ((node.pos,) if isinstance(node, vtypes.Pointer) else
@@ -74,6 +81,11 @@ class ResetVisitor(object):
             return None
         if isinstance(val.right, vtypes._Variable):
             right = vtypes.Slice(val.right, node.msb, node.lsb)
+        elif (self._is_negative(val.right) and
+              isinstance(node.msb, int) and isinstance(node.lsb, int)):
+            width = node.msb - node.lsb + 1
+            right = vtypes.Int((val.right >> node.lsb) & ((1 << width) - 1),
+                               width=width)
         else:
             right = vtypes.And(vtypes.Srl(val.right, node.lsb),
                                vtypes.Repeat(vtypes.Int(1, width=1), node.msb - node.lsb + 1))
-- 
2.43.0


From 7ce7076a8121d5ca9c1cd6bc146b7b9f7fb79dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 024/119] fix: FSM without reset

---
 veriloggen/fsm/fsm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index ce2eaa7..4bff60b 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -412,6 +412,12 @@ class FSM(vtypes.VeriloggenNode):
         part_reset = self.make_reset(reset)
         part_body = list(body) + list(self.make_case()
                                       if case else self.make_if())
+        if self.rst is None:
+            self.m.Always(vtypes.Posedge(self.clk))(
+                part_body,
+            )
+            return
+
         self.m.Always(vtypes.Posedge(self.clk))(
             vtypes.If(self.rst)(
                 part_reset,
-- 
2.43.0


From 012db0038a8674c42bc540447ba21a4ba498d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 025/119] fix: Else and Elif around jumps and later conditions

---
 veriloggen/fsm/fsm.py | 26 ++++++++++++++------------
 veriloggen/seq/seq.py |  4 ++++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 4bff60b..7f8d489 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -96,9 +96,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_branch()
 
         if index is None:
             src = self.current
@@ -118,9 +116,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_branch()
 
         if index is None:
             src = self.current
@@ -141,9 +137,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_branch()
 
         if index is None:
             src = self.current
@@ -160,9 +154,7 @@ class FSM(vtypes.VeriloggenNode):
             cond = self.next_kwargs['cond']
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_next_branch()
 
         self._go(src, dst, cond, else_dst)
         return dst
@@ -220,6 +212,7 @@ class FSM(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self._clear_last_if_statement()
 
         cond = make_condition(*cond)
 
@@ -302,8 +295,11 @@ class FSM(vtypes.VeriloggenNode):
 
     def Then(self):
         cond = self._make_cond(self.last_cond)
+        last_if_statement = self.last_if_statement
         self._clear_last_cond()
         self.If(cond)
+        # same condition as before
+        self.last_if_statement = last_if_statement
         return self
 
     def Delay(self, delay):
@@ -889,6 +885,12 @@ class FSM(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
 
+    def _clear_next_branch(self):
+        # Elif or Else is used by a jump, not by the next statement
+        if self.elif_cond is not None or self.next_else:
+            self._clear_last_if_statement()
+            self._clear_elif_cond()
+
     def _clear_last_cond(self):
         self.last_cond = []
 
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 658b665..c02da5c 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -237,6 +237,7 @@ class Seq(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self._clear_last_if_statement()
 
         cond = make_condition(*cond)
 
@@ -313,8 +314,11 @@ class Seq(vtypes.VeriloggenNode):
 
     def Then(self):
         cond = self._make_cond(self.last_cond)
+        last_if_statement = self.last_if_statement
         self._clear_last_cond()
         self.If(cond)
+        # same condition as before
+        self.last_if_statement = last_if_statement
         return self
 
     def Delay(self, delay):
-- 
2.43.0


From ac4369655962930db1f18e4c9990ca8d09c0e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 026/119] fix: delayed statements of an FSM state given by
 index

---
 veriloggen/fsm/fsm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 7f8d489..84ab625 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -848,7 +848,8 @@ class FSM(vtypes.VeriloggenNode):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i,
+                                no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -873,7 +874,8 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i,
+                                no_delay_cond=True)
             prev = tmp
         return left(prev)
 
-- 
2.43.0


From 517e9f9b4b517cfd424e4c5f6c7045a3bb620639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:53 +0000
Subject: [PATCH 027/119] fix: FSM.State without index is the current state

---
 veriloggen/fsm/fsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 84ab625..e770ccd 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -324,7 +324,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
-- 
2.43.0


From 46b5f34f022e2e5493812c544d0c1c7d8fde325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:37 +0000
Subject: [PATCH 028/119] fix: declare the parameters used by reset values and
 parameter values in outlined modules

---
 veriloggen/fsm/fsm.py           | 2 ++
 veriloggen/seq/seq.py           | 2 ++
 veriloggen/seq/subst_visitor.py | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index e770ccd..40b065d 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -454,6 +454,8 @@ class FSM(vtypes.VeriloggenNode):
             if isinstance(dst, vtypes._Variable):
                 if dst.width is not None:
                     src_visitor.visit(dst.width)
+                # initial values are used in the reset statements
+                src_visitor.visit(dst.initval)
                 if dst.dims is not None:
                     for dim in dst.dims:
                         src_visitor.visit(dim)
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index c02da5c..f2b4ed2 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -471,6 +471,8 @@ class Seq(vtypes.VeriloggenNode):
             if isinstance(dst, vtypes._Variable):
                 if dst.width is not None:
                     src_visitor.visit(dst.width)
+                # initial values are used in the reset statements
+                src_visitor.visit(dst.initval)
                 if dst.dims is not None:
                     src_visitor.visit(dst.dims)
 
diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 996b2e0..32bbe57 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -92,6 +92,11 @@ class SubstSrcVisitor(CollectVisitor):
         self.srcs = OrderedDict()
 
     def visit__Variable(self, node):
+        if isinstance(node, (vtypes.Parameter, vtypes.Localparam)):
+            # definitions referred to by the value come first
+            self.visit(node.width)
+            self.visit(node.value)
+
         self.srcs[node.name] = node
 
         self.visit(node.width)
-- 
2.43.0


From e14bd48acdc474aaca29efa339ae02599d0a4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 029/119] fix: multi-dimensional and 1-bit arrays read by an
 outlined module

---
 veriloggen/fsm/fsm.py | 6 ++++--
 veriloggen/seq/seq.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 40b065d..0f7de0a 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -590,13 +590,13 @@ class FSM(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
+                for d, rep_dim in enumerate(rep_dims):
                     i = g.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
@@ -617,6 +617,8 @@ class FSM(vtypes.VeriloggenNode):
                         else:
                             a += i * b
 
+                if rep_width is None:
+                    rep_width = 1
                 v = in_line[a * rep_width:(a + 1) * rep_width]
                 p = g.Assign(ia(v))
 
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index f2b4ed2..a10d8cb 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -566,13 +566,13 @@ class Seq(vtypes.VeriloggenNode):
                               vtypes.Mul(rep_length, rep_width))
                 in_line = m.Input(arg_name + '_line', pack_width,
                                   signed=src.get_signed())
-                in_array = m.Wire(arg_name, rep_width, rep_length,
+                in_array = m.Wire(arg_name, rep_width, rep_dims,
                                   signed=src.get_signed())
 
                 g = m
                 ia = in_array
                 a = None
-                for rep_dim in rep_dims:
+                for d, rep_dim in enumerate(rep_dims):
                     i = g.TmpGenvar(prefix='i')
                     g = g.GenerateFor(i(0), i < rep_dim, i(i + 1))
                     ia = vtypes.Pointer(ia, i)
@@ -593,6 +593,8 @@ class Seq(vtypes.VeriloggenNode):
                         else:
                             a += i * b
 
+                if rep_width is None:
+                    rep_width = 1
                 v = in_line[a * rep_width:(a + 1) * rep_width]
                 p = g.Assign(ia(v))
 
-- 
2.43.0


From eabb4fa236c9801fd4a16bb6adc8b4ce8188a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 030/119] fix: keep default cases and statement attributes in
 an outlined module

---
 veriloggen/seq/subst_visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 32bbe57..bfe16a9 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -194,7 +194,8 @@ class SrcRenameVisitor(RenameVisitor):
         return self.visit_Case(node)
 
     def visit_When(self, node):
-        condition = self.visit(node.condition)
+        condition = (self.visit(node.condition)
+                     if node.condition is not None else ())
         statement = self.visit(node.statement)
         ret = vtypes.When(*condition)
         ret.statement = statement
@@ -223,7 +224,8 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Subst(self, node):
         left = node.left
         right = self.visit(node.right)
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, blk=node.blk,
+                            ldelay=node.ldelay, rdelay=node.rdelay)
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
-- 
2.43.0


From 1dc1f36b2ed1a2a2863add5fa8f4198213d1e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 031/119] fix: outlined state machine without state statements

---
 veriloggen/fsm/fsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 0f7de0a..5452cb8 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -464,6 +464,10 @@ class FSM(vtypes.VeriloggenNode):
         for statement in body:
             src_visitor.visit(statement)
 
+        # used in the definition of the state register and the reset statements
+        src_visitor.visit(self.state.width)
+        src_visitor.visit(self.state.initval)
+
         srcs = src_visitor.srcs.values()
 
         # collect sources in source variable definitions
-- 
2.43.0


From 9d3eef779d5e16e5db9131c9c1c89c0058e6a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 032/119] fix: function called without variable length
 arguments in a thread

---
 veriloggen/thread/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 5bdd1b2..2fb34b5 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -651,7 +651,7 @@ class CompileVisitor(ast.NodeVisitor):
                                 (len(tree.args.args), len(args)))
 
         # variable length args
-        if rest_args:
+        if tree.args.vararg is not None:
             baseobj = tree.args.vararg
             argname = (baseobj.id
                        if isinstance(baseobj, ast.Name)  # python 2
-- 
2.43.0


From ad81cb0a6bab34b296e7226e6e109381c22fb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 033/119] fix: evaluate a call in the condition of a while
 statement in every iteration

---
 veriloggen/thread/compiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 2fb34b5..14b775e 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -258,10 +258,11 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
-        # loop condition
+        # loop condition, evaluated in every iteration
+        begin_count = self.getFsmCount()
         test = self.visit(node.test)
 
-        begin_count = self.getFsmCount()
+        check_count = self.getFsmCount()
         self.incFsmCount()
         body_begin_count = self.getFsmCount()
 
@@ -276,7 +277,7 @@ class CompileVisitor(ast.NodeVisitor):
         self.incFsmCount()
         loop_exit_count = self.getFsmCount()
 
-        self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
+        self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
         unresolved_break = self.getUnresolvedBreak()
-- 
2.43.0


From 6851989e61bd92239c178a4d42710d0186fb995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 034/119] fix: chained comparison whose first part is a false
 constant in a thread

---
 veriloggen/thread/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 14b775e..4394caf 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -968,7 +968,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         ret = None
         for r in rslts:
-            if ret:
+            if ret is not None:
                 ret = vtypes.Land(ret, r)
             else:
                 ret = r
-- 
2.43.0


From 0a075bdcc9fddf35ad93b0973c5d3f1c0e998f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 035/119] fix: else clauses of loops in a thread were dropped

---
 veriloggen/thread/compiler.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 4394caf..3f02855 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -281,8 +281,6 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(body_end_count, begin_count)
 
         unresolved_break = self.getUnresolvedBreak()
-        for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
 
         unresolved_continue = self.getUnresolvedContinue()
         for c in unresolved_continue:
@@ -291,8 +289,26 @@ class CompileVisitor(ast.NodeVisitor):
         self.clearBreak()
         self.clearContinue()
 
+        self._loop_else(node.orelse)
+
+        loop_exit_count = self.getFsmCount()
+        for b in unresolved_break:
+            self.setFsm(b, loop_exit_count)
+
         self.setFsmLoop(begin_count, body_end_count)
 
+    def _loop_else(self, orelse):
+        # executed only when the loop is not left by a break statement
+        if not orelse:
+            return
+
+        self.pushScope()
+
+        for b in orelse:
+            self.visit(b)
+
+        self.popScope()
+
     def visit_For(self, node):
         if self.skip():
             return
@@ -334,11 +350,12 @@ class CompileVisitor(ast.NodeVisitor):
         node_body = node.body
 
         return self._for_range_fsm(begin_node, end_node, step_node,
-                                   iter_node, cond_node, update_node, node_body)
+                                   iter_node, cond_node, update_node, node_body,
+                                   orelse=node.orelse)
 
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
-                       target_update=None):
+                       target_update=None, orelse=()):
 
         self.pushScope()
 
@@ -377,8 +394,6 @@ class CompileVisitor(ast.NodeVisitor):
                     cond_node, loop_exit_count)
 
         unresolved_break = self.getUnresolvedBreak()
-        for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
 
         unresolved_continue = self.getUnresolvedContinue()
         for c in unresolved_continue:
@@ -387,6 +402,12 @@ class CompileVisitor(ast.NodeVisitor):
         self.clearBreak()
         self.clearContinue()
 
+        self._loop_else(orelse)
+
+        loop_exit_count = self.getFsmCount()
+        for b in unresolved_break:
+            self.setFsm(b, loop_exit_count)
+
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
     def _for_list(self, node):
@@ -415,7 +436,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         return self._for_range_fsm(begin_node, end_node, step_node,
                                    iter_node, cond_node, update_node, node_body,
-                                   target_update)
+                                   target_update, orelse=node.orelse)
 
     # --------------------------------------------------------------------------
     def visit_Call(self, node):
-- 
2.43.0


From 02da1f33bdb00e8d4e608f254a3b2856bef0e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 036/119] fix: range with a negative constant step in a thread

---
 veriloggen/thread/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 3f02855..9df84e1 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -344,7 +344,11 @@ class CompileVisitor(ast.NodeVisitor):
 
         iter_name = self.visit(node.target)
         iter_node = self.getVariable(iter_name, store=True)
-        cond_node = vtypes.LessThan(iter_node, end_node)
+        step_value = vtypes.raw_value(optimize(step_node))
+        if isinstance(step_value, int) and step_value < 0:
+            cond_node = vtypes.GreaterThan(iter_node, end_node)
+        else:
+            cond_node = vtypes.LessThan(iter_node, end_node)
         update_node = vtypes.Plus(iter_node, step_node)
 
         node_body = node.body
-- 
2.43.0


From 2d1c9985016350f394ff76deb198626db3e206db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:26 +0000
Subject: [PATCH 037/119] fix: loop over an empty list or no variable length
 arguments in a thread

---
 veriloggen/thread/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 9df84e1..dfb0506 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -419,6 +419,9 @@ class CompileVisitor(ast.NodeVisitor):
         target = self.getVariable(target_name, store=True)
         iterobj = self.visit(node.iter)
 
+        if len(iterobj) == 0:
+            return self._loop_else(node.orelse)
+
         begin_node = vtypes.Int(0)
         end_node = vtypes.Int(len(iterobj))
         step_node = vtypes.Int(1)
-- 
2.43.0


From 48e78d82a701d9c812bd0fc859d2d6306d555f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 038/119] fix: return statement with a call after another
 return in a thread

---
 veriloggen/thread/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index dfb0506..dde55ca 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -839,6 +839,9 @@ class CompileVisitor(ast.NodeVisitor):
         self.incFsmCount()
 
     def visit_Return(self, node):
+        if self.skip():
+            return None
+
         if node.value is None:
             self.addReturn(None)
             self.incFsmCount()
-- 
2.43.0


From a66fb3ceb19d9f2b6f926bf2bb6ac6ce500dd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 039/119] fix: break and continue of an outer loop were taken
 over by a following inner loop in a thread

---
 veriloggen/thread/compiler.py | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index dde55ca..ebcca00 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -267,6 +267,7 @@ class CompileVisitor(ast.NodeVisitor):
         body_begin_count = self.getFsmCount()
 
         self.pushScope()
+        scope = self.getCurrentScope()
 
         for b in node.body:
             self.visit(b)
@@ -280,14 +281,15 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
-        unresolved_break = self.getUnresolvedBreak()
+        # only the statements in this loop, not in the other parts of an outer loop
+        unresolved_break = self.getUnresolvedBreak(scope)
 
-        unresolved_continue = self.getUnresolvedContinue()
+        unresolved_continue = self.getUnresolvedContinue(scope)
         for c in unresolved_continue:
             self.setFsm(c, begin_count)
 
-        self.clearBreak()
-        self.clearContinue()
+        self.clearBreak(scope)
+        self.clearContinue(scope)
 
         self._loop_else(node.orelse)
 
@@ -362,6 +364,7 @@ class CompileVisitor(ast.NodeVisitor):
                        target_update=None, orelse=()):
 
         self.pushScope()
+        scope = self.getCurrentScope()
 
         # initialize
         self.setBind(iter_node, begin_node)
@@ -397,14 +400,15 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count,
                     cond_node, loop_exit_count)
 
-        unresolved_break = self.getUnresolvedBreak()
+        # only the statements in this loop, not in the other parts of an outer loop
+        unresolved_break = self.getUnresolvedBreak(scope)
 
-        unresolved_continue = self.getUnresolvedContinue()
+        unresolved_continue = self.getUnresolvedContinue(scope)
         for c in unresolved_continue:
             self.setFsm(c, body_end_count)
 
-        self.clearBreak()
-        self.clearContinue()
+        self.clearBreak(scope)
+        self.clearContinue(scope)
 
         self._loop_else(orelse)
 
@@ -1342,11 +1346,11 @@ class CompileVisitor(ast.NodeVisitor):
     def hasReturn(self):
         return self.scope.hasReturn()
 
-    def getUnresolvedBreak(self):
-        return self.scope.getUnresolvedBreak()
+    def getUnresolvedBreak(self, scope=None):
+        return self.scope.getUnresolvedBreak(scope)
 
-    def getUnresolvedContinue(self):
-        return self.scope.getUnresolvedContinue()
+    def getUnresolvedContinue(self, scope=None):
+        return self.scope.getUnresolvedContinue(scope)
 
     def getUnresolvedReturn(self):
         return self.scope.getUnresolvedReturn()
@@ -1357,11 +1361,11 @@ class CompileVisitor(ast.NodeVisitor):
     def getReturnVariable(self):
         return self.scope.getReturnVariable()
 
-    def clearBreak(self):
-        self.scope.clearBreak()
+    def clearBreak(self, scope=None):
+        self.scope.clearBreak(scope)
 
-    def clearContinue(self):
-        self.scope.clearContinue()
+    def clearContinue(self, scope=None):
+        self.scope.clearContinue(scope)
 
     def clearReturn(self):
         self.scope.clearReturn()
-- 
2.43.0


From ae019f0623c77d9f1f744709f3e843e6539421cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 040/119] fix: variable length arguments of a method are passed
 by value in a thread

---
 veriloggen/thread/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index ebcca00..2e24567 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -791,8 +791,12 @@ class CompileVisitor(ast.NodeVisitor):
         self.pushScope(ftype='call')
 
         resolved_args = inspect.getcallargs(method, *args, **kwargs)
+        varargs = inspect.getfullargspec(method).varargs
         for arg, value in sorted(resolved_args.items(), key=lambda x: x[0]):
-            self.setArgBind(arg, value)
+            if arg == varargs:
+                self.setVarargBind(arg, value)
+            else:
+                self.setArgBind(arg, value)
 
         self.setFsm()
         self.incFsmCount()
-- 
2.43.0


From 92c433b2bc630a29bf360b1b17bdfbee14e5e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 041/119] fix: keyword arguments of Thread.run

---
 veriloggen/thread/thread.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eafdcf2..eb0129a 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -307,7 +307,8 @@ class Thread(vtypes.VeriloggenNode):
                        else arginfo.arg)  # python 3
 
             # actual values can be assigned later in default value section
-            args_code.append(argname)
+            if argname not in kwargs:
+                args_code.append(argname)
 
             # regular args
             if pos < len(args):
@@ -416,7 +417,7 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(key, key))
+            kwargs_code.append('{}={}'.format(argname, argname))
 
         # defaults
         defaults_size = len(tree.args.defaults)
-- 
2.43.0


From d06eebe3ed70856cf5db933c4f5aff1b05a251ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 042/119] fix: Thread.reset in a state shared with other
 control flow

---
 veriloggen/thread/compiler.py | 25 +++++++++++++++++++++++--
 veriloggen/thread/pool.py     |  8 ++++++++
 veriloggen/thread/thread.py   |  9 +++++++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 2e24567..ce2eb15 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -43,6 +43,12 @@ class CompileError(Exception):
         return '"{}" in "{}", line {}'.format(self.err, self.code, self.lineno)
 
 
+def leave_pending_state(fsm):
+    """ go out of the current state if it has an effect without state transition """
+    if getattr(fsm, '_pending_state', None) == fsm.current:
+        fsm.goto_next()
+
+
 class FunctionVisitor(ast.NodeVisitor):
 
     def __init__(self):
@@ -232,6 +238,8 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node.body:  # true statement
             self.visit(b)
 
+        leave_pending_state(self.fsm)
+
         self.popScope()
 
         mid_count = self.getFsmCount()
@@ -248,6 +256,8 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node.orelse:  # false statement
             self.visit(b)
 
+        leave_pending_state(self.fsm)
+
         self.popScope()
 
         end_count = self.getFsmCount()
@@ -258,6 +268,8 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
+        leave_pending_state(self.fsm)
+
         # loop condition, evaluated in every iteration
         begin_count = self.getFsmCount()
         test = self.visit(node.test)
@@ -309,6 +321,8 @@ class CompileVisitor(ast.NodeVisitor):
         for b in orelse:
             self.visit(b)
 
+        leave_pending_state(self.fsm)
+
         self.popScope()
 
     def visit_For(self, node):
@@ -387,6 +401,9 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node_body:
             self.visit(b)
 
+        if self.getUnresolvedContinue(scope):
+            leave_pending_state(self.fsm)
+
         self.popScope()
 
         body_end_count = self.getFsmCount()
@@ -719,8 +736,10 @@ class CompileVisitor(ast.NodeVisitor):
         ret = self._visit_next_function(tree)
 
         # fsm jump by return statement
-        end_count = self.getFsmCount()
         unresolved_return = self.getUnresolvedReturn()
+        if unresolved_return:
+            leave_pending_state(self.fsm)
+        end_count = self.getFsmCount()
         for ret_count, value in unresolved_return:
             self.setFsm(ret_count, end_count)
 
@@ -808,8 +827,10 @@ class CompileVisitor(ast.NodeVisitor):
         ret = self._visit_next_function(tree)
 
         # fsm jump by return statement
-        end_count = self.getFsmCount()
         unresolved_return = self.getUnresolvedReturn()
+        if unresolved_return:
+            leave_pending_state(self.fsm)
+        end_count = self.getFsmCount()
         for ret_count, value in unresolved_return:
             self.setFsm(ret_count, end_count)
 
diff --git a/veriloggen/thread/pool.py b/veriloggen/thread/pool.py
index 4739ed0..677ebad 100644
--- a/veriloggen/thread/pool.py
+++ b/veriloggen/thread/pool.py
@@ -7,6 +7,7 @@ import veriloggen.core.vtypes as vtypes
 from veriloggen.fsm.fsm import FSM
 
 from .thread import Thread
+from .compiler import leave_pending_state
 
 
 def to_thread_pool(*threads):
@@ -109,6 +110,8 @@ class ThreadPool(vtypes.VeriloggenNode):
     def join(self, fsm, tid):
         """ wait for the completion """
 
+        leave_pending_state(fsm)
+
         patterns = []
         for thread in self.threads:
             if thread.end_state is None:
@@ -125,6 +128,8 @@ class ThreadPool(vtypes.VeriloggenNode):
     def done(self, fsm, tid):
         """ check whethe the thread is running """
 
+        leave_pending_state(fsm)
+
         patterns = []
         for thread in self.threads:
             if thread.end_state is None:
@@ -159,6 +164,9 @@ class ThreadPool(vtypes.VeriloggenNode):
                 thread.end_state, thread.start_state, reset_flag)
             thread.fsm._set_index(thread.start_state)
 
+        # this state must not be shared with another control flow
+        fsm._pending_state = fsm.current
+
         return 0
 
     def ret(self, fsm, tid):
diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eb0129a..7831f4a 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -105,6 +105,8 @@ class Thread(vtypes.VeriloggenNode):
     def run(self, fsm, *args, **kwargs):
         """ start as a child thread """
 
+        compiler.leave_pending_state(fsm)
+
         if not self.is_child and self.end_state is not None:
             raise ValueError('already started')
 
@@ -134,6 +136,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        compiler.leave_pending_state(fsm)
+
         end_flag = (self.fsm.state == self.end_state)
         fsm.If(end_flag).goto_next()
 
@@ -145,6 +149,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        compiler.leave_pending_state(fsm)
+
         end_flag = (self.fsm.state == self.end_state)
 
         return end_flag
@@ -167,6 +173,9 @@ class Thread(vtypes.VeriloggenNode):
         self.fsm.goto_from(self.end_state, self.start_state, reset_flag)
         self.fsm._set_index(self.start_state)
 
+        # this state must not be shared with another control flow
+        fsm._pending_state = fsm.current
+
         return 0
 
     def ret(self, fsm):
-- 
2.43.0


From 305d1a4778cc1cfb1b6115969bc12c3262941bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 043/119] fix: point of fixed point numbers in child threads
 and arguments of TmpThread

---
 veriloggen/thread/thread.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index 7831f4a..68b3722 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -19,7 +19,8 @@ def reset():
 def TmpThread(m, clk, rst, targ, datawidth=32, tid=None,
               fsm_as_module=False):
     name = compiler._tmp_name()
-    return Thread(m, name, clk, rst, targ, datawidth, tid, fsm_as_module)
+    return Thread(m, name, clk, rst, targ, datawidth, tid=tid,
+                  fsm_as_module=fsm_as_module)
 
 
 def embed_thread(fsm, func, *args, **kwargs):
@@ -298,7 +299,7 @@ class Thread(vtypes.VeriloggenNode):
                                            functions, self.intrinsic_functions,
                                            self.intrinsic_methods,
                                            self.start_frame,
-                                           datawidth=self.datawidth)
+                                           datawidth=self.datawidth, point=self.point)
 
         text = textwrap.dedent(inspect.getsource(self.targ))
         tree = ast.parse(text).body[0]
-- 
2.43.0


From c9b681c1c1cd07b3531add2d79c8e320857a6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 044/119] fix: ThreadPool.start was hidden by a register

---
 veriloggen/thread/pool.py   | 17 +++++++++--------
 veriloggen/thread/thread.py | 14 +++++++++++---
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/veriloggen/thread/pool.py b/veriloggen/thread/pool.py
index 677ebad..3d84190 100644
--- a/veriloggen/thread/pool.py
+++ b/veriloggen/thread/pool.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from __future__ import print_function
+import inspect
 import os
 import sys
 
@@ -54,26 +55,26 @@ class ThreadPool(vtypes.VeriloggenNode):
         else:
             raise ValueError('threads or other options must be specified.')
 
-        self.start = self.m.Reg(
+        self.start_flags = self.m.Reg(
             '_'.join(['', name, 'start']), self.numthreads, initval=0)
 
     def start(self, tid, *args, **kwargs):
-        return self.threads[tid].start(*args, **kwargs)
+        frame = inspect.currentframe()
+        return self.threads[tid]._start(frame.f_back, args, kwargs)
 
     def extend(self, tid, fsm, *args, **kwargs):
-        return self.threads[tid].extend(fsm, *args, **kwargs)
+        frame = inspect.currentframe()
+        return self.threads[tid]._extend(frame.f_back, fsm, args, kwargs)
 
     def run(self, fsm, tid, *args, **kwargs):
         """ start as a child thread """
 
         fsm(
-            self.start[tid](1)
+            self.start_flags[tid](1)
         )
         fsm.goto_next()
 
         for thread in self.threads:
-            start_cond = self.start[thread.tid]
-
             if not thread.is_child and thread.end_state is not None:
                 raise ValueError('thread %d already started' % thread.tid)
 
@@ -91,7 +92,7 @@ class ThreadPool(vtypes.VeriloggenNode):
         fsm_start = fsm.current
 
         for thread in self.threads:
-            start_cond = self.start[thread.tid]
+            start_cond = self.start_flags[thread.tid]
 
             fsm._set_index(fsm_start)
 
@@ -101,7 +102,7 @@ class ThreadPool(vtypes.VeriloggenNode):
                 thread.end_state = thread.fsm.current
 
         fsm(
-            self.start[tid](0)
+            self.start_flags[tid](0)
         )
         fsm.goto_next()
 
diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index 68b3722..3cf5ab9 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -65,14 +65,18 @@ class Thread(vtypes.VeriloggenNode):
     def start(self, *args, **kwargs):
         """ build up a new FSM based on the arguments """
 
+        frame = inspect.currentframe()
+        return self._start(frame.f_back, args, kwargs)
+
+    def _start(self, start_frame, args, kwargs):
+
         if self.is_child:
             raise ValueError('already started as a child thread')
 
         if self.end_state is not None:
             raise ValueError('already started')
 
-        frame = inspect.currentframe()
-        self.start_frame = frame.f_back
+        self.start_frame = start_frame
 
         self.fsm = FSM(self.m, self.name, self.clk, self.rst,
                        as_module=self.fsm_as_module)
@@ -87,7 +91,11 @@ class Thread(vtypes.VeriloggenNode):
         """ extend a given thread FSM """
 
         frame = inspect.currentframe()
-        self.start_frame = frame.f_back
+        return self._extend(frame.f_back, fsm, args, kwargs)
+
+    def _extend(self, start_frame, fsm, args, kwargs):
+
+        self.start_frame = start_frame
 
         self._synthesize_start_fsm(args, kwargs, fsm)
 
-- 
2.43.0


From 73a77c8617bbd1e2983a07e8de39f4ac0c5eea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 045/119] fix: order of keyword arguments of Thread.run

---
 veriloggen/thread/thread.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index 3cf5ab9..4fc85ab 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -325,8 +325,7 @@ class Thread(vtypes.VeriloggenNode):
                        else arginfo.arg)  # python 3
 
             # actual values can be assigned later in default value section
-            if argname not in kwargs:
-                args_code.append(argname)
+            args_code.append(argname)
 
             # regular args
             if pos < len(args):
@@ -435,7 +434,8 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(argname, argname))
+            if argname not in args_code:
+                kwargs_code.append('{}={}'.format(argname, argname))
 
         # defaults
         defaults_size = len(tree.args.defaults)
-- 
2.43.0


From d35b5c7924c866fae3094442f1fb9f653cde2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 046/119] fix: part select by a pair in Shared.write

---
 veriloggen/thread/ttypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ttypes.py b/veriloggen/thread/ttypes.py
index 2226820..9b3097e 100644
--- a/veriloggen/thread/ttypes.py
+++ b/veriloggen/thread/ttypes.py
@@ -319,7 +319,7 @@ class Shared(_MutexFunction):
 
         def getval(v, p):
             if isinstance(p, (tuple, list)):
-                return v[p[0], p[1]]
+                return vtypes.Slice(v, p[0], p[1])
             return v[p]
 
         if len(part) == 0:
-- 
2.43.0


From 7941e345f32be8a6bfc612cc1b7c72186e96af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 047/119] fix: registers of Prev of one variable in several
 Seqs

---
 veriloggen/seq/seq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index a10d8cb..3fc590d 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -226,8 +226,12 @@ class Seq(vtypes.VeriloggenNode):
                 if tmp_name in self.prev_dict:
                     p = self.prev_dict[tmp_name]
                     continue
+                # the name can be used by another Seq of the same variable
+                reg_name = tmp_name
+                while self.m.find_identifier(reg_name) is not None:
+                    reg_name = _tmp_name(tmp_name)
                 tmp = self.m.Reg(
-                    tmp_name, width, initval=initval, signed=signed)
+                    reg_name, width, initval=initval, signed=signed)
                 self.prev_dict[tmp_name] = tmp
                 self._add_statement([tmp(p)])
                 p = tmp
-- 
2.43.0


From fe960cf37b3528172292ca05866987298066bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 048/119] fix: MultibankRAM.write_rtl without condition

---
 veriloggen/thread/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index feafe52..7083616 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -530,7 +530,7 @@ class MultibankRAM(RAM):
         addr = addr >> self.shift
 
         for i, ram in enumerate(self.rams):
-            bank_cond = vtypes.Ands(cond, bank == i)
+            bank_cond = make_condition(cond, bank == i)
             ram.write_rtl(addr, wdata, port, bank_cond)
 
         return 0
-- 
2.43.0


From 67a1abc5e761dc9fee9b943e10d13b1454f7bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 049/119] fix: wready of MultibankRAM.write_burst_block was
 taken from the next states

---
 veriloggen/thread/ram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index 7083616..2dd8f35 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -824,10 +824,10 @@ class MultibankRAM(RAM):
             fsm.If(wvalid, wlast).goto_init()
             fsm.If(wquit).goto_init()
 
-            fsm.inc()
-
             wready = vtypes.Ors(wready, fsm.here)
 
+            fsm.inc()
+
         return wready, done
 
     def write_burst_packed(self, addr, stride, packed_length, blocksize,
-- 
2.43.0


From 96f73460762e64d28817d00b240eef5ab18b6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 050/119] fix: done of MultibankRAM.write_burst_bcast

---
 veriloggen/thread/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index 2dd8f35..a1fe5b6 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -898,7 +898,7 @@ class MultibankRAM(RAM):
                                            wdata, wvalid, wlast, wquit,
                                            port, cond)
             wready_list.append(wready)
-            done_list.append(done_list)
+            done_list.append(done)
 
         return wready_list[0], done_list[0]
 
-- 
2.43.0


From 2ebd398e25269af12551700ae26620c2050c4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 051/119] fix: with_enable of AsyncRAM was ignored

---
 veriloggen/types/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/types/ram.py b/veriloggen/types/ram.py
index dc0c534..6ef6b3d 100644
--- a/veriloggen/types/ram.py
+++ b/veriloggen/types/ram.py
@@ -225,4 +225,4 @@ class AsyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=False)
+                          initvals, sync=False, with_enable=with_enable)
-- 
2.43.0


From 8af8c4f2de997c43134318eb25f4fc0b23db418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 052/119] fix: mkRAMDefinition appended to the initial values
 of the caller

---
 veriloggen/types/ram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/types/ram.py b/veriloggen/types/ram.py
index 6ef6b3d..9be33f3 100644
--- a/veriloggen/types/ram.py
+++ b/veriloggen/types/ram.py
@@ -60,6 +60,8 @@ def mkRAMDefinition(name, datawidth=32, addrwidth=10, numports=2,
                                     str(type(initval)))
 
             initvals = new_initvals
+        else:
+            initvals = list(initvals)
 
         if 2 ** addrwidth > len(initvals):
             initvals.extend(
-- 
2.43.0


From dddc4e60b1ab07bbaf4a5da901fefb2a91de9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:17 +0000
Subject: [PATCH 053/119] fix: FixedFIFO exchanged external_write and
 external_read

---
 veriloggen/thread/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
-- 
2.43.0


From fb0cac5384e72d42e7d024e19f758cb3f3c2c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:59 +0000
Subject: [PATCH 054/119] fix: an alias variable of a stream overwrote the
 start stage of its source

---
 veriloggen/stream/scheduler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/veriloggen/stream/scheduler.py b/veriloggen/stream/scheduler.py
index 500106c..b3fd248 100644
--- a/veriloggen/stream/scheduler.py
+++ b/veriloggen/stream/scheduler.py
@@ -180,9 +180,7 @@ class ASAPScheduler(_Scheduler):
         if node._has_start_stage():
             return node._get_end_stage()
         if isinstance(node.input_data, stypes._Numeric):
-            data = self.visit(node.input_data)
-            node._set_start_stage(data)
-            return data
+            return self.visit(node.input_data)
         mine = 0
         node._set_start_stage(mine)
         end = mine
-- 
2.43.0


From 27e8295706128e902cb6618646fd4a67f26fbbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:59 +0000
Subject: [PATCH 055/119] fix: signedness of integer parameters and fixed point
 constants of streams

---
 veriloggen/stream/stypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index aadec00..b485dd6 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -58,7 +58,7 @@ def ParameterVariable(data, width=32, point=0, signed=True):
     if isinstance(data, float):
         return Constant(data, point=point)
     if isinstance(data, (int, bool)):
-        data = vtypes.Int(data, width=width)
+        data = vtypes.Int(data, width=width, signed=signed)
     return _ParameterVariable(data, width, point, signed)
 
 
@@ -3960,7 +3960,7 @@ class FixedPoint(_Constant):
         self.point = 0
 
     def _implement(self, m, seq, svalid=None, senable=None):
-        data = vtypes.Int(self.value, width=self.width)
+        data = vtypes.Int(self.value, width=self.width, signed=self.signed)
         self.sig_data = data
 
 
-- 
2.43.0


From ffb7c7a61ac97b61d977b698ce6c102e0ae72650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 056/119] fix: arguments of the function of CustomCounter

---
 veriloggen/stream/stypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index b485dd6..4694547 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3870,7 +3870,8 @@ class _CustomCounter(_SpecialOperator):
         data.assign(vtypes.Cat(*vars))
         self.sig_data = data
 
-        args = arg_data[self.num_vars:self.num_vars + self.num_vars]
+        args = (arg_data[self.num_vars:-1] if self.reset is not None else
+                arg_data[self.num_vars:])
         func_args = vars + args
         next_vars = self.func(*func_args)
 
-- 
2.43.0


From 4735510b38f2bbefd1bbe569416c7f825106159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 057/119] fix: a copied alias variable of a stream became a
 copy of its source

---
 veriloggen/stream/stypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 4694547..405a22a 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2872,6 +2872,10 @@ class _Variable(_Numeric):
         if attr == '__class__':
             return _Numeric.__getattribute__(self, '__class__')
 
+        # for copy: a variable must not be copied as the variable behind it
+        if attr in ('__reduce_ex__', '__getstate__', '__dict__'):
+            return _Numeric.__getattribute__(self, attr)
+
         try:
             input_data = _Numeric.__getattribute__(self, 'input_data')
         except AttributeError:
-- 
2.43.0


From c505ba21ce83616c8dbe75b12657c8f569d6976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 058/119] fix: LUT of a stream with a number of patterns that
 is not a power of 2

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 405a22a..ed00f56 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2151,7 +2151,7 @@ class LUT(_SpecialOperator):
 
         arg_data = self.address.sig_data
 
-        size = int(log(len(self.patterns), 2))
+        size = max((len(self.patterns) - 1).bit_length(), 1)
         address = m.Wire(self.name('lut_address'), width=size)
         address.assign(arg_data)
 
-- 
2.43.0


From e6b59ac70ba33eef9cefc17e958e5a3765a570a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 059/119] fix: streams compared and selected values with
 different points wrongly

---
 veriloggen/stream/stypes.py | 15 +++++++++++++--
 veriloggen/types/fixed.py   | 26 +++++++++++++++++++++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index ed00f56..2673cc1 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -497,7 +497,9 @@ class _BinaryOperator(_Operator):
         lpoint = self.left.get_point()
         rpoint = self.right.get_point()
         ldata, rdata = fx.adjust(self.left.sig_data, self.right.sig_data,
-                                 lpoint, rpoint, signed)
+                                 lpoint, rpoint,
+                                 self.left.get_signed() and self.right.get_signed(),
+                                 exact=True)
 
         enable_cond = senable
         if self.initiation_interval != 1:
@@ -1830,7 +1832,16 @@ class Cond(_SpecialOperator):
 
     def __init__(self, condition, true_value, false_value):
         _SpecialOperator.__init__(self, condition, true_value, false_value)
-        self.op = vtypes.Cond
+        self.op = self._select
+
+    def _select(self, condition, true_value, false_value):
+        true_value, false_value = fx.adjust(true_value, false_value,
+                                            self.true_value.get_point(),
+                                            self.false_value.get_point(),
+                                            self.true_value.get_signed() and
+                                            self.false_value.get_signed(),
+                                            exact=True)
+        return vtypes.Cond(condition, true_value, false_value)
 
     def _set_attributes(self):
         true_value_fp = self.true_value.get_point()
diff --git a/veriloggen/types/fixed.py b/veriloggen/types/fixed.py
index c6f7de4..215b98e 100644
--- a/veriloggen/types/fixed.py
+++ b/veriloggen/types/fixed.py
@@ -219,6 +219,8 @@ def to_signed(value):
     if isinstance(value, int):
         return vtypes.Int(value, signed=True)
     if isinstance(value, vtypes.Int):
+        if value.width is not None and value.signed:
+            return value
         return vtypes.Int(value.value, signed=True)
     if vtypes.get_signed(value):
         return value
@@ -227,11 +229,14 @@ def to_signed(value):
     return _FixedSkipUnaryOperator(data, point, True)
 
 
-def adjust(left, right, lpoint, rpoint, signed=True):
+def adjust(left, right, lpoint, rpoint, signed=True, exact=False):
+    """ align the points of two values.
+    If 'exact' is True, the upper bits are kept in any context (comparison, selection). """
     diff_lpoint = 0 if rpoint < lpoint else rpoint - lpoint
     diff_rpoint = 0 if lpoint < rpoint else lpoint - rpoint
-    ldata = left if diff_lpoint == 0 else shift_left(left, diff_lpoint, signed)
-    rdata = right if diff_rpoint == 0 else shift_left(right, diff_rpoint, signed)
+    shift = scale_up if exact else shift_left
+    ldata = left if diff_lpoint == 0 else shift(left, diff_lpoint, signed)
+    rdata = right if diff_rpoint == 0 else shift(right, diff_rpoint, signed)
     _ldata = to_signed(ldata) if signed and diff_lpoint != 0 else ldata
     _rdata = to_signed(rdata) if signed and diff_rpoint != 0 else rdata
     return _ldata, _rdata
@@ -272,6 +277,21 @@ def shift_left(value, size, signed=True):
     return vtypes.Sll(value, size)
 
 
+def scale_up(value, size, signed=True):
+    """ left shift without losing the upper bits """
+    if (isinstance(value, vtypes._Numeric) and
+        not isinstance(value, vtypes._Constant) and
+            (signed or isinstance(value, vtypes._Variable))):
+        return vtypes.Cat(value, vtypes.Int(0, width=size))
+
+    if (isinstance(value, vtypes.Int) and isinstance(value.value, int) and
+            value.width is not None):
+        return vtypes.Int(value.value << size, width=value.width + size,
+                          signed=value.signed)
+
+    return shift_left(value, size, signed)
+
+
 def shift_right(value, size, signed=True):
     if isinstance(value, vtypes.Int):
         value = value.value
-- 
2.43.0


From b399fc441bb96672f27a4f7a5bcfd4ded197e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 060/119] fix: computed shift amounts and bit positions of
 streams

---
 veriloggen/stream/stypes.py | 55 ++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 2673cc1..059d1dd 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -192,7 +192,8 @@ class _Numeric(_Node):
         return self.width
 
     def eval(self):
-        raise NotImplementedError('eval() is not implemented')
+        # a value that is not resolved by the operands represents itself
+        return self
 
     def _set_attributes(self):
         raise NotImplementedError('_set_attributes() is not implemented')
@@ -357,6 +358,42 @@ class _Numeric(_Node):
     def __rshift__(self, r):
         return Srl(self, r)
 
+    def __radd__(self, l):
+        return Plus(l, self)
+
+    def __rsub__(self, l):
+        return Minus(l, self)
+
+    def __rpow__(self, l):
+        return Power(l, self)
+
+    def __rmul__(self, l):
+        return Times(l, self)
+
+    def __rdiv__(self, l):
+        return Divide(l, self)
+
+    def __rtruediv__(self, l):
+        return Divide(l, self)
+
+    def __rmod__(self, l):
+        return Mod(l, self)
+
+    def __rand__(self, l):
+        return And(l, self)
+
+    def __ror__(self, l):
+        return Or(l, self)
+
+    def __rxor__(self, l):
+        return Xor(l, self)
+
+    def __rlshift__(self, l):
+        return Sll(l, self)
+
+    def __rrshift__(self, l):
+        return Srl(l, self)
+
     def __neg__(self):
         return Uminus(self)
 
@@ -1784,8 +1821,9 @@ class Cat(_SpecialOperator):
             if not isinstance(var, int):
                 return Cat(*vars)
         ret = 0
-        for var in vars:
-            ret = (ret << var.get_width()) | var
+        for value, var in zip(vars, self.vars):
+            width = var.get_width()
+            ret = (ret << width) | (value & ((1 << width) - 1))
         return ret
 
 
@@ -1822,9 +1860,12 @@ class Repeat(_SpecialOperator):
     def eval(self):
         var = self.var.eval()
         times = self.times.eval()
+        if not isinstance(var, int):
+            return Repeat(var, times)
+        width = self.var.get_width()
         ret = 0
-        for i in times:
-            ret = (ret << var.get_width()) | var
+        for i in range(times):
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -2489,7 +2530,7 @@ class _PlusN(_SpecialOperator):
         self.graph_label = 'PlusN'
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
+        vars = [var.eval() for var in self.args]
         for var in vars:
             if not isinstance(var, int):
                 return PlusN(*vars)
@@ -2596,7 +2637,7 @@ class _MulAdd(_SpecialOperator):
         m.Instance(inst, self.name('madd'), ports=ports)
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
+        vars = [var.eval() for var in self.args]
         for var in vars:
             if not isinstance(var, int):
                 return MulAdd(*vars)
-- 
2.43.0


From 99487d781f1c4a61c9c590fb836d41ad2b50b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:22 +0000
Subject: [PATCH 061/119] fix: optimizer changed the value of expressions or
 failed

---
 veriloggen/optimizer/optimizer.py | 219 +++++++++++++++++++++++++++---
 1 file changed, 199 insertions(+), 20 deletions(-)

diff --git a/veriloggen/optimizer/optimizer.py b/veriloggen/optimizer/optimizer.py
index efbc516..9f4a1c5 100644
--- a/veriloggen/optimizer/optimizer.py
+++ b/veriloggen/optimizer/optimizer.py
@@ -5,7 +5,6 @@ import os
 
 import veriloggen.core.vtypes as vtypes
 import veriloggen.types.fixed as fxd
-import pyverilog.dataflow.reorder as reorder
 import pyverilog.dataflow.optimizer as voptimizer
 from pyverilog.dataflow.dataflow import *
 
@@ -20,21 +19,191 @@ def try_optimize(node, width=32):
 
 def optimize(node, width=32):
     df_tree = makeDFTree(node)
-    opt = voptimizer.VerilogOptimizer({}, default_width=width)
+    opt = _Optimizer({}, default_width=width)
     opt_dfnode = opt.optimize(df_tree)
     opt_node = makeASTTree(opt_dfnode)
     return opt_node
 
 
+class _Terminal(DFTerminal):
+    """ variable, or any other object which is not optimized """
+
+    def __init__(self, name, original):
+        DFTerminal.__init__(self, name)
+        self.original = original
+
+    def tocode(self, dest='dest'):
+        return self.name
+
+
+class _Optimizer(voptimizer.VerilogOptimizer):
+    """ optimizer which applies only rewriting rules that preserve the value """
+
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq',
+                   'Eq', 'NotEq', 'Eql', 'NotEql')
+    logical_ops = ('Land', 'Lor', 'Ulnot')
+    reduction_ops = ('Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+    boolean_ops = compare_ops + logical_ops + reduction_ops
+    left_ops = ('Sll', 'Srl', 'Sra', 'Power')
+
+    def isBoolean(self, node):
+        """ 0 or 1, even if it is extended by the expression around it """
+        if isinstance(node, DFOperator):
+            return (node.operator in self.boolean_ops or
+                    (node.operator in ('And', 'Or', 'Xor') and
+                     all([self.isBoolean(n) for n in node.nextnodes])))
+        if isinstance(node, DFBranch):
+            return self.isBoolean(node.truenode) and self.isBoolean(node.falsenode)
+        return self.getWidth(node) == 1 and not self.isSigned(node)
+
+    def getWidth(self, node):
+        """ self-determined width """
+        if isinstance(node, _Terminal):
+            width = vtypes.get_width(node.original)
+            return width if isinstance(width, int) else self.default_width
+        if isinstance(node, DFEvalValue):
+            return 1 if node.width == 1 else self.default_width
+        if isinstance(node, DFOperator):
+            if node.operator in self.boolean_ops:
+                return 1
+            if node.operator in self.left_ops:
+                return self.getWidth(node.nextnodes[0])
+            return max([self.getWidth(n) for n in node.nextnodes])
+        if isinstance(node, DFBranch):
+            return max(self.getWidth(node.truenode), self.getWidth(node.falsenode))
+        if isinstance(node, DFSyscall) and node.syscall in ('signed', 'unsigned'):
+            return self.getWidth(node.nextnodes[0])
+        return self.default_width
+
+    def isSigned(self, node):
+        if isinstance(node, _Terminal):
+            return vtypes.get_signed(node.original)
+        if isinstance(node, DFEvalValue):
+            return node.width != 1
+        if isinstance(node, DFOperator):
+            if node.operator in self.boolean_ops:
+                return False
+            if node.operator in self.left_ops:
+                return self.isSigned(node.nextnodes[0])
+            return all([self.isSigned(n) for n in node.nextnodes])
+        if isinstance(node, DFBranch):
+            return self.isSigned(node.truenode) and self.isSigned(node.falsenode)
+        if isinstance(node, DFSyscall):
+            return node.syscall != 'unsigned'
+        return False
+
+    def optimizeConstant(self, tree):
+        if isinstance(tree, DFBranch):
+            return self.optimizeBranch(tree, self.optimizeConstant)
+        return voptimizer.VerilogOptimizer.optimizeConstant(self, tree)
+
+    def optimizeHierarchy(self, tree):
+        if isinstance(tree, DFBranch):
+            return self.optimizeBranch(tree, self.optimizeHierarchy)
+        return voptimizer.VerilogOptimizer.optimizeHierarchy(self, tree)
+
+    def optimizeBranch(self, tree, optimize):
+        node = DFBranch(optimize(tree.condnode),
+                        optimize(tree.truenode), optimize(tree.falsenode))
+        if isinstance(node.condnode, DFEvalValue):
+            ret = node.truenode if self.isCondTrue(node.condnode) else node.falsenode
+        elif node.truenode == node.falsenode:
+            ret = node.truenode
+        else:
+            return node
+        return self.replace(node, ret)
+
+    def evalOperator(self, operator, nextnodes):
+        values = [n.value for n in nextnodes]
+
+        if not all([isinstance(v, int) for v in values]):
+            return None
+
+        if operator in self.boolean_ops:
+            if (operator in self.reduction_ops and
+                    any([n.width == 1 for n in nextnodes])):
+                return None
+            value = self._evalOperator(operator, values, self.default_width)
+            return None if value is None else DFEvalValue(int(value), 1)
+
+        if any([n.width == 1 for n in nextnodes]):
+            return None
+        if operator in ('Divide', 'Mod') and (values[0] < 0 or values[1] <= 0):
+            return None
+        if operator in ('Power', 'Sll', 'Srl', 'Sra') and values[1] < 0:
+            return None
+        if operator in ('Srl', 'Sra') and values[0] < 0:
+            return None
+
+        value = self._evalOperator(operator, values, self.default_width)
+        return None if value is None else DFEvalValue(value, self.default_width)
+
+    def _evalOperator(self, operator, valuelist, width=32):
+        if operator == 'Unot':
+            return ~valuelist[0]
+        if operator == 'Divide':
+            return valuelist[0] // valuelist[1]
+        return voptimizer.VerilogOptimizer._evalOperator(self, operator, valuelist, width)
+
+    def replace(self, node, ret):
+        """ an expression must keep its width and signedness,
+        because they affect the expressions around it """
+        if ret is node:
+            return node
+        if isinstance(ret, DFEvalValue):
+            if self.isBoolean(node) and ret.value in (0, 1):
+                return DFEvalValue(ret.value, 1)
+            if self.isSigned(node) and self.getWidth(node) == self.default_width:
+                return DFEvalValue(ret.value, self.default_width)
+            return node
+        if (self.isSigned(node) == self.isSigned(ret) and
+                self.getWidth(node) == self.getWidth(ret) and
+                (not self.isBoolean(node) or self.isBoolean(ret))):
+            return ret
+        return node
+
+    def replaceOperator(self, node):
+        ret = voptimizer.VerilogOptimizer.replaceOperator(self, node)
+        return self.replace(node, ret)
+
+    def mergeIdenticalNodes(self, node):
+        ret = voptimizer.VerilogOptimizer.mergeIdenticalNodes(self, node)
+        return self.replace(node, ret)
+
+    def mergeStaticNodes(self, node):
+        if (isinstance(node, DFOperator) and node.operator in ('Land', 'Lor') and
+            any([isinstance(n, DFOperator) and n.operator == 'Unot' and
+                 self.getWidth(n) != 1 for n in node.nextnodes])):
+            return node
+        ret = voptimizer.VerilogOptimizer.mergeStaticNodes(self, node)
+        return self.replace(node, ret)
+
+    def isReordered(self, node, ret):
+        if not (isinstance(node, DFOperator) and isinstance(ret, DFOperator) and
+                node.operator == ret.operator and node.operator in ('Land', 'Lor')):
+            return False
+        return self.countOperands(node) == self.countOperands(ret)
+
+    def countOperands(self, node):
+        def count(n):
+            if isinstance(n, DFOperator) and n.operator == node.operator:
+                return sum([count(c) for c in n.nextnodes])
+            return 1
+        return count(node)
+
+    def mergeLandLor(self, node):
+        ret = voptimizer.VerilogOptimizer.mergeLandLor(self, node)
+        if self.isReordered(node, ret):
+            return node
+        return self.replace(node, ret)
+
+
 def makeDFTree(node):
     if isinstance(node, fxd._FixedBase):
         raise TypeError('FixedPoint is not supported.')
 
     if isinstance(node, vtypes._Variable):
-        name = node.name
-        v = DFTerminal(name)
-        v.original = node
-        return v
+        return _Terminal(node.name, node)
 
     if isinstance(node, bool):
         v = 1 if node else 0
@@ -50,6 +219,8 @@ def makeDFTree(node):
         return DFStringConst(node)
 
     if isinstance(node, vtypes.Int):
+        if not isinstance(node.value, int) or node.width is not None:
+            return _Terminal('Int_%d' % node.object_id, node)
         return DFIntConst(str(node.value))
 
     if isinstance(node, vtypes.Float):
@@ -61,27 +232,27 @@ def makeDFTree(node):
     if isinstance(node, vtypes.Cond):
         true_df = makeDFTree(node.true_value)
         false_df = makeDFTree(node.false_value)
-        cond_df = makeDFTree(node.cond)
-        if isinstance(cond_df, DFBranch):
-            return reorder.insertCond(cond_df, true_df, false_df)
+        cond_df = makeDFTree(node.condition)
         return DFBranch(cond_df, true_df, false_df)
 
+    if isinstance(node, vtypes.Uplus):
+        return makeDFTree(node.right)
+
     if isinstance(node, vtypes._UnaryOperator):
         right_df = makeDFTree(node.right)
-        if isinstance(right_df, DFBranch):
-            return reorder.insertUnaryOp(right_df, node.__class__.__name__)
         return DFOperator((right_df,), node.__class__.__name__)
 
     if isinstance(node, vtypes._BinaryOperator):
         left_df = makeDFTree(node.left)
         right_df = makeDFTree(node.right)
-        if isinstance(left_df, DFBranch) or isinstance(right_df, DFBranch):
-            return reorder.insertOp(left_df, right_df, node.__class__.__name__)
         return DFOperator((left_df, right_df,), node.__class__.__name__)
 
     if isinstance(node, vtypes.SystemTask):
         return DFSyscall(node.cmd, tuple([makeDFTree(n) for n in node.args]))
 
+    if isinstance(node, vtypes._Numeric):
+        return _Terminal('%s_%d' % (node.__class__.__name__, node.object_id), node)
+
     raise TypeError("unsupported type: %s %s" % (str(type(node)), str(node)))
 
 
@@ -98,7 +269,7 @@ operators = {
     'Or': vtypes.Or,
     'Xor': vtypes.Xor,
     'And': vtypes.And,
-    'Divide': vtypes.Divide,
+    'Xnor': vtypes.Xnor,
     'Land': vtypes.Land,
     'Lor': vtypes.Lor,
     'Unot': vtypes.Unot,
@@ -111,8 +282,14 @@ operators = {
     'LessEq': vtypes.LessEq,
     'GreaterThan': vtypes.GreaterThan,
     'GreaterEq': vtypes.GreaterEq,
-    'Eq': vtypes.Eq,
-    'NotEq': vtypes.NotEq,
+    'Eql': vtypes.Eql,
+    'NotEql': vtypes.NotEql,
+    'Uand': vtypes.Uand,
+    'Unand': vtypes.Unand,
+    'Uor': vtypes.Uor,
+    'Unor': vtypes.Unor,
+    'Uxor': vtypes.Uxor,
+    'Uxnor': vtypes.Uxnor,
 }
 
 
@@ -122,9 +299,9 @@ def getOp(op):
 
 def makeASTTree(node):
     if isinstance(node, DFBranch):
-        return Cond(makeASTTree(node.condnode),
-                    makeASTTree(node.truenode),
-                    makeASTTree(node.falsenode))
+        return vtypes.Cond(makeASTTree(node.condnode),
+                           makeASTTree(node.truenode),
+                           makeASTTree(node.falsenode))
 
     if isinstance(node, DFIntConst):
         return vtypes.Int(int(node.value))
@@ -137,6 +314,8 @@ def makeASTTree(node):
 
     if isinstance(node, DFEvalValue):
         if isinstance(node.value, int):
+            if node.width == 1:
+                return vtypes.Int(node.value, width=1, signed=False)
             return vtypes.Int(node.value)
         if isinstance(node.value, float):
             return vtypes.Float(node.value)
@@ -159,6 +338,6 @@ def makeASTTree(node):
         return getOp(node.operator)(makeASTTree(node.nextnodes[0]), makeASTTree(node.nextnodes[1]))
 
     if isinstance(node, DFSyscall):
-        return vtypes.SystemTask(node.syscall, tuple([makeASTTree(n) for n in node.nextnodes]))
+        return vtypes.SystemTask(node.syscall, *[makeASTTree(n) for n in node.nextnodes])
 
     raise TypeError("Unsupported DFNode %s" % type(node))
-- 
2.43.0


From f351fec7cb599144ccf51f9bc05d34145389d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 062/119] fix: UartTx and UartRx added ports to the list of the
 caller

---
 veriloggen/thread/uart.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index c85f715..2d353e0 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -18,8 +18,7 @@ class UartTx(Submodule, _MutexFunction):
                  as_io=None, as_wire=None,
                  baudrate=19200, clockfreq=100 * 1000 * 1000):
 
-        if arg_ports is None:
-            arg_ports = []
+        arg_ports = [] if arg_ports is None else list(arg_ports)
 
         arg_ports.insert(0, ('CLK', clk))
         arg_ports.insert(1, ('RST', rst))
@@ -61,8 +60,7 @@ class UartRx(Submodule, _MutexFunction):
                  as_io=None, as_wire=None,
                  baudrate=19200, clockfreq=100 * 1000 * 1000):
 
-        if arg_ports is None:
-            arg_ports = []
+        arg_ports = [] if arg_ports is None else list(arg_ports)
 
         arg_ports.insert(0, ('CLK', clk))
         arg_ports.insert(1, ('RST', rst))
-- 
2.43.0


From e43affbf9bd83fc89d24e1b93ec92b5aa678f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 063/119] fix: lock and unlock of UartTx and UartRx

---
 veriloggen/thread/uart.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index 2d353e0..437acaf 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -32,6 +32,10 @@ class UartTx(Submodule, _MutexFunction):
                            arg_params=arg_params, arg_ports=arg_ports,
                            as_io=as_io, as_wire=as_wire)
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
+
         self.tx_din = self['din']
         self.tx_enable = self['enable']
         self.tx_enable.initval = 0
@@ -73,6 +77,10 @@ class UartRx(Submodule, _MutexFunction):
                            arg_params=arg_params, arg_ports=arg_ports,
                            as_io=as_io, as_wire=as_wire)
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
+
         self.rx_dout = self['dout']
         self.rx_valid = self['valid']
 
-- 
2.43.0


From f296c67427ef3220cc8ae7bcf8fc1406e64b0822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:35 +0000
Subject: [PATCH 064/119] fix: a pipeline output with other consumers delivered
 values repeatedly

---
 veriloggen/pipeline/pipeline.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index e62d544..917f310 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -197,6 +197,19 @@ class Pipeline(vtypes.VeriloggenNode):
 
         return ret
 
+    # -------------------------------------------------------------------------
+    def _is_shared(self, var):
+        if var.ready is None:
+            return False
+        assign = var.ready._get_assign()
+        if assign and not (isinstance(assign.statement.right, vtypes.Int) and
+                           assign.statement.right.value == 1):
+            return True
+        for v in self.vars:
+            if v is not var and v.ready is var.ready and v.output_vars is not None:
+                return True
+        return False
+
     # -------------------------------------------------------------------------
     def _add_reg(self, prefix, count, width=None, initval=0):
         tmp_name = '_'.join(['', self.name, prefix, str(count)])
@@ -407,6 +420,11 @@ class _PipelineVariable(_PipelineNumeric):
             for i in range(self.stage_id, self.df.max_stage_id):
                 ovar = self.df.stage(ovar, preg=ovar)
 
+        # A value which is used by the others, too, requires its own register.
+        # Otherwise the value is delivered repeatedly until the others accept it.
+        if ready is not None and self.df._is_shared(ovar):
+            ovar = self.df.stage(ovar, width=ovar.get_width())
+
         if not isinstance(data, (vtypes.Wire, vtypes.Output)):
             raise TypeError('Data signal must be Wire, not %s' %
                             str(type(data)))
-- 
2.43.0


From 75380ed998a18d972033b3729e17bbd5bbebde3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:35 +0000
Subject: [PATCH 065/119] fix: values wider than the pipeline were truncated by
 delays of outputs

---
 veriloggen/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index 917f310..a37d150 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -418,7 +418,7 @@ class _PipelineVariable(_PipelineNumeric):
         ovar = self
         if self.stage_id is not None:
             for i in range(self.stage_id, self.df.max_stage_id):
-                ovar = self.df.stage(ovar, preg=ovar)
+                ovar = self.df.stage(ovar, width=ovar.get_width(), preg=ovar)
 
         # A value which is used by the others, too, requires its own register.
         # Otherwise the value is delivered repeatedly until the others accept it.
-- 
2.43.0


From 7b4d17d99c24b4a3a300a823e70e0b115905fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:35 +0000
Subject: [PATCH 066/119] fix: unary operators in pipelines were dropped

---
 veriloggen/pipeline/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index a37d150..ed26a36 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -631,7 +631,9 @@ class DataVisitor(_PipelineVisitor):
         return stage, cls(*data), valid, ready
 
     def visit__UnaryOperator(self, node):
-        return self.visit(node.right)
+        stage, data, valid, ready = self.pack(node.right)
+        cls = type(node)
+        return stage, cls(*data), valid, ready
 
     def visit_Pointer(self, node):
         stage, data, valid, ready = self.pack(node.var, node.pos)
-- 
2.43.0


From 04a7ff2caaf10312dff621a33a84e1c4d58fcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 067/119] fix: values joined and forked in a pipeline were lost

---
 veriloggen/pipeline/pipeline.py | 78 ++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index ed26a36..0d3cc17 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -25,23 +25,17 @@ def _and_vars(*vars):
     return ret
 
 
-def _connect_ready(m, var, ready):
-    if var is None:
-        return
-
-    prev_assign = var._get_assign()
-    if not prev_assign:
-        m.Assign(var(ready))
-    elif (isinstance(prev_assign.statement.right, vtypes.Int) and
-          prev_assign.statement.right.value == 1):
-        prev_assign.overwrite_right(ready)
-        m.remove(prev_assign)
-        m.append(prev_assign)
-    else:
-        prev_assign.overwrite_right(
-            _and_vars(prev_assign.statement.right, ready))
-        m.remove(prev_assign)
-        m.append(prev_assign)
+class _ReadyGroup(object):
+    """ ready signals of values that are used together:
+    these values must be accepted in the same cycle """
+
+    def __init__(self, var):
+        self.vars = [var]
+        self.conds = []
+
+    def merge(self, group):
+        self.vars.extend(group.vars)
+        self.conds.extend(group.conds)
 
 
 class Pipeline(vtypes.VeriloggenNode):
@@ -58,6 +52,8 @@ class Pipeline(vtypes.VeriloggenNode):
         self.max_stage_id = 0
         self.vars = []
 
+        self.ready_groups = []
+
         self.seq = Seq(self.m, self.name, clk, rst, nohook=True)
         self.data_visitor = DataVisitor(self)
 
@@ -198,12 +194,46 @@ class Pipeline(vtypes.VeriloggenNode):
         return ret
 
     # -------------------------------------------------------------------------
+    def _get_ready_group(self, var):
+        for group in self.ready_groups:
+            if any([v is var for v in group.vars]):
+                return group
+        group = _ReadyGroup(var)
+        self.ready_groups.append(group)
+        return group
+
+    def _connect_ready(self, vars, ready=None):
+        vars = [var for var in vars if var is not None]
+        if not vars:
+            return
+
+        group = self._get_ready_group(vars[0])
+        for var in vars[1:]:
+            other = self._get_ready_group(var)
+            if other is not group:
+                group.merge(other)
+                self.ready_groups.remove(other)
+
+        if ready is not None:
+            num = max([len([v for v in vars if v is var]) for var in vars])
+            group.conds.extend([ready] * num)
+
+        right = _and_vars(*group.conds)
+        others = [v for v in group.vars if all([v is not var for var in vars])]
+        for var in others + vars:
+            assign = var._get_assign()
+            if not assign:
+                self.m.Assign(var(right))
+            else:
+                assign.overwrite_right(right)
+                self.m.remove(assign)
+                self.m.append(assign)
+
     def _is_shared(self, var):
         if var.ready is None:
             return False
-        assign = var.ready._get_assign()
-        if assign and not (isinstance(assign.statement.right, vtypes.Int) and
-                           assign.statement.right.value == 1):
+        group = self._get_ready_group(var.ready)
+        if group.conds or len(group.vars) > 1:
             return True
         for v in self.vars:
             if v is not var and v.ready is var.ready and v.output_vars is not None:
@@ -306,8 +336,7 @@ class Pipeline(vtypes.VeriloggenNode):
         if tmp_ready is not None:
             ordy = vtypes.AndList(vtypes.OrList(
                 tmp_ready, vtypes.Not(tmp_valid)), valid)
-            for r in ready:
-                _connect_ready(self.m, r, ordy)
+            self._connect_ready(ready, ordy)
 
         return tmp_data, tmp_valid, tmp_ready
 
@@ -379,8 +408,7 @@ class _PipelineVariable(_PipelineNumeric):
         self.preg_dict = {}
 
         if self.ready is not None:
-            ready = vtypes.Int(1)
-            _connect_ready(self.df.m, self.ready, ready)
+            self.df._connect_ready([self.ready])
 
     def prev(self, index, initval=0):
         if index == 0:
@@ -443,7 +471,7 @@ class _PipelineVariable(_PipelineNumeric):
         if ready is None:
             ready = vtypes.Int(1)
 
-        _connect_ready(ovar.df.m, ovar.ready, ready)
+        ovar.df._connect_ready([ovar.ready], ready)
 
         ovar.dst_data = _PipelineInterface(data, valid, ready, output=True)
 
-- 
2.43.0


From f60cb23c90dde836c9f84fd05ef702630004d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:34 +0000
Subject: [PATCH 068/119] fix: saturating operations wrapped around for wide
 values and ignored bounds

---
 veriloggen/types/saturate.py | 240 +++++++++++++++++++++++++++--------
 1 file changed, 186 insertions(+), 54 deletions(-)

diff --git a/veriloggen/types/saturate.py b/veriloggen/types/saturate.py
index 1c9893b..d33a8c2 100644
--- a/veriloggen/types/saturate.py
+++ b/veriloggen/types/saturate.py
@@ -2,7 +2,6 @@ from __future__ import absolute_import
 from __future__ import print_function
 
 import veriloggen.core.vtypes as vtypes
-import copy
 
 
 def add(left, right, width=8, max=None, min=None):
@@ -24,24 +23,14 @@ def _saturate_op(value, width=8, max=None, min=None, signed=False):
     if hasattr(value, 'saturated') and value.saturated:
         return value
 
-    if isinstance(value, vtypes.Plus):
-        new_val = copy.deepcopy(value)
-        new_val.left = _saturate_op(value.left, width=width, max=max, min=min)
-        new_val.right = _saturate_op(value.right,
-                                     width=width, max=max, min=min)
-        ret = _add(new_val, new_val.left, new_val.right,
-                   width=width, max=max, min=min)
-        ret.saturated = True
-        return ret
-
-    if isinstance(value, vtypes.Minus):
-        new_val = copy.deepcopy(value)
-        new_val.left = _saturate_op(value.left, width, max)
-        new_val.right = _saturate_op(value.right, width, max)
-        ret = _sub(new_val, new_val.left, new_val.right,
-                   width=width, max=max, min=min)
-        ret.saturated = True
-        return ret
+    for cls, func in ((vtypes.Plus, _add), (vtypes.Minus, _sub)):
+        if not isinstance(value, cls):
+            continue
+
+        left = _saturate_op(value.left, width, max, min, signed)
+        right = _saturate_op(value.right, width, max, min, signed)
+        return func(cls(left, right), left, right,
+                    width=width, max=max, min=min, signed=signed or None)
 
     return value
 
@@ -53,22 +42,20 @@ def _saturate_single(value, width=8, max=None, min=None, signed=False):
     if (signed or
             (isinstance(value, (int, float, bool)) and value < 0)):
 
+        if min is None:
+            min = _min(width, signed)
+
+        value_width = _get_width(value)
         if not isinstance(value, int) and isinstance(min, int):
-            min = vtypes.Int(min, signed=True)
+            min = _bound(min, width, value_width, signed=True)
 
         cond = value < min
-        sat_val = _saturate_both(value, cond,
-                                 width=width, max=max, min=min, signed=signed)
-    else:
-        sat_val = _saturate_overflow(value,
-                                     width=width, max=max, signed=signed)
-
-    try:
-        sat_val.saturated = True
-    except:
-        pass
+        return _saturate_both(value, cond,
+                              width=width, max=max, min=min, signed=signed)
 
-    return sat_val
+    cond = value < min if min is not None and _is_positive(min) else None
+    return _saturate_overflow(value, cond,
+                              width=width, max=max, min=min, signed=signed)
 
 
 def write(dst, value, blk=False, ldelay=None, rdelay=None, method='write'):
@@ -87,63 +74,208 @@ def write(dst, value, blk=False, ldelay=None, rdelay=None, method='write'):
     return getattr(dst, method)(sat_val, blk=blk, ldelay=ldelay, rdelay=rdelay)
 
 
-def _add(raw_val, left, right, width=8, max=None, min=None):
-    signed = vtypes.get_signed(raw_val)
-    if min is None:
+def _add(raw_val, left, right, width=8, max=None, min=None, signed=None):
+    if signed is None:
+        signed = vtypes.get_signed(raw_val)
+
+    default_min = min is None
+    if default_min:
         min = _min(width, signed)
 
+    exact_val = _exact(raw_val, left, right, width, signed)
+
     if signed:
-        cond = left < - right + min
-        return _saturate_both(raw_val, cond,
-                              width=width, max=max, min=min, signed=signed)
+        if exact_val is raw_val:
+            cond = left < - right + min
+        else:
+            cond = exact_val < _bound(min, width, None, signed)
+        return _saturate_both(raw_val, cond, width=width,
+                              max=max, min=min, signed=signed, exact_val=exact_val)
+
+    cond = None
+    if not default_min and _is_positive(min):
+        cond = exact_val < _bound(min, width, None, signed)
+
+    return _saturate_overflow(raw_val, cond, width=width,
+                              max=max, min=min, signed=signed, exact_val=exact_val)
 
-    return _saturate_overflow(raw_val, width=width, max=max, signed=signed)
 
+def _sub(raw_val, left, right, width=8, max=None, min=None, signed=None):
+    if signed is None:
+        signed = vtypes.get_signed(raw_val)
 
-def _sub(raw_val, left, right, width=8, max=None, min=None):
-    signed = vtypes.get_signed(raw_val)
     if min is None:
         min = _min(width, signed)
 
-    cond = left < right + min
+    exact_val = _exact(raw_val, left, right, width, signed)
+
+    if exact_val is raw_val:
+        cond = left < right + min
+    elif signed:
+        cond = exact_val < _bound(min, width, None, signed)
+    else:
+        # an extended operand keeps the carry of right + min
+        cond = left < _extend(right, _exact_width(left, right, width),
+                              signed) + _bound(min, width, None, signed)
+
     if signed:
-        return _saturate_both(raw_val, cond,
-                              width=width, max=max, min=min, signed=signed)
+        return _saturate_both(raw_val, cond, width=width,
+                              max=max, min=min, signed=signed, exact_val=exact_val)
 
-    return _saturate_underflow(raw_val, cond,
-                               width=width, min=min, signed=signed)
+    left_width = _get_width(left)
+    if max is None and isinstance(width, int) and (
+            left_width is None or left_width <= width):
+        # the difference does not exceed the left value
+        return _saturate_underflow(raw_val, cond,
+                                   width=width, min=min, signed=signed)
 
+    return _saturate_both(raw_val, cond, width=width,
+                          max=max, min=min, signed=signed, exact_val=exact_val)
+
+
+def _saturate_overflow(raw_val, cond=None, width=8, max=None, min=None,
+                       signed=False, exact_val=None):
+    if exact_val is None:
+        exact_val = raw_val
 
-def _saturate_overflow(raw_val, width=8, max=None, signed=False):
     if max is None:
         max = _max(width, signed)
 
-    if (isinstance(max, int) and
-            not isinstance(raw_val, int) and vtypes.get_signed(raw_val)):
-        max = vtypes.Int(max, signed=True)
+    max = _max_bound(max, width, raw_val, signed)
+    sat_val = vtypes.Mux(exact_val > max, max, raw_val)
 
-    return vtypes.Mux(raw_val > max, max, raw_val)
+    if cond is not None:
+        min = _bound(min, width, None, signed)
+        sat_val = vtypes.Mux(cond, min, sat_val)
+
+    return _saturated(sat_val, width, signed)
 
 
 def _saturate_underflow(raw_val, cond, width=8, min=None, signed=False):
     if min is None:
         min = _min(width, signed)
 
-    return vtypes.Mux(cond, min, raw_val)
+    min = _bound(min, width, None, signed)
+    return _saturated(vtypes.Mux(cond, min, raw_val), width, signed)
+
 
+def _saturate_both(raw_val, cond, width=8, max=None, min=None, signed=False,
+                   exact_val=None):
+    if exact_val is None:
+        exact_val = raw_val
 
-def _saturate_both(raw_val, cond, width=8, max=None, min=None, signed=False):
     if max is None:
         max = _max(width, signed)
 
     if min is None:
         min = _min(width, signed)
 
+    max = _max_bound(max, width, raw_val, signed)
+    min = _bound(min, width, None, signed)
+    sat_val = vtypes.Mux(cond, min, vtypes.Mux(exact_val > max, max, raw_val))
+
+    return _saturated(sat_val, width, signed)
+
+
+def _saturated(sat_val, width, signed):
+    if isinstance(sat_val, vtypes.Cond):
+        # unlike the bounds, the value may be unsigned
+        sat_val.signed = signed
+        sat_val.saturated_width = width
+
+    try:
+        sat_val.saturated = True
+    except:
+        pass
+
+    return sat_val
+
+
+def _get_width(value):
+    """ the number of bits of a value, None if it is unknown """
+
+    if hasattr(value, 'saturated_width'):
+        width = value.saturated_width
+    elif isinstance(value, vtypes.Int) and isinstance(value.value, int):
+        width = vtypes.get_width(value.value)
+    elif isinstance(value, (vtypes.Plus, vtypes.Minus)):
+        left = _get_width(value.left)
+        right = _get_width(value.right)
+        if left is None or right is None:
+            return None
+        return (left if left > right else right) + 1
+    elif isinstance(value, (vtypes._Numeric, int, bool)):
+        width = vtypes.get_width(value)
+        if width is None and isinstance(value, vtypes._Variable):
+            width = 1
+    else:
+        return None
+
+    return width if isinstance(width, int) else None
+
+
+def _exact_width(left, right, width):
+    """ the number of bits for the result and the bounds without a carry lost """
+
+    widths = [_get_width(left), _get_width(right),
+              width if isinstance(width, int) else None]
+    widths = [w for w in widths if w is not None]
+    ret = 0
+    for w in widths:
+        if w > ret:
+            ret = w
+    return ret + 2
+
+
+# operations with an (unsized) bound have this width or more
+_NATIVE_WIDTH = 32
+
+
+def _extend(value, width, signed):
+    if isinstance(value, int):
+        return vtypes.Int(value, width=width, signed=signed)
+    return value + vtypes.Int(0, width=width, signed=signed)
+
+
+def _exact(raw_val, left, right, width, signed):
+    """ the result which does not wrap around when it is compared """
+
+    exact_width = _exact_width(left, right, width)
+
+    if exact_width <= _NATIVE_WIDTH or isinstance(raw_val, int):
+        return raw_val
+
+    return raw_val + vtypes.Int(0, width=exact_width, signed=signed)
+
+
+def _is_positive(value):
+    return not isinstance(value, int) or value > 0
+
+
+def _bound(value, width, value_width, signed):
+    """ the literal of a bound: a value wider than a plain integer has a size """
+
+    if not isinstance(value, int):
+        return value
+
+    if value.bit_length() + 1 > _NATIVE_WIDTH:
+        return vtypes.Int(value, width=value.bit_length() + 1, signed=signed)
+
+    if value_width is not None:
+        return vtypes.Int(value, signed=signed)
+
+    return value
+
+
+def _max_bound(max, width, raw_val, signed):
+    if not isinstance(max, int):
+        return max
+
     if (isinstance(max, int) and
             not isinstance(raw_val, int) and vtypes.get_signed(raw_val)):
-        max = vtypes.Int(max, signed=True)
+        return _bound(max, width, 0, signed=True)
 
-    return vtypes.Mux(cond, min, vtypes.Mux(raw_val > max, max, raw_val))
+    return _bound(max, width, None, signed)
 
 
 def _pow2(p):
-- 
2.43.0


From 97cb09e18738ededa8b2a9039b11838fae0cdb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:46 +0000
Subject: [PATCH 069/119] fix: DMA with a RAM of three bus words hung

---
 veriloggen/thread/axim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..f571c42 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -944,7 +944,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -1370,7 +1370,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.write_ops:
             """ already synthesized op """
-- 
2.43.0


From eeaa46625ba47f25eef6137bd87e1f964454a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:53 +0000
Subject: [PATCH 070/119] fix: waiting for DMA hung when only reads or only
 writes were made

---
 veriloggen/thread/axim.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index f571c42..7d71b45 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -697,17 +697,30 @@ class AXIM(axi.AxiMaster, _MutexFunction):
                        local_bank_stride, local_blocksize, port, ram_method)
 
     # wait
+    def _add_read_reset(self):
+        """ busy registers must be reset, even if they are never driven """
+        self.seq.add_reset(self.read_req_busy)
+        self.seq.add_reset(self.read_data_busy)
+
+    def _add_write_reset(self):
+        """ busy registers must be reset, even if they are never driven """
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+
     def dma_wait_read(self, fsm):
 
+        self._add_read_reset()
         fsm.If(self.read_idle).goto_next()
 
     def dma_wait_write(self, fsm):
 
+        self._add_write_reset()
         res = self.write_completed()
         fsm.If(self.write_idle, res).goto_next()
 
     def dma_wait_write_idle(self, fsm):
 
+        self._add_write_reset()
         fsm.If(self.write_idle).goto_next()
 
     def dma_wait_write_response(self, fsm):
@@ -717,6 +730,8 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     def dma_wait(self, fsm):
 
+        self._add_read_reset()
+        self._add_write_reset()
         res = self.write_completed()
         fsm.If(self.read_idle, self.write_idle, res).goto_next()
 
-- 
2.43.0


From c224b1b63cd98cf88f0e3eef7ea8756214e708ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:43 +0000
Subject: [PATCH 071/119] fix: DMA writes from RAMs of different widths below
 the bus width mixed up their sizes

---
 veriloggen/thread/axim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 7d71b45..3b0bcc8 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -249,6 +249,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         self.write_data_fsm = None
         self.write_data_narrow_fsm = None
         self.write_data_wide_fsm = None
+        self.write_wide_pack_sizes = set()
 
         if self.use_global_base_addr:
             self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
@@ -1560,7 +1561,11 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         # Data state 2
         cond = vtypes.Ands(vtypes.Not(self.write_req_fifo.empty),
                            self.write_size_buf == 0)
-        self.seq.If(data_fsm.here, cond)(
+        self.write_wide_pack_sizes.add(pack_size)
+        # the scale of the size depends on the op if the ops have different pack sizes
+        size_cond = (cond if len(self.write_wide_pack_sizes) == 1 else
+                     vtypes.Ands(cond, self.write_op_sel_buf == op_id))
+        self.seq.If(data_fsm.here, size_cond)(
             # global_size -> local_size
             self.write_size_buf(self.write_size_fifo << log_pack_size),
         )
-- 
2.43.0


From b6e9e628537b572a1fc41f6a9e8f89d0d4f8befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:43 +0000
Subject: [PATCH 072/119] fix: waiting for a write before any write hung

---
 veriloggen/thread/axim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 3b0bcc8..b362d79 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -699,14 +699,16 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     # wait
     def _add_read_reset(self):
-        """ busy registers must be reset, even if they are never driven """
+        """ registers must be reset, even if they are never driven """
         self.seq.add_reset(self.read_req_busy)
         self.seq.add_reset(self.read_data_busy)
 
     def _add_write_reset(self):
-        """ busy registers must be reset, even if they are never driven """
+        """ registers must be reset, even if they are never driven """
         self.seq.add_reset(self.write_req_busy)
         self.seq.add_reset(self.write_data_busy)
+        if not self._write_disabled:
+            self.waddr.seq.add_reset(self.waddr.awvalid)
 
     def dma_wait_read(self, fsm):
 
@@ -726,6 +728,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     def dma_wait_write_response(self, fsm):
 
+        self._add_write_reset()
         res = self.write_completed()
         fsm.If(res).goto_next()
 
-- 
2.43.0


From d15121880c227ce03ab2a1f993e1a3033e7eb8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:05 +0000
Subject: [PATCH 073/119] fix: AXIMLite with a global base address was broken

---
 veriloggen/thread/axim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index b362d79..207025b 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1847,6 +1847,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
 
         self.mutex = None
 
+        if self.use_global_base_addr:
+            self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
+                                               self.addrwidth, initval=0)
+        else:
+            self.global_base_addr = None
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -1917,6 +1923,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         self.seq.If(flag)(
             self.global_base_addr(addr)
         )
+        fsm.goto_next()
+
+    def _set_flag(self, fsm, prefix='axim_flag'):
+        flag = self.m.TmpWire(prefix=prefix)
+        flag.assign(fsm.here)
+        return flag
 
 
 class AXIMLiteVerify(AXIMLite):
-- 
2.43.0


From 0a156523fb3cd6d07f0582fb3d3c524382270f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 074/119] fix: AxiSerialMemoryModel could not be instantiated

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..9e172c0 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3897,16 +3897,16 @@ class AxiSerialMemoryModel(AxiSlave):
         itype = util.t_Reg
         otype = util.t_Wire
 
-        self.waddr = AxiSlaveWriteAddress(m, name, datawidth, addrwidth,
+        self.waddr = AxiSlaveWriteAddress(m, name, clk, rst, datawidth, addrwidth,
                                           waddr_id_width, waddr_user_width, itype, otype)
-        self.wdata = AxiSlaveWriteData(m, name, datawidth, addrwidth,
+        self.wdata = AxiSlaveWriteData(m, name, clk, rst, datawidth, addrwidth,
                                        wdata_id_width, wdata_user_width, itype, otype)
-        self.wresp = AxiSlaveWriteResponse(m, name, datawidth, addrwidth,
+        self.wresp = AxiSlaveWriteResponse(m, name, clk, rst, datawidth, addrwidth,
                                            wresp_id_width, wresp_user_width, wresp_user_mode,
                                            itype, otype)
-        self.raddr = AxiSlaveReadAddress(m, name, datawidth, addrwidth,
+        self.raddr = AxiSlaveReadAddress(m, name, clk, rst, datawidth, addrwidth,
                                          raddr_id_width, raddr_user_width, itype, otype)
-        self.rdata = AxiSlaveReadData(m, name, datawidth, addrwidth,
+        self.rdata = AxiSlaveReadData(m, name, clk, rst, datawidth, addrwidth,
                                       rdata_id_width, rdata_user_width, rdata_user_mode,
                                       itype, otype)
 
-- 
2.43.0


From e98a553ecc1e8d72854b7dfb34394653d89c95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:58 +0000
Subject: [PATCH 075/119] fix: to_memory_image did not pad to the given length

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 9e172c0..7a8af0b 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4568,8 +4568,8 @@ def to_memory_image(filename, array, length=None,
         if len(array) > length:
             array = array[:length]
         elif len(array) < length:
-            np.append(array, np.zeros([length - len(array)],
-                                      dtype=array.dtype))
+            array = np.append(array, np.zeros([length - len(array)],
+                                              dtype=array.dtype))
 
     num_hex = int(math.ceil(wordwidth / 4))
     fmt = ''.join(['%0', str(num_hex), 'x\n'])
-- 
2.43.0


From d02cb40f50f3fe88cc7684ac2acddf2adb8a24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:58 +0000
Subject: [PATCH 076/119] fix: set_memory failed for rows longer than a packed
 word

---
 veriloggen/types/axi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 7a8af0b..42df697 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4672,7 +4672,7 @@ def _set_memory_wide(mem, src, mem_datawidth, src_datawidth, mem_offset,
         pads = []
         for s in src.shape[:-1]:
             pads.append((0, 0))
-        pads.append((0, num_pack - src.shape[-1]))
+        pads.append((0, num_pack - src.shape[-1] % num_pack))
 
         src = np.pad(src, pads, 'constant')
 
-- 
2.43.0


From 2e0fa0745a650a40ef1ff002a3ac21323fa21d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:34 +0000
Subject: [PATCH 077/119] fix: slave register banks with one register did not
 compile

---
 veriloggen/thread/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 345bbe8..3dc1e47 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -79,7 +79,7 @@ class AXISRegister(AXIS):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
@@ -267,7 +267,7 @@ class AXISLiteRegister(AXISLite):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
-- 
2.43.0


From 980fc02b8c3005ed7d4885bf64f880a96450da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:34 +0000
Subject: [PATCH 078/119] fix: burst reads of slave register banks returned one
 beat too many

---
 veriloggen/thread/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 3dc1e47..cbcfbe4 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -137,7 +137,7 @@ class AXISRegister(AXIS):
         fsm.If(ack)(
             maskaddr.inc(),
             rcount.dec(),
-            rlast(rcount <= 1)
+            rlast(rcount <= 2)
         )
 
         # flag reset
-- 
2.43.0


From 6cbd8edc6a1ddaeace0b62fe981c512d3abab27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 079/119] fix: slave read ids changed before the last read data
 was accepted

---
 veriloggen/types/axi.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 42df697..c62ad55 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2404,6 +2404,13 @@ class AxiSlave(object):
         self.rdata.disable_read()
         self._read_disabled = True
 
+    def _keep_rid(self, ready):
+        """ rid must not change until the last read data is accepted """
+        if self.rdata.rid is None:
+            return ready
+
+        return vtypes.Ands(ready, vtypes.Not(self.rdata.rvalid))
+
     def pull_request(self, cond):
         """
         @return addr, length, readvalid, writevalid
@@ -2441,6 +2448,8 @@ class AxiSlave(object):
 
         _connect_ready(self.waddr.awready._get_module(),
                        self.waddr.awready, writeval)
+        readval = self._keep_rid(readval)
+
         _connect_ready(self.raddr.arready._get_module(),
                        self.raddr.arready, readval)
 
@@ -2522,6 +2531,8 @@ class AxiSlave(object):
         val = (vtypes.Ands(vtypes.Not(valid), prev_arvalid) if ready is None else
                vtypes.Ands(ready, vtypes.Not(valid), prev_arvalid))
 
+        val = self._keep_rid(val)
+
         _connect_ready(self.raddr.arready._get_module(),
                        self.raddr.arready, val)
 
-- 
2.43.0


From 44696823d418d694f94fe13597dec32c6ef2c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:45 +0000
Subject: [PATCH 080/119] fix: slave registers selected by a variable lost
 their sign

---
 veriloggen/thread/axis.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index cbcfbe4..7e33fd5 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -176,7 +176,8 @@ class AXISRegister(AXIS):
         else:
             pat = [(addr == i, r) for i, r in enumerate(self.register)]
             pat.append((None, vtypes.IntX()))
-            rval = vtypes.PatternMux(pat)
+            rval = self.m.TmpWire(self.datawidth, signed=True, prefix='axis_rval')
+            rval.assign(vtypes.PatternMux(pat))
         return rval
 
     def write(self, fsm, addr, value):
@@ -206,7 +207,8 @@ class AXISRegister(AXIS):
         else:
             pat = [(addr == i, r) for i, r in enumerate(self.register)]
             pat.append((None, vtypes.IntX()))
-            rval = vtypes.PatternMux(pat)
+            rval = self.m.TmpWire(self.datawidth, signed=True, prefix='axis_rval')
+            rval.assign(vtypes.PatternMux(pat))
 
         if polarity:
             wait_cond = (rval == value)
@@ -223,7 +225,8 @@ class AXISRegister(AXIS):
         else:
             pat = [(addr == i, r) for i, r in enumerate(self.register)]
             pat.append((None, vtypes.IntX()))
-            rval = vtypes.PatternMux(pat)
+            rval = self.m.TmpWire(self.datawidth, signed=True, prefix='axis_rval')
+            rval.assign(vtypes.PatternMux(pat))
 
         if polarity:
             wait_cond = (rval == value)
@@ -353,7 +356,8 @@ class AXISLiteRegister(AXISLite):
         else:
             pat = [(addr == i, r) for i, r in enumerate(self.register)]
             pat.append((None, vtypes.IntX()))
-            rval = vtypes.PatternMux(pat)
+            rval = self.m.TmpWire(self.datawidth, signed=True, prefix='axis_rval')
+            rval.assign(vtypes.PatternMux(pat))
         return rval
 
     def write(self, fsm, addr, value):
@@ -383,7 +387,8 @@ class AXISLiteRegister(AXISLite):
         else:
             pat = [(addr == i, r) for i, r in enumerate(self.register)]
             pat.append((None, vtypes.IntX()))
-            rval = vtypes.PatternMux(pat)
+            rval = self.m.TmpWire(self.datawidth, signed=True, prefix='axis_rval')
+            rval.assign(vtypes.PatternMux(pat))
 
         if polarity:
             wait_cond = (rval == value)
@@ -400,7 +405,8 @@ class AXISLiteRegister(AXISLite):
         else:
             pat = [(addr == i, r) for i, r in enumerate(self.register)]
             pat.append((None, vtypes.IntX()))
-            rval = vtypes.PatternMux(pat)
+            rval = self.m.TmpWire(self.datawidth, signed=True, prefix='axis_rval')
+            rval.assign(vtypes.PatternMux(pat))
 
         if polarity:
             wait_cond = (rval == value)
-- 
2.43.0


From d63cefd20f6d61ccdd28252af81d54b59e29dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:48 +0000
Subject: [PATCH 081/119] fix: AXI stream transfers whose widths differ by a
 factor that is not a power of two hung

---
 veriloggen/thread/axistreamin.py  |  8 +++----
 veriloggen/thread/axistreamout.py | 36 ++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 9f59de1..f1277fe 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -273,7 +273,7 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -362,7 +362,7 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = self.datawidth // ram_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -697,7 +697,7 @@ class AXIStreamInFifo(AXIStreamIn):
 
         op_id = self._get_read_op_id(fifo)
         pack_size = fifo_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -782,7 +782,7 @@ class AXIStreamInFifo(AXIStreamIn):
 
         op_id = self._get_read_op_id(fifo)
         pack_size = self.datawidth // fifo_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.read_ops:
             """ already synthesized op """
diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 71c546c..3203488 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -270,7 +270,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -306,7 +306,9 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         # Data state 1
         self.seq.If(data_fsm.here)(
             # local_size -> global_size
-            self.write_size_buf(self.write_size_buf << log_pack_size),
+            self.write_size_buf((self.write_size_buf << log_pack_size)
+                                if pack_size == 2 ** log_pack_size else
+                                self.write_size_buf * pack_size),
         )
 
         ram_cond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id)
@@ -370,7 +372,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = self.datawidth // ram_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -393,10 +395,14 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         cond = vtypes.Ands(vtypes.Not(self.write_data_busy),
                            vtypes.Not(self.write_req_fifo.empty),
                            self.write_op_sel_fifo == op_id)
-        res = vtypes.Mux(
-            vtypes.And(self.write_size_fifo, 2 ** log_pack_size - 1) > 0, 1, 0)
-        global_size = (self.write_size_fifo >> log_pack_size) + res
-        local_size = global_size << log_pack_size
+        if pack_size == 2 ** log_pack_size:
+            res = vtypes.Mux(
+                vtypes.And(self.write_size_fifo, 2 ** log_pack_size - 1) > 0, 1, 0)
+            global_size = (self.write_size_fifo >> log_pack_size) + res
+            local_size = global_size << log_pack_size
+        else:
+            global_size = (self.write_size_fifo + (pack_size - 1)) / pack_size
+            local_size = global_size * pack_size
 
         self.seq.If(data_fsm.here, cond)(
             self.write_data_busy(1),
@@ -710,7 +716,7 @@ class AXIStreamOutFifo(AXIStreamOut):
 
         op_id = self._get_write_op_id(fifo)
         pack_size = fifo_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -815,7 +821,7 @@ class AXIStreamOutFifo(AXIStreamOut):
 
         op_id = self._get_write_op_id(fifo)
         pack_size = self.datawidth // fifo_datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = int(math.ceil(math.log(pack_size, 2)))
 
         if op_id in self.write_ops:
             """ already synthesized op """
@@ -838,10 +844,14 @@ class AXIStreamOutFifo(AXIStreamOut):
         cond = vtypes.Ands(vtypes.Not(self.write_data_busy),
                            vtypes.Not(self.write_req_fifo.empty),
                            self.write_op_sel_fifo == op_id)
-        res = vtypes.Mux(
-            vtypes.And(self.write_size_fifo, 2 ** log_pack_size - 1) > 0, 1, 0)
-        global_size = (self.write_size_fifo >> log_pack_size) + res
-        local_size = global_size << log_pack_size
+        if pack_size == 2 ** log_pack_size:
+            res = vtypes.Mux(
+                vtypes.And(self.write_size_fifo, 2 ** log_pack_size - 1) > 0, 1, 0)
+            global_size = (self.write_size_fifo >> log_pack_size) + res
+            local_size = global_size << log_pack_size
+        else:
+            global_size = (self.write_size_fifo + (pack_size - 1)) / pack_size
+            local_size = global_size * pack_size
 
         self.seq.If(data_fsm.here, cond)(
             self.write_data_busy(1),
-- 
2.43.0


From ea3f412dfee761e737d8d691bc16752197a55c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 082/119] fix: AXI stream input into wider or narrower FIFOs
 lost or repeated words when the FIFO was full

---
 veriloggen/thread/axistreamin.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index f1277fe..5f71fa3 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -767,9 +767,14 @@ class AXIStreamInFifo(AXIStreamIn):
         fifo.enq_rtl(wdata, cond=fifo_cond)
 
         data_fsm.If(cond, self.tdata.tvalid, self.read_local_size_buf <= 1,
-                    count == pack_size - 1).goto_init()
-        self.seq.If(data_fsm.here, cond, self.tdata.tvalid, self.read_local_size_buf <= 1,
-                    count == pack_size - 1)(
+                    count == pack_size - 1).goto_next()
+
+        # Data state 2: the last word is waiting for space
+        data_fsm.If(cond)(
+            wvalid(0)
+        )
+        data_fsm.If(cond).goto_init()
+        self.seq.If(data_fsm.here, cond)(
             self.read_data_busy(0)
         )
 
@@ -862,9 +867,14 @@ class AXIStreamInFifo(AXIStreamIn):
         fifo.enq_rtl(fifo_wdata, cond=fifo_cond)
 
         data_fsm.If(self.read_local_size_buf <= 1,
-                    cond, count == pack_size - 1).goto_init()
-        self.seq.If(data_fsm.here, self.read_local_size_buf <= 1,
-                    cond, count == pack_size - 1)(
+                    cond, vtypes.Ors(self.tdata.tvalid, count > 0)).goto_next()
+
+        # Data state 2: the last word is waiting for space
+        data_fsm.If(cond)(
+            wvalid(0)
+        )
+        data_fsm.If(cond).goto_init()
+        self.seq.If(data_fsm.here, cond)(
             self.read_data_busy(0)
         )
 
-- 
2.43.0


From b739bd68ae52d343f7a5621363058bcfa9440be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:44 +0000
Subject: [PATCH 083/119] fix: reading an AXI stream without last in a thread
 failed

---
 veriloggen/thread/axistreamin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 5f71fa3..fd307fd 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -112,7 +112,7 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
             tlast = self.m.TmpReg(initval=0,
                                   prefix='axistreamin_tlast')
         else:
-            tlast = None
+            tlast = 1
 
         _ = self.read_data(cond=rcond)
         fsm.If(self.tdata.tvalid)(
-- 
2.43.0


From d62ab98a6a26985438917fafeb3393f08475fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:54 +0000
Subject: [PATCH 084/119] fix: AXI stream input into several FIFOs skipped
 words when one of them was full

---
 veriloggen/thread/axistreamin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index fd307fd..62edf59 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -572,6 +572,7 @@ class AXIStreamInFifo(AXIStreamIn):
         self.read_ops = []
 
         self.read_data_fsm = None
+        self.read_data_state_count = 0
         self.read_data_narrow_fsm = None
         self.read_data_wide_fsm = None
 
@@ -665,7 +666,10 @@ class AXIStreamInFifo(AXIStreamIn):
         )
         deq_cond = vtypes.Ands(data_fsm.here, cond)
         _ = self.read_req_fifo.deq_rtl(cond=deq_cond)
-        data_fsm.If(cond).goto_next()
+        # each op has its own data state
+        self.read_data_state_count += 1
+        data_fsm.If(cond).goto(self.read_data_state_count)
+        data_fsm.set_index(self.read_data_state_count)
 
         # Data state 1
         read_cond = vtypes.Ands(data_fsm.here, vtypes.Not(fifo.almost_full),
-- 
2.43.0


From 812d72cf9d8ab1c9b19cd664d4586e0ca6330ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:44 +0000
Subject: [PATCH 085/119] fix: write_fence of AXI stream outputs could not be
 called by a thread

---
 veriloggen/thread/axistreamout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 3203488..26477ee 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -18,7 +18,7 @@ from .fifo import FIFO
 class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
     """ AXI Stream Interface for Output """
 
-    __intrinsics__ = ('write',
+    __intrinsics__ = ('write', 'write_fence',
                       'dma_write', 'dma_write_async',
                       'dma_wait_write')
 
@@ -511,7 +511,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
 class AXIStreamOutFifo(AXIStreamOut):
     """ AXI Stream Interface from FIFO for Output """
 
-    __intrinsics__ = ('write',
+    __intrinsics__ = ('write', 'write_fence',
                       'dma_write', 'dma_write_async',
                       'dma_wait_write')
 
-- 
2.43.0


From 8fe8e1eba4e7ec410860b455b739147932b30420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:20 +0000
Subject: [PATCH 086/119] fix: AXI stream outputs with id, user, dest or strb
 could not be built

---
 veriloggen/types/axi.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index c62ad55..8068f14 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1869,13 +1869,6 @@ class AxiStreamOutData(AxiStreamInData):
                                  id_width, user_width, dest_width,
                                  itype, otype)
 
-        # default values
-        if self.tuser is not None:
-            self.tuser.assign(0)
-
-        if self.tid is not None:
-            self.tid.assign(0)
-
     def write_data(self, data, last=None, _id=None, user=None, dest=None, cond=None):
         """
         @return ack
@@ -1889,9 +1882,10 @@ class AxiStreamOutData(AxiStreamInData):
             self.tdata(data),
             self.tvalid(1),
             self.tlast(last) if self.tlast is not None else (),
-            self.tid(_id) if self.tid is not None else (),
-            self.tuser(user) if self.tuser is not None else (),
-            self.tdest(dest) if self.tdest is not None else (),
+            self.tstrb(vtypes.Repeat(vtypes.Int(1, 1), self.datawidth // 8)) if self.tstrb is not None else (),
+            self.tid(_id if _id is not None else 0) if self.tid is not None else (),
+            self.tuser(user if user is not None else 0) if self.tuser is not None else (),
+            self.tdest(dest if dest is not None else 0) if self.tdest is not None else (),
         )
 
         # de-assert
-- 
2.43.0


From 0563850f5dcafca6661497a6cc991373c4b93bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:52 +0000
Subject: [PATCH 087/119] fix: a second RAM or port written to an AXI stream
 hung

---
 veriloggen/thread/axistreamout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 26477ee..5df3d9c 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -217,7 +217,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
@@ -648,7 +648,7 @@ class AXIStreamOutFifo(AXIStreamOut):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
-- 
2.43.0


From 9b215bc562b8391d9a419a44e2f95ccd59cb27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:04 +0000
Subject: [PATCH 088/119] fix: RAMs of different widths written to one narrower
 AXI stream mixed up their sizes

---
 veriloggen/thread/axistreamout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 5df3d9c..58177b8 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -304,7 +304,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         data_fsm.If(cond).goto_next()
 
         # Data state 1
-        self.seq.If(data_fsm.here)(
+        self.seq.If(data_fsm.here, self.write_op_sel_buf == op_id)(
             # local_size -> global_size
             self.write_size_buf((self.write_size_buf << log_pack_size)
                                 if pack_size == 2 ** log_pack_size else
-- 
2.43.0


From 910bd6bdd15e8f1f4938d2f84257f2dd5d5f5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:21 +0000
Subject: [PATCH 089/119] fix: AXI stream outputs from asynchronous FIFOs hung

---
 veriloggen/thread/axistreamout.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 58177b8..68348ea 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -683,6 +683,8 @@ class AXIStreamOutFifo(AXIStreamOut):
                                self.write_size_buf > 0,
                                rready)
         rdata, rvalid, _ = fifo.deq_rtl(cond=deq_cond)
+        # data of an asynchronous FIFO is valid when it is dequeued
+        cur_rlast = rlast if fifo.sync else self.write_size_buf <= 1
 
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid))
 
@@ -700,10 +702,10 @@ class AXIStreamOutFifo(AXIStreamOut):
         )
 
         wcond = vtypes.Ands(self.write_op_sel_buf == op_id, cur_rvalid, wready)
-        _ = self.write_data(rdata, rlast, cond=wcond)
+        _ = self.write_data(rdata, cur_rlast, cond=wcond)
 
-        data_fsm.If(wcond, rlast).goto_init()
-        self.seq.If(data_fsm.here, wcond, rlast)(
+        data_fsm.If(wcond, cur_rlast).goto_init()
+        self.seq.If(data_fsm.here, wcond, cur_rlast)(
             self.write_data_busy(0)
         )
 
@@ -764,9 +766,12 @@ class AXIStreamOutFifo(AXIStreamOut):
                                self.write_op_sel_buf == op_id,
                                self.write_size_buf > 0,
                                rready,
-                               vtypes.Not(cur_rvalid),
-                               vtypes.Ors(count == 0, count == pack_size - 1))
+                               vtypes.Ands(vtypes.Not(cur_rvalid),
+                                           vtypes.Ors(count == 0, count == pack_size - 1))
+                               if fifo.sync else count == 0)
         rdata, rvalid, _ = fifo.deq_rtl(cond=deq_cond)
+        # data of an asynchronous FIFO is valid when it is dequeued
+        cur_rlast = rlast if fifo.sync else self.write_size_buf <= 1
 
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid))
 
@@ -795,7 +800,7 @@ class AXIStreamOutFifo(AXIStreamOut):
 
         data_fsm.If(wcond, count == 0)(
             wdata(rdata[self.datawidth:]),
-            wlast(rlast),
+            wlast(cur_rlast),
             count.inc()
         )
         data_fsm.If(wcond, count > 0)(
@@ -879,6 +884,8 @@ class AXIStreamOutFifo(AXIStreamOut):
                                rready)
 
         rdata, rvalid, _ = fifo.deq_rtl(cond=deq_cond)
+        # data of an asynchronous FIFO is valid when it is dequeued
+        cur_rlast = rlast if fifo.sync else self.write_size_buf <= 1
 
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid),
                             count > 0)
@@ -894,7 +901,7 @@ class AXIStreamOutFifo(AXIStreamOut):
         wdata = self.m.TmpReg(self.datawidth, initval=0,
                               prefix='_'.join(['', self.name, 'write_wide_wdata']))
         _wdata = vtypes.Cat(rdata, wdata[fifo_datawidth:self.datawidth])
-        _wlast = rlast
+        _wlast = cur_rlast
         _ = self.write_data(_wdata, _wlast, cond=wcond)
 
         data_fsm.If(deq_cond)(
@@ -911,9 +918,9 @@ class AXIStreamOutFifo(AXIStreamOut):
         data_fsm.If(cur_rvalid, rready, count == pack_size - 1)(
             count(0)
         )
-        data_fsm.If(count == pack_size - 1, cur_rvalid, rready, rlast).goto_init()
+        data_fsm.If(count == pack_size - 1, cur_rvalid, rready, cur_rlast).goto_init()
 
-        self.seq.If(data_fsm.here, count == pack_size - 1, cur_rvalid, rready, rlast)(
+        self.seq.If(data_fsm.here, count == pack_size - 1, cur_rvalid, rready, cur_rlast)(
             self.write_data_busy(0)
         )
 
-- 
2.43.0


From 24fd1dd6ebd3c354a42d3c0c94a8b8d29cb9155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:06 +0000
Subject: [PATCH 090/119] fix: stream sources and sinks used with both RAMs and
 FIFOs ignored one of them

---
 veriloggen/thread/stream.py | 55 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 39b7654..f67ac8c 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -197,6 +197,7 @@ class Stream(BaseStream):
         self.var_name_id_map[name] = _id
 
         var.source_fsm = None
+        var.source_fifo_fsm = None
         var.source_pat_fsm = None
         var.source_multipat_fsm = None
         var.source_generator_fsms = []
@@ -320,6 +321,8 @@ class Stream(BaseStream):
         self.var_name_id_map[name] = _id
 
         data.sink_fsm = None
+        data.sink_fifo_fsm = None
+        data.sink_immediate_fsm = None
         data.sink_pat_fsm = None
         data.sink_multipat_fsm = None
         data.sink_generator_fsms = []
@@ -2598,7 +2601,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_source_fifo(self, var, name):
-        if var.source_fsm is not None:
+        if var.source_fifo_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2619,34 +2622,34 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_source_fsm_%d' % (prefix, fsm_id)
-        var.source_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.source_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                              as_module=self.fsm_as_module)
 
-        var.source_fsm.If(source_start, self.oready).goto_next()
+        var.source_fifo_fsm.If(source_start, self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count(var.source_size_buf)
         )
 
-        var.source_fsm.If(self.oready).goto_next()
+        var.source_fifo_fsm.If(self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count.dec()
         )
-        self.seq.If(var.source_fsm.here, var.source_count == 1, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, var.source_count == 1, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(var.source_count == 1, self.oready).goto_init()
+        var.source_fifo_fsm.If(var.source_count == 1, self.oready).goto_init()
 
         # force flush
-        self.seq.If(var.source_fsm.here, self.source_stop, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.source_stop, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(self.source_stop, self.oready).goto_init()
+        var.source_fifo_fsm.If(self.source_stop, self.oready).goto_init()
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
         if ram._id() in var.sink_id_map:
@@ -3260,7 +3263,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_sink_fifo(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_fifo_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3276,16 +3279,16 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_fifo_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, self.oready)(
             var.sink_count(var.sink_size),
             var.sink_size_buf(var.sink_size),
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_fifo_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3295,17 +3298,17 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, wcond, self.oready)(
             var.sink_fifo_wdata(rdata),
             var.sink_fifo_enq(1),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_fifo_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_fifo_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _synthesize_set_sink_immediate(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_immediate_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3321,15 +3324,15 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_immediate_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_immediate_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, self.oready)(
             var.sink_count(var.sink_size_buf)
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_immediate_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3339,13 +3342,13 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, wcond, self.oready)(
             var.sink_immediate(rdata),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_immediate_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_immediate_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
         if ram._id() in var.read_ram_id_map:
-- 
2.43.0


From cb2f4f63a050eb33173385589e55ea31dba7c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 091/119] fix: the data of a stream source did not follow its
 mode in later runs

---
 veriloggen/thread/stream.py | 40 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index f67ac8c..0a5d5e9 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -201,6 +201,7 @@ class Stream(BaseStream):
         var.source_pat_fsm = None
         var.source_multipat_fsm = None
         var.source_generator_fsms = []
+        var.source_wdata_list = []
 
         var.source_idle = self.module.Reg('_%s_idle' % prefix, initval=1)
         self.source_idle_map[name] = var.source_idle
@@ -1014,7 +1015,7 @@ class Stream(BaseStream):
             return
 
         source_start = vtypes.Ands(self.source_start, self.oready,
-                                   vtypes.Not(vtypes.Uor(vtypes.And(var.source_mode, mode_idle))))
+                                   var.source_mode == mode_idle)
 
         self.seq.If(source_start)(
             var.source_idle(1)
@@ -1023,6 +1024,7 @@ class Stream(BaseStream):
         wdata = var.source_empty_data
         wenable = vtypes.Ands(source_start, self.is_root)
         var.write(wdata, wenable)
+        self._write_source(var, wdata, var.source_mode == mode_idle)
 
         var.has_source_empty = True
 
@@ -1922,6 +1924,23 @@ class Stream(BaseStream):
         start_value = self.seq.Prev(v, 1, cond=self.oready)
         return start_value
 
+    def _write_source(self, var, wdata, mode_cond):
+        """ select the data of a source by the mode of the current run """
+        if any(wdata is w for w in var.source_wdata_list):
+            return
+
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+
+        if var.source_wdata_list:
+            selected = self.module.TmpReg(initval=0, prefix='_source_selected')
+            self.seq.If(self.source_start, self.oready)(
+                selected(mode_cond)
+            )
+            wenable = vtypes.Ands(wenable, selected)
+
+        var.write(wdata, wenable)
+        var.source_wdata_list.append(wdata)
+
     def _setup_source_ram(self, ram, var, port, set_cond):
         if ram._id() in var.source_id_map:
             ram_id = var.source_id_map[ram._id()]
@@ -2052,8 +2071,8 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, vtypes.Ands(var.source_mode != mode_idle,
+                                                   var.source_mode != mode_fifo))
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2157,8 +2176,8 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, vtypes.Ands(var.source_mode != mode_idle,
+                                                   var.source_mode != mode_fifo))
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2325,8 +2344,8 @@ class Stream(BaseStream):
                 )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, vtypes.Ands(var.source_mode != mode_idle,
+                                                   var.source_mode != mode_fifo))
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2445,8 +2464,8 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, vtypes.Ands(var.source_mode != mode_idle,
+                                                   var.source_mode != mode_fifo))
 
         fsm_name = '_%s_source_generator_fsm_%d' % (prefix, generator_id)
         fsm = FSM(self.module, fsm_name, self.clock, self.reset,
@@ -2613,8 +2632,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_fifo_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, var.source_mode == mode_fifo)
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
-- 
2.43.0


From e99822dd8d47a75309ccadd74f64984a915f26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:33 +0000
Subject: [PATCH 092/119] fix: open-ended stream sinks wrote the last element
 twice

---
 veriloggen/thread/stream.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 0a5d5e9..85c306c 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -127,6 +127,7 @@ class Stream(BaseStream):
             '_'.join(['', self.name, 'sink_start']))
         self.sink_stop = self.module.Wire(
             '_'.join(['', self.name, 'sink_stop']))
+        self.sink_end = None
         self.sink_busy = self.module.Wire(
             '_'.join(['', self.name, 'sink_busy']))
 
@@ -1781,8 +1782,9 @@ class Stream(BaseStream):
         if sink_term_cond is not None:
             not_sink_term_cond = vtypes.Not(sink_term_cond)
             masked_source_stop = vtypes.Ands(self.source_stop, not_sink_term_cond)
-            sink_stop_value = vtypes.Ors(sink_term_cond,
-                                         self._delay_from_start_to_sink_stop(masked_source_stop))
+            sink_end_value = self._delay_from_start_to_sink_stop(masked_source_stop)
+            self._get_sink_end().assign(sink_end_value)
+            sink_stop_value = vtypes.Ors(sink_term_cond, self._get_sink_end())
             self.sink_stop.assign(sink_stop_value)
             self.sink_busy.assign(
                 self._delay_from_start_to_sink_busy(self.source_busy,
@@ -2669,6 +2671,17 @@ class Stream(BaseStream):
         )
         var.source_fifo_fsm.If(self.source_stop, self.oready).goto_init()
 
+    def _get_sink_end(self):
+        """ asserted one cycle after the last element of a run reached the sinks """
+        if not self.terminates:
+            return self.sink_stop
+
+        # the element which terminates a run is still written
+        if self.sink_end is None:
+            self.sink_end = self.module.Wire('_'.join(['', self.name, 'sink_end']))
+
+        return self.sink_end
+
     def _setup_sink_ram(self, ram, var, port, set_cond):
         if ram._id() in var.sink_id_map:
             ram_id = var.sink_id_map[ram._id()]
@@ -2798,7 +2811,7 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            wcond = make_condition(when.read(), vtypes.Not(self._get_sink_end()))
         else:
             wcond = None
 
@@ -2894,6 +2907,8 @@ class Stream(BaseStream):
         else:
             wcond = None
 
+        wcond = make_condition(wcond, vtypes.Not(self._get_sink_end()))
+
         rdata = var.read()
 
         sink_all_offset = self.module.Wire('_%s_sink_pat_all_offset' % prefix,
@@ -3050,6 +3065,8 @@ class Stream(BaseStream):
         else:
             wcond = None
 
+        wcond = make_condition(wcond, vtypes.Not(self._get_sink_end()))
+
         rdata = var.read()
 
         sink_all_offset = self.module.Wire('_%s_sink_multipat_all_offset' % prefix,
@@ -3167,6 +3184,8 @@ class Stream(BaseStream):
         else:
             wcond = None
 
+        wcond = make_condition(wcond, vtypes.Not(self._get_sink_end()))
+
         rdata = var.read()
 
         self.seq.If(fsm.here, wcond, self.oready)(
@@ -3358,6 +3377,8 @@ class Stream(BaseStream):
         else:
             wcond = None
 
+        wcond = make_condition(wcond, vtypes.Not(self._get_sink_end()))
+
         rdata = var.read()
 
         self.seq.If(var.sink_immediate_fsm.here, wcond, self.oready)(
-- 
2.43.0


From cd2a8bb2acfdc3e65ddce5cde8f5e66d497c3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 093/119] fix: conditional multi-pattern sinks advanced without
 writing

---
 veriloggen/thread/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 85c306c..25b96e0 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -3092,19 +3092,19 @@ class Stream(BaseStream):
                  var.sink_multipat_cur_offsets, var.sink_multipat_size_bufs[0],
                  var.sink_multipat_stride_bufs[0], var.sink_multipat_counts[0]):
 
-            self.seq.If(var.sink_multipat_fsm.here, upcond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, self.oready)(
                 sink_multipat_cur_offset.add(sink_multipat_stride_buf),
                 sink_multipat_count.dec()
             )
 
             reset_cond = sink_multipat_count == 0
-            self.seq.If(var.sink_multipat_fsm.here, upcond, reset_cond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, reset_cond, self.oready)(
                 sink_multipat_cur_offset(0),
                 sink_multipat_count(sink_multipat_size_buf - 1)
             )
             upcond = make_condition(upcond, reset_cond)
 
-        fin_cond = upcond
+        fin_cond = make_condition(wcond, upcond)
 
         prev_offset = var.sink_multipat_offset_bufs[0]
         for multipat_offset_buf in var.sink_multipat_offset_bufs[1:]:
-- 
2.43.0


From 90d0b108fea5a97536e2f840ed070f11982de491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:13 +0000
Subject: [PATCH 094/119] fix: the second multi-pattern started with the sizes
 of the first one

---
 veriloggen/thread/stream.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 25b96e0..579c6c3 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2418,6 +2418,13 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        # the next pattern starts with its own sizes
+        for source_multipat_count, next_size in zip(var.source_multipat_counts[0],
+                                                var.source_multipat_size_bufs[1] if self.max_multipattern_length > 1 else []):
+            self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
+                source_multipat_count(next_size - 1)
+            )
+
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
             var.source_multipat_num_patterns.dec()
         )
@@ -3129,6 +3136,13 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        # the next pattern starts with its own sizes
+        for sink_multipat_count, next_size in zip(var.sink_multipat_counts[0],
+                                                var.sink_multipat_size_bufs[1] if self.max_multipattern_length > 1 else []):
+            self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                sink_multipat_count(next_size - 1)
+            )
+
         self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
             var.sink_multipat_num_patterns.dec()
         )
-- 
2.43.0


From d97fbe840c8710b57520baa3a971f7111e2fc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:34 +0000
Subject: [PATCH 095/119] fix: multi-pattern sources were not synthesized after
 pattern sources, or twice

---
 veriloggen/thread/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 579c6c3..8db127a 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2293,7 +2293,7 @@ class Stream(BaseStream):
                                            for j in range(self.max_multipattern_length)]
 
     def _synthesize_set_source_multipattern(self, var, name):
-        if var.source_pat_fsm is not None:
+        if var.source_multipat_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
-- 
2.43.0


From 408b1825f850b7ef3456171862c3adb8524bf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:51 +0000
Subject: [PATCH 096/119] fix: multi-pattern streams could not be run again
 with the same settings

---
 veriloggen/thread/stream.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 8db127a..73efd1c 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -246,6 +246,7 @@ class Stream(BaseStream):
 
         # set_source_multipattern
         var.source_multipat_num_patterns = None
+        var.source_multipat_num_patterns_buf = None
         var.source_multipat_offsets = None
         var.source_multipat_cur_offsets = None
         var.source_multipat_sizes = None
@@ -368,6 +369,7 @@ class Stream(BaseStream):
 
         # set_sink_multipattern
         data.sink_multipat_num_patterns = None
+        data.sink_multipat_num_patterns_buf = None
         data.sink_multipat_offsets = None
         data.sink_multipat_cur_offsets = None
         data.sink_multipat_sizes = None
@@ -2253,6 +2255,9 @@ class Stream(BaseStream):
         var.source_multipat_num_patterns = self.module.Reg(
             '_source_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.source_multipat_num_patterns_buf = self.module.Reg(
+            '_source_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.source_multipat_offsets = [
             self.module.Reg('_source_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2309,7 +2314,7 @@ class Stream(BaseStream):
             )
 
         self.seq.If(source_start, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf(var.source_multipat_num_patterns - 1)
         )
 
         for (source_multipat_size, source_multipat_count) in zip(
@@ -2426,7 +2431,7 @@ class Stream(BaseStream):
             )
 
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf.dec()
         )
 
         # force flush
@@ -2438,7 +2443,7 @@ class Stream(BaseStream):
 
         # finalize
         var.source_multipat_fsm.If(fin_cond,
-                                   var.source_multipat_num_patterns == 0,
+                                   var.source_multipat_num_patterns_buf == 0,
                                    self.oready).goto_next()
 
         self.seq.If(var.source_multipat_fsm.here, self.oready)(
@@ -2964,6 +2969,9 @@ class Stream(BaseStream):
         var.sink_multipat_num_patterns = self.module.Reg(
             '_sink_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.sink_multipat_num_patterns_buf = self.module.Reg(
+            '_sink_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.sink_multipat_offsets = [
             self.module.Reg('_sink_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -3011,7 +3019,7 @@ class Stream(BaseStream):
                                  vtypes.And(var.sink_mode, mode_ram_multipattern))
 
         self.seq.If(sink_start, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf(var.sink_multipat_num_patterns - 1)
         )
 
         for (sink_multipat_offset_buf,
@@ -3144,11 +3152,11 @@ class Stream(BaseStream):
             )
 
         self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf.dec()
         )
 
         var.sink_multipat_fsm.If(fin_cond,
-                                 var.sink_multipat_num_patterns == 0,
+                                 var.sink_multipat_num_patterns_buf == 0,
                                  self.oready).goto_init()
         var.sink_multipat_fsm.If(self.sink_stop, self.oready).goto_init()
 
-- 
2.43.0


From bb818d77a24fdbfd2b7d39a21af5179ac51c2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:15 +0000
Subject: [PATCH 097/119] fix: read_sink dropped the sign of narrow streams

---
 veriloggen/thread/stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 73efd1c..d3e5efc 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -1630,6 +1630,9 @@ class Stream(BaseStream):
 
         fsm.goto_next()
 
+        if var.get_signed():
+            return vtypes.SystemTask('signed', var.sink_immediate)
+
         return var.sink_immediate
 
     def run(self, fsm):
-- 
2.43.0


From 0c264ac79608c56811350940983ff1b779fbce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:30 +0000
Subject: [PATCH 098/119] fix: streams ignored the port of a RAM which they had
 used at another port

---
 veriloggen/thread/stream.py | 58 +++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index d3e5efc..e3e1cc4 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -162,7 +162,7 @@ class Stream(BaseStream):
         self.terminates = []
 
         self.buf_id_count = 1  # '0' is reserved for idle
-        self.buf_id_map = OrderedDict()  # key: buf._id(), value: count
+        self.buf_id_map = OrderedDict()  # key: (ram._id(), port) or fifo._id(), value: count
 
         self.fsm_id_count = 0
 
@@ -1949,21 +1949,23 @@ class Stream(BaseStream):
         var.source_wdata_list.append(wdata)
 
     def _setup_source_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.source_id_map:
-            ram_id = var.source_id_map[ram._id()]
+        key = (ram._id(), port)  # every port has its own connection
+
+        if key in var.source_id_map:
+            ram_id = var.source_id_map[key]
             self.seq.If(set_cond)(
                 var.source_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.source_id_map[ram._id()] = ram_id
+        var.source_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.source_sel(ram_id)
@@ -2698,21 +2700,23 @@ class Stream(BaseStream):
         return self.sink_end
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.sink_id_map:
-            ram_id = var.sink_id_map[ram._id()]
+        key = (ram._id(), port)  # every port has its own connection
+
+        if key in var.sink_id_map:
+            ram_id = var.sink_id_map[key]
             self.seq.If(set_cond)(
                 var.sink_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.sink_id_map[ram._id()] = ram_id
+        var.sink_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.sink_sel(ram_id)
@@ -3415,21 +3419,23 @@ class Stream(BaseStream):
         var.sink_immediate_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.read_ram_id_map:
-            ram_id = var.read_ram_id_map[ram._id()]
+        key = (ram._id(), port)  # every port has its own connection
+
+        if key in var.read_ram_id_map:
+            ram_id = var.read_ram_id_map[key]
             self.seq.If(set_cond)(
                 var.read_ram_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.read_ram_id_map[ram._id()] = ram_id
+        var.read_ram_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.read_ram_sel(ram_id)
@@ -3530,21 +3536,23 @@ class Stream(BaseStream):
         )
 
     def _setup_write_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.write_ram_id_map:
-            ram_id = var.write_ram_id_map[ram._id()]
+        key = (ram._id(), port)  # every port has its own connection
+
+        if key in var.write_ram_id_map:
+            ram_id = var.write_ram_id_map[key]
             self.seq.If(set_cond)(
                 var.write_ram_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.write_ram_id_map[ram._id()] = ram_id
+        var.write_ram_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.write_ram_sel(ram_id)
-- 
2.43.0


From 5a3f53acb3b6eff7d136b7d1fe98b9cb4d23fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:04 +0000
Subject: [PATCH 099/119] fix: join returned before the end of a short run
 which overlapped the previous one

---
 veriloggen/thread/stream.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index e3e1cc4..b3a926f 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -107,6 +107,8 @@ class Stream(BaseStream):
 
         self.stream_synthesized = False
         self.fsm_synthesized = False
+        self.overlapped = False
+        self.sink_busy_stages = []
 
         self.fsm = FSM(self.module, '_%s_fsm' %
                        self.name, self.clock, self.reset,
@@ -1814,8 +1816,26 @@ class Stream(BaseStream):
 
         self.busy.assign(vtypes.Ors(self.source_busy, self.sink_busy, self.busy_reg))
 
+        if self.overlapped:
+            self._keep_busy()
+
         return 0
 
+    def _keep_busy(self):
+        """ the end of a run must not hide the following run which is still on the way to the sinks """
+        self.seq.If(vtypes.Ors(self.source_busy, *self.sink_busy_stages[:-1]))(
+            self.busy_reg(1)
+        )
+
+    def _set_overlapped(self):
+        if self.overlapped:
+            return
+
+        self.overlapped = True
+
+        if self.fsm_synthesized:
+            self._keep_busy()
+
     def join(self, fsm):
         fsm.If(vtypes.Not(self.busy)).goto_next()
         return 0
@@ -1824,10 +1844,12 @@ class Stream(BaseStream):
         return vtypes.Not(self.busy)
 
     def source_join(self, fsm):
+        self._set_overlapped()
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
         return 0
 
     def source_done(self, fsm):
+        self._set_overlapped()
         return vtypes.Not(self.source_busy)
 
     def sink_join(self, fsm):
@@ -1841,6 +1863,7 @@ class Stream(BaseStream):
         cond = self._set_flag(fsm)
 
         self._run(cond)
+        self._set_overlapped()
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
 
         fsm.If(self.busy).goto_next()
@@ -1894,6 +1917,7 @@ class Stream(BaseStream):
         # return sink_value
         for i in range(delay + 2):
             n = self.module.TmpReg(initval=0)
+            self.sink_busy_stages.append(n)
             self.seq.If(self.oready)(
                 n(v)
             )
-- 
2.43.0


From d6277a3247d073f54e53e6244195c3bfe9d2ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:37 +0000
Subject: [PATCH 100/119] fix: dataflow variables which alias other nodes could
 not be copied with their module

---
 veriloggen/dataflow/dtypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index f66d2a4..b989f0e 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -2279,9 +2279,9 @@ class _Variable(_Numeric):
     # __getattribute__() method is always called,
     # whenever fields of the node is accessed.
     def __getattribute__(self, attr):
-        # for isinstance method
-        if attr == '__class__':
-            return _Numeric.__getattribute__(self, '__class__')
+        # for isinstance method and copying
+        if attr.startswith('__'):
+            return _Numeric.__getattribute__(self, attr)
 
         try:
             input_data = _Numeric.__getattribute__(self, 'input_data')
-- 
2.43.0


From 0aed4fdc80f69fedd936cb15a0325edfccad9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:01 +0000
Subject: [PATCH 101/119] fix: dataflow LUT addressed only a power of two of
 its patterns

---
 veriloggen/dataflow/dtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index b989f0e..315c2ec 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -3,7 +3,6 @@ from __future__ import print_function
 
 from functools import partial
 from collections import OrderedDict
-from math import log
 
 import veriloggen.core.vtypes as vtypes
 import veriloggen.types.fixed as fx
@@ -1959,7 +1958,7 @@ class LUT(_SpecialOperator):
         data_cond = _and_vars(valid_cond, all_valid)
         ready_cond = _and_vars(accept, all_valid)
 
-        size = int(log(len(self.patterns), 2))
+        size = max((len(self.patterns) - 1).bit_length(), 1)
 
         inst = rom.mkROMDefinition(self.name('LUT_ROM'), self.patterns,
                                    size, width, sync=True, with_enable=True)
-- 
2.43.0


From 8212a812768bb4d08f10bd579e92513a5a0f6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:46 +0000
Subject: [PATCH 102/119] fix: evaluation of some dataflow operators, which a
 shift by them requires, failed

---
 veriloggen/dataflow/dtypes.py | 37 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 315c2ec..5ce40b2 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -1353,9 +1353,8 @@ class Xnor(_BinaryLogicalOperator):
     def eval(self):
         left = self.left.eval()
         right = self.right.eval()
-        ret = left ^ right
-        if isinstance(ret, int):
-            return ret == 0
+        if isinstance(left, int) and isinstance(right, int):
+            return ~(left ^ right) & ((1 << self.get_width()) - 1)
         return Xnor(left, right)
 
 
@@ -1392,7 +1391,7 @@ class Lor(_BinaryLogicalOperator):
         right = self.right.eval()
         if isinstance(left, (int, bool)) and isinstance(right, (int, bool)):
             return left or right
-        return Land(left, right)
+        return Lor(left, right)
 
 
 class Uplus(_UnaryOperator):
@@ -1527,7 +1526,7 @@ class Uxor(_UnaryLogicalOperator):
             return right
         if isinstance(right, int):
             width = self.right.get_width()
-            ret = 1
+            ret = 0
             for i in range(width):
                 ret = ret ^ (right & 0x1)
                 right = right >> 1
@@ -1547,7 +1546,7 @@ class Uxnor(_UnaryLogicalOperator):
             return not right
         if isinstance(right, int):
             width = self.right.get_width()
-            ret = 1
+            ret = 0
             for i in range(width):
                 ret = ret ^ (right & 0x1)
                 right = right >> 1
@@ -1765,13 +1764,14 @@ class Cat(_SpecialOperator):
         self.args = list(vars)
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
-        for var in vars:
-            if not isinstance(var, int):
-                return Cat(*vars)
+        values = [var.eval() for var in self.vars]
+        for value in values:
+            if not isinstance(value, int):
+                return Cat(*values)
         ret = 0
-        for var in vars:
-            ret = (ret << var.get_width()) | var
+        for var, value in zip(self.vars, values):
+            width = var.get_width()
+            ret = (ret << width) | (value & ((1 << width) - 1))
         return ret
 
 
@@ -1808,9 +1808,12 @@ class Repeat(_SpecialOperator):
     def eval(self):
         var = self.var.eval()
         times = self.times.eval()
+        if not isinstance(var, int):
+            return Repeat(var, times)
+        width = self.var.get_width()
         ret = 0
-        for i in times:
-            ret = (ret << var.get_width()) | var
+        for i in range(times):
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -1919,6 +1922,12 @@ class LUT(_SpecialOperator):
     def _set_attributes(self):
         pass
 
+    def eval(self):
+        address = self.address.eval()
+        if isinstance(address, int):
+            return self.patterns[address]
+        return self
+
     @property
     def address(self):
         return self.args[0]
-- 
2.43.0


From d8dd7b6d855bdf4198a615b6ea3854e36e36522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:07 +0000
Subject: [PATCH 103/119] fix: full match of copied or connected names ignored
 alternatives in the pattern

---
 veriloggen/core/module.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 5c9e609..cbf1522 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -654,12 +654,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -701,12 +701,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -749,12 +749,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -796,12 +796,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -843,12 +843,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -893,12 +893,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -944,12 +944,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
@@ -989,12 +989,12 @@ class Module(vtypes.VeriloggenNode):
                 skip = True
             for inc in include:
                 if use_fullmatch:
-                    inc = ''.join(('^', inc, '$'))
+                    inc = ''.join(('^(?:', inc, ')$'))
                 if re.match(inc, key):
                     skip = False
             for ex in exclude:
                 if use_fullmatch:
-                    ex = ''.join(('^', ex, '$'))
+                    ex = ''.join(('^(?:', ex, ')$'))
                 if re.match(ex, key):
                     skip = True
             if skip:
-- 
2.43.0


From 5e25d45865aeaace90fbc9a76d4eda0ad455331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:07 +0000
Subject: [PATCH 104/119] fix: copied ports and variables belonged to a copy of
 their source module

---
 veriloggen/core/module.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index cbf1522..7c024a3 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -625,6 +625,14 @@ class Module(vtypes.VeriloggenNode):
         return v
 
     # -------------------------------------------------------------------------
+    def _copy_variable(self, obj):
+        """ copy of a variable, which belongs to this module and has no driver """
+        copy_obj = copy.copy(obj)
+        copy_obj.module = self
+        copy_obj.subst = []
+        copy_obj.assign_value = None
+        return copy_obj
+
     def copy_params(self, src, prefix=None, postfix=None,
                     include=None, exclude=None, rename_exclude=None,
                     use_fullmatch=False):
@@ -664,7 +672,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
@@ -759,7 +767,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
@@ -806,7 +814,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
@@ -903,7 +911,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_variable(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
-- 
2.43.0


From bfd7f8406cb13409834ddc5476a48ea8f62b0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:34 +0000
Subject: [PATCH 105/119] fix: parameters declared like signed objects were
 unsigned

---
 veriloggen/core/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 7c024a3..abdb9ca 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -432,7 +432,7 @@ class Module(vtypes.VeriloggenNode):
         return self.TmpGenvar(width, dims, signed, value, prefix)
 
     def ParameterLike(self, src, name=None, value=None, width=None,
-                      signed=False, dims=None):
+                      signed=None, dims=None):
 
         if name is None:
             if not hasattr(src, 'name'):
@@ -449,7 +449,7 @@ class Module(vtypes.VeriloggenNode):
         return self.Parameter(name, value, width, signed, dims)
 
     def LocalparamLike(self, src, name=None, value=None, width=None,
-                       signed=False, dims=None):
+                       signed=None, dims=None):
 
         if name is None:
             if not hasattr(src, 'name'):
@@ -466,7 +466,7 @@ class Module(vtypes.VeriloggenNode):
         return self.Localparam(name, value, width, signed, dims)
 
     def TmpLocalparamLike(self, src, value=None, width=None,
-                          signed=False, dims=None, prefix=None):
+                          signed=None, dims=None, prefix=None):
 
         if width is None:
             width = vtypes.get_width(src)
-- 
2.43.0


From 4841bcac9eb907650ee0b01dde0c79fe72d84294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:37 +0000
Subject: [PATCH 106/119] fix: submodules did not copy the constants that
 copied constants refer to

---
 veriloggen/core/submodule.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/core/submodule.py b/veriloggen/core/submodule.py
index a804f8f..9f794bd 100644
--- a/veriloggen/core/submodule.py
+++ b/veriloggen/core/submodule.py
@@ -95,6 +95,18 @@ class Submodule(vtypes.VeriloggenNode):
 
         used_params = collect_visitor.names
 
+        # constants that the values of the used constants refer to
+        child_consts = dict(child_params)
+        child_consts.update(child.get_localparams())
+        visited = set(arg_params.keys())
+
+        while used_params - visited:
+            for key in list(used_params - visited):
+                visited.add(key)
+                if key in child_consts:
+                    collect_visitor.visit(child_consts[key].width)
+                    collect_visitor.visit(child_consts[key].value)
+
         # params
         new_params = collections.OrderedDict()
 
-- 
2.43.0


From 554c1c4ab04fabf1a60b5221f684474b455fc1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:26 +0000
Subject: [PATCH 107/119] fix: dataflow operators could not have a number as
 their left operand

---
 veriloggen/dataflow/dtypes.py | 36 +++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 5ce40b2..a64b4c1 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -411,6 +411,42 @@ class _Numeric(_Node):
     def __rshift__(self, r):
         return Srl(self, r)
 
+    def __radd__(self, l):
+        return Plus(l, self)
+
+    def __rsub__(self, l):
+        return Minus(l, self)
+
+    def __rpow__(self, l):
+        return Power(l, self)
+
+    def __rmul__(self, l):
+        return Times(l, self)
+
+    def __rdiv__(self, l):
+        return Divide(l, self)
+
+    def __rtruediv__(self, l):
+        return Divide(l, self)
+
+    def __rmod__(self, l):
+        return Mod(l, self)
+
+    def __rand__(self, l):
+        return And(l, self)
+
+    def __ror__(self, l):
+        return Or(l, self)
+
+    def __rxor__(self, l):
+        return Xor(l, self)
+
+    def __rlshift__(self, l):
+        return Sll(l, self)
+
+    def __rrshift__(self, l):
+        return Srl(l, self)
+
     def __neg__(self):
         return Uminus(self)
 
-- 
2.43.0


From 4a9aad49d574daa01a94accc4a0a4b1cbb8e23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:45 +0000
Subject: [PATCH 108/119] fix: a second generation of streams and dataflow
 pipelines numbered their objects differently

---
 veriloggen/core/module.py       | 42 ++++++++++++++++++++++++++++++++-
 veriloggen/dataflow/dataflow.py | 15 +++++++++++-
 veriloggen/stream/stream.py     | 15 +++++++++++-
 3 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index abdb9ca..3297663 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -12,6 +12,15 @@ import veriloggen.core.task as task
 import veriloggen.core.rename_visitor as rename_visitor
 
 
+# global counters, which number the objects that hooked methods create
+_hook_counters = []
+
+
+def add_hook_counter(mod, name):
+    """ keep a global counter unchanged by 'to_verilog()' """
+    _hook_counters.append((mod, name))
+
+
 class Module(vtypes.VeriloggenNode):
     """ Verilog Module class """
 
@@ -42,6 +51,7 @@ class Module(vtypes.VeriloggenNode):
         self.tmp_prefix = tmp_prefix
         self.tmp_count = 0
         self.hook = []
+        self._hook_counts = None
         self.used = False
 
     # -------------------------------------------------------------------------
@@ -1241,9 +1251,39 @@ class Module(vtypes.VeriloggenNode):
         if not self.has_hook():
             return self
         copied = copy.deepcopy(self)
-        copied.resolve_hook()
+        saved = [getattr(mod, name) for mod, name in _hook_counters]
+        used = self._get_hook_object_ids()
+        structure = self._get_structure(used)
+        if self._hook_counts is None or self._hook_counts[0] != structure:
+            counts = [max([count] + [i + 1 for k, i in used if k == key])
+                      for key, count in zip(_hook_counters, saved)]
+            self._hook_counts = (structure, counts)
+        try:
+            self._set_hook_counters(self._hook_counts[1])
+            copied.resolve_hook()
+        finally:
+            self._set_hook_counters(saved)
         return copied
 
+    def _set_hook_counters(self, counts):
+        for (mod, name), count in zip(_hook_counters, counts):
+            setattr(mod, name, count)
+
+    def _get_hook_object_ids(self):
+        used = set()
+        for m in self.get_all_modules()[0]:
+            for method, _, _ in getattr(m, 'hook', ()):
+                get_object_ids = getattr(getattr(method, '__self__', None),
+                                         'get_object_ids', None)
+                if get_object_ids is not None:
+                    used.update(get_object_ids())
+        return used
+
+    def _get_structure(self, used):
+        return (sorted((mod.__name__, name, i) for (mod, name), i in used),
+                [(m.name, len(m.items), len(m.hook))
+                 for m in self.get_all_modules()[0] if isinstance(m, Module)])
+
     def resolve_hook(self):
         for method, args, kwargs in self.hook:
             if args is None:
diff --git a/veriloggen/dataflow/dataflow.py b/veriloggen/dataflow/dataflow.py
index 7874fc3..6ba69c7 100644
--- a/veriloggen/dataflow/dataflow.py
+++ b/veriloggen/dataflow/dataflow.py
@@ -7,7 +7,7 @@ import collections
 import functools
 
 import veriloggen.core.vtypes as vtypes
-from veriloggen.core.module import Module
+from veriloggen.core.module import Module, add_hook_counter
 from veriloggen.seq.seq import Seq
 
 from . import visitor
@@ -18,6 +18,10 @@ from . import allocator
 from . import graph
 
 
+add_hook_counter(dtypes, '_object_counter')
+add_hook_counter(mul, 'index_count')
+
+
 # ID counter for 'Dataflow'
 _dataflow_counter = 0
 
@@ -83,6 +87,15 @@ class Dataflow(object):
 
         return m
 
+    # -------------------------------------------------------------------------
+    def get_object_ids(self):
+        all_visitor = visitor.AllVisitor()
+        ids = set()
+        for node in sorted(self.nodes, key=lambda x: x.object_id):
+            for v in all_visitor.visit(node):
+                ids.add(((dtypes, '_object_counter'), v.object_id))
+        return ids
+
     # -------------------------------------------------------------------------
     def implement(self, m=None, clock=None, reset=None, aswire=None, seq_name=None):
         """ implemente actual registers and operations in Verilog """
diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index 26dbfca..54be677 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -9,7 +9,7 @@ import functools
 from collections import OrderedDict
 
 import veriloggen.core.vtypes as vtypes
-from veriloggen.core.module import Module
+from veriloggen.core.module import Module, add_hook_counter
 from veriloggen.seq.seq import Seq
 
 from . import visitor
@@ -20,6 +20,10 @@ from . import allocator
 from . import graph
 
 
+add_hook_counter(stypes, '_object_counter')
+add_hook_counter(mul, 'index_count')
+
+
 # ID counter for 'Stream'
 _stream_counter = 0
 
@@ -137,6 +141,15 @@ class Stream(object):
 
         return m
 
+    # -------------------------------------------------------------------------
+    def get_object_ids(self):
+        all_visitor = visitor.AllVisitor()
+        ids = set()
+        for node in sorted(self.nodes, key=lambda x: x.object_id):
+            for v in all_visitor.visit(node):
+                ids.add(((stypes, '_object_counter'), v.object_id))
+        return ids
+
     # -------------------------------------------------------------------------
     def implement(self, m=None, clock=None, reset=None, aswire=None, seq_name=None):
         """ implemente actual registers and operations in Verilog """
-- 
2.43.0


From 6d7e3dfdb444d8d14fe79f1a247e943d6088b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:45 +0000
Subject: [PATCH 109/119] fix: reset() did not reset the numbers of
 multiply-add modules

---
 veriloggen/stream/stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index 54be677..facc4f8 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -15,6 +15,7 @@ from veriloggen.seq.seq import Seq
 from . import visitor
 from . import stypes
 from . import mul
+from . import madd
 from . import scheduler
 from . import allocator
 from . import graph
@@ -22,6 +23,7 @@ from . import graph
 
 add_hook_counter(stypes, '_object_counter')
 add_hook_counter(mul, 'index_count')
+add_hook_counter(madd, 'index_count')
 
 
 # ID counter for 'Stream'
@@ -33,6 +35,7 @@ def reset():
     _stream_counter = 0
     stypes._object_counter = 0
     mul.reset()
+    madd.reset()
 
 
 def StreamManager(module, clock, reset,
-- 
2.43.0


From 02787479aae0e399533596883f6c1b03af6aa0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:38 +0000
Subject: [PATCH 110/119] fix: the resolver evaluated division, remainder,
 shift and concatenation of negative constants unlike Verilog

---
 veriloggen/core/vtypes.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 65f17f3..5e7b517 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1076,7 +1076,9 @@ class Divide(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        return left // right
+        # toward zero, as in Verilog
+        ret = abs(left) // abs(right)
+        return -ret if (left < 0) != (right < 0) else ret
 
     def get_width(self):
         left = get_width(self.left)
@@ -1088,7 +1090,9 @@ class Mod(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        return left % right
+        # the sign of the remainder is the one of the left operand, as in Verilog
+        ret = abs(left) % abs(right)
+        return -ret if left < 0 else ret
 
     def get_width(self):
         left = get_width(self.left)
@@ -1166,12 +1170,7 @@ class Sra(_BinaryOperator):
 
     @staticmethod
     def op(left, right, lwidth, rwidth):
-        sign = left >= 0
-        left = abs(left)
-        ret = left >> right
-        if not sign:
-            return -1 * ret
-        return ret
+        return left >> right
 
     def get_width(self):
         left = get_width(self.left)
@@ -1810,7 +1809,7 @@ class Cat(_SpecialOperator):
     def op(vars, widths):
         ret = 0
         for var, width in zip(vars, widths):
-            ret = (ret << width) | var
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
@@ -1832,7 +1831,7 @@ class Repeat(_SpecialOperator):
     def op(var, width, times):
         ret = 0
         for i in range(times):
-            ret = (ret << width) | var
+            ret = (ret << width) | (var & ((1 << width) - 1))
         return ret
 
 
-- 
2.43.0


From f6ecbef68bd5005f3d5f96e12e3094a48be743da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:14 +0000
Subject: [PATCH 111/119] fix: the resolver lost the types of sized constants
 and typed parameters, and did not resolve the bodies of loops, delays and
 casez

---
 veriloggen/resolver/resolver.py | 144 +++++++++++++++++---------------
 1 file changed, 76 insertions(+), 68 deletions(-)

diff --git a/veriloggen/resolver/resolver.py b/veriloggen/resolver/resolver.py
index b9c516d..960be4b 100644
--- a/veriloggen/resolver/resolver.py
+++ b/veriloggen/resolver/resolver.py
@@ -215,6 +215,22 @@ class ConstantVisitor(_CommonVisitor):
 
 class ReplaceVisitor(ConstantVisitor):
 
+    def replace(self, node, value):
+        """ an expression for the value of node, which has the same type """
+        if not check_constant(value) or isinstance(node, vtypes._Constant):
+            return node
+        if isinstance(node, vtypes._ParameterVariable) and node.width is not None:
+            width = self.visit(node.width)
+            if check_constant(width) and isinstance(value, int):
+                value = value & ((1 << width) - 1)
+                return vtypes.Int(value, width=width, signed=node.signed)
+        if isinstance(node, (vtypes.Cat, vtypes.Repeat)):
+            # an unsigned value of definite width
+            width = self.visit(node.get_width())
+            if check_constant(width):
+                return vtypes.Int(value, width=width)
+        return value
+
     def visit__BinaryOperator(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
@@ -225,10 +241,8 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(lwidth) and
                 check_constant(rwidth)):
             return node.op(left, right, lwidth, rwidth)
-        if check_constant(left):
-            node.left = left
-        if check_constant(right):
-            node.right = right
+        node.left = self.replace(node.left, left)
+        node.right = self.replace(node.right, right)
         return node
 
     def visit__UnaryOperator(self, node):
@@ -237,8 +251,7 @@ class ReplaceVisitor(ConstantVisitor):
         if (check_constant(right) and
                 check_constant(rwidth)):
             return node.op(right, rwidth)
-        if check_constant(right):
-            node.right = right
+        node.right = self.replace(node.right, right)
         return node
 
     def visit_Pointer(self, node):
@@ -247,10 +260,8 @@ class ReplaceVisitor(ConstantVisitor):
         if (check_constant(var) and
                 check_constant(pos)):
             return node.op(var, pos)
-        if check_constant(var):
-            node.var = var
-        if check_constant(pos):
-            node.pos = pos
+        node.var = self.replace(node.var, var)
+        node.pos = self.replace(node.pos, pos)
         return node
 
     def visit_Slice(self, node):
@@ -261,24 +272,19 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(msb) and
                 check_constant(lsb)):
             return node.op(var, msb, lsb)
-        if check_constant(var):
-            node.var = var
-        if check_constant(msb):
-            node.msb = msb
-        if check_constant(lsb):
-            node.lsb = lsb
+        node.var = self.replace(node.var, var)
+        node.msb = self.replace(node.msb, msb)
+        node.lsb = self.replace(node.lsb, lsb)
         return node
 
     def visit_Cat(self, node):
         vars = [self.visit(var) for var in node.vars]
         widths = [self.visit(get_width(var)) for var in node.vars]
-        node.vars = vars
-        for var, width in zip(vars, widths):
-            if not check_constant(var):
-                return node
-            if not check_constant(width):
-                return node
-        return node.op(vars, widths)
+        if (all(check_constant(var) for var in vars) and
+                all(check_constant(width) for width in widths)):
+            return node.op(vars, widths)
+        node.vars = [self.replace(old, var) for old, var in zip(node.vars, vars)]
+        return node
 
     def visit_Repeat(self, node):
         var = self.visit(node.var)
@@ -288,10 +294,8 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(width) and
                 check_constant(times)):
             return node.op(var, width, times)
-        if check_constant(var):
-            node.var = var
-        if check_constant(times):
-            node.times = times
+        node.var = self.replace(node.var, var)
+        node.times = self.replace(node.times, times)
         return node
 
     def visit_Cond(self, node):
@@ -302,12 +306,9 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(true_value) and
                 check_constant(false_value)):
             return node.op(condition, true_value, false_value)
-        if check_constant(condition):
-            node.condition = condition
-        if check_constant(true_value):
-            node.true_value = true_value
-        if check_constant(false_value):
-            node.false_value = false_value
+        node.condition = self.replace(node.condition, condition)
+        node.true_value = self.replace(node.true_value, true_value)
+        node.false_value = self.replace(node.false_value, false_value)
         return node
 
     # -------------------------------------------------------------------------
@@ -333,8 +334,7 @@ class ReplaceVisitor(ConstantVisitor):
         ldelay = self.visit(node.ldelay) if node.ldelay is not None else None
         rdelay = self.visit(node.rdelay) if node.rdelay is not None else None
         node.left = left
-        if check_constant(right):
-            node.right = right
+        node.right = self.replace(node.right, right)
         if check_constant(ldelay):
             node.ldelay = ldelay
         if check_constant(rdelay):
@@ -370,8 +370,7 @@ class ReplaceVisitor(ConstantVisitor):
 
         # pre
         dst = pre.left.name
-        val = pre.right
-        const_dict[dst] = val
+        const_dict[dst] = self.visit(pre.right)
 
         while True:
             # cond
@@ -379,6 +378,9 @@ class ReplaceVisitor(ConstantVisitor):
             cond = cvisitor.visit(condition)
 
             if not check_constant(cond):
+                pre.right = self.replace(pre.right, self.visit(pre.right))
+                post.right = self.replace(post.right, self.visit(post.right))
+                node.statement = self.visit(node.statement)
                 return node
 
             if not cond:
@@ -397,35 +399,38 @@ class ReplaceVisitor(ConstantVisitor):
         return new_statement
 
     def visit_While(self, node):
-        condition = self.visit(node.condition)
-        statement = self.visit(node.statement)
-        if check_constant(condition):
-            node.condition = condition
-        node.statement = statement
+        node.condition = self.replace(node.condition, self.visit(node.condition))
+        node.statement = self.visit(node.statement)
+        return node
+
+    def visit_Wait(self, node):
+        node.condition = self.replace(node.condition, self.visit(node.condition))
+        if node.statement is not None:
+            node.statement = self.visit(node.statement)
         return node
 
     def visit_Case(self, node):
         comp = self.visit(node.comp)
         statement = [self.visit(s) for s in node.statement]
-        if check_constant(comp):
-            node.comp = comp
+        node.comp = self.replace(node.comp, comp)
         node.statement = statement
         return node
 
     def visit_Casex(self, node):
         comp = self.visit(node.comp)
         statement = [self.visit(s) for s in node.statement]
-        if check_constant(comp):
-            node.comp = comp
+        node.comp = self.replace(node.comp, comp)
         node.statement = statement
         return node
 
+    def visit_Casez(self, node):
+        return self.visit_Case(node)
+
     def visit_When(self, node):
-        condition = self.visit(node.condition)
-        statement = self.visit(node.statement)
-        if check_constant(condition):
-            node.condition = condition
-        node.statement = statement
+        if node.condition is not None:
+            node.condition = tuple([self.replace(c, self.visit(c))
+                                    for c in node.condition])
+        node.statement = self.visit(node.statement)
         return node
 
     def visit_ScopeIndex(self, node):
@@ -441,8 +446,7 @@ class ReplaceVisitor(ConstantVisitor):
         return node
 
     def visit_SystemTask(self, node):
-        args = [self.visit(a) for a in node.args]
-        node.args = args
+        node.args = [self.replace(a, self.visit(a)) for a in node.args]
         return node
 
     def visit_Event(self, node):
@@ -456,9 +460,7 @@ class ReplaceVisitor(ConstantVisitor):
         return node
 
     def visit_Delay(self, node):
-        delay = self.visit(node.delay)
-        if check_constant(delay):
-            node.delay = delay
+        node.value = self.replace(node.value, self.visit(node.value))
         return node
 
     def visit_SingleStatement(self, node):
@@ -472,8 +474,7 @@ class ReplaceVisitor(ConstantVisitor):
 
     def visit_FunctionCall(self, node):
         self.visit(node.func)
-        args = [self.visit(a) for a in node.args]
-        node.args = args
+        node.args = [self.replace(a, self.visit(a)) for a in node.args]
         return node
 
     def visit_Task(self, node):
@@ -481,9 +482,7 @@ class ReplaceVisitor(ConstantVisitor):
         return node
 
     def visit_TaskCall(self, node):
-        self.visit(node.func)
-        args = [self.visit(a) for a in node.args]
-        node.args = args
+        node.args = [self.replace(a, self.visit(a)) for a in node.args]
         return node
 
 
@@ -544,13 +543,22 @@ class ModuleReplaceVisitor(_CachedVisitor):
 
         for name, param in unresolved.items():
             value = const_visitor.visit(param.value)
+            width = const_visitor.visit(param.width)
 
-            if not check_constant(value):
+            if not check_constant(value) or not check_constant(width):
                 next_unresolved[name] = param
                 continue
 
-            if name not in self.const_dict:
-                const_visitor.update_const(name, value)
+            if name in self.const_dict:
+                value = self.const_dict[name]
+
+            if width is not None and isinstance(value, int):
+                # assigning a value to a typed parameter converts it
+                value = value & ((1 << width) - 1)
+                if param.signed and (value >> (width - 1)) & 0x1:
+                    value -= 1 << width
+
+            const_visitor.update_const(name, value)
 
         self.const_dict = const_visitor.get_const_dict()
 
@@ -618,7 +626,7 @@ class ModuleReplaceVisitor(_CachedVisitor):
 
     def visit_Always(self, node):
         sensitivity = self.replace_visitor.visit(node.sensitivity)
-        self.replace_visitor.visit(node.statement)
+        node.statement = self.replace_visitor.visit(node.statement)
         if check_constant(sensitivity):
             node.sensitivity = sensitivity
         return node
@@ -628,13 +636,13 @@ class ModuleReplaceVisitor(_CachedVisitor):
         return node
 
     def visit_Initial(self, node):
-        for s in node.statement:
-            self.replace_visitor.visit(s)
+        node.statement = self.replace_visitor.visit(node.statement)
         return node
 
     def visit_Instance(self, node):
         params = [(k, self.replace_visitor.visit(v)) for k, v in node.params]
-        ports = [(k, self.replace_visitor.visit(v)) for k, v in node.ports]
+        ports = [(k, self.replace_visitor.replace(v, self.replace_visitor.visit(v)))
+                 for k, v in node.ports]
         node.params = params
         node.ports = ports
 
-- 
2.43.0


From 101b049d1bb894e04e3d8a57302a4160586623ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:52 +0000
Subject: [PATCH 112/119] fix: the Verilator backend did not pass the top
 module, lists of options, definitions and include directories

---
 veriloggen/simulation/simulation.py | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 99e41f6..f0664e0 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -245,19 +245,17 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('+incdir+')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('+define+')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -516,7 +514,7 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
 
     if not isinstance(top, module.Module):
         for obj in objs:
-            if obj.name == top_name:
+            if isinstance(obj, module.Module) and obj.name == top_name:
                 top = obj
                 break
 
@@ -537,9 +535,9 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     cmd.append('--cc')
 
     if options is not None:
-        if isinstance(options, (tuple, list)):
+        if not isinstance(options, (tuple, list)):
             options = (options,)
-        cmd.append(options)
+        cmd.extend(options)
 
     if hasattr(top, 'verilator_dumpfile'):
         cmd.append('--trace')
@@ -550,19 +548,17 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('+incdir+')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('+define+')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -577,6 +573,11 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     verilog_path = outputfile + '/' + verilog_name
     cmd.append(verilog_path)
 
+    cmd.append('--top-module')
+    cmd.append(top_name)
+    cmd.append('--prefix')
+    cmd.append('V' + verilog_prefix)
+
     cpp_prefix = 'sim_%s' % top_name
     cpp_name = cpp_prefix + '.cpp'
     cpp_path = outputfile + '/' + cpp_name
-- 
2.43.0


From b718693261127137b76cb55176bb6154828df126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:23 +0000
Subject: [PATCH 113/119] fix: running a design with Verilator added ports to
 it

---
 veriloggen/simulation/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index f0664e0..80ea933 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 import os
 import sys
+import copy
 import subprocess
 import tempfile
 import collections
@@ -633,6 +634,9 @@ def to_verilator(top, objs,
     verilog_name = verilog_prefix + '.v'
     verilog_path = outputdir + '/' + verilog_name
 
+    # the ports added for the simulation are not part of the given modules
+    top, objs = copy.deepcopy((top, objs))
+
     verilog_code = to_verilator_code(top, objs)
     verilog = open(verilog_path, 'w')
     verilog.write(verilog_code)
-- 
2.43.0


From ea0e98741c07581956b40e38a729fa6b00fae6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:54 +0000
Subject: [PATCH 114/119] fix: fixed-point values were shifted twice by assign,
 connect and reset, comparisons lost bits, and conversions failed

---
 veriloggen/types/fixed.py | 58 +++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/veriloggen/types/fixed.py b/veriloggen/types/fixed.py
index 215b98e..a0a04b2 100644
--- a/veriloggen/types/fixed.py
+++ b/veriloggen/types/fixed.py
@@ -99,7 +99,7 @@ def to_fixed(value, point):
         return _to_fixed_neg_point(value, point)
 
     if point == 0:
-        return value
+        return int(value) if isinstance(value, float) else value
 
     if isinstance(value, (int, bool, float)) and isinstance(point, int):
         mag = 2 ** point
@@ -154,7 +154,7 @@ def fixed_to_int(value, point):
     return shift_right(value, point, signed)
 
 
-def _fixed_to_int_reg_point(value, point):
+def _fixed_to_int_neg_point(value, point):
     point = -point
 
     if isinstance(value, (int, bool, float)) and isinstance(point, int):
@@ -212,7 +212,10 @@ def fixed_to_real(value, point):
            vtypes.SystemTask('itor', fixed_to_int_low(nv, point)) /
            vtypes.SystemTask('itor', vtypes.Int(2) ** point))) * vtypes.SystemTask('itor', -1)
 
-    return vtypes.Mux(signed and msb == 0, v0, v1)
+    if not signed:
+        return v0
+
+    return vtypes.Mux(msb == 0, v0, v1)
 
 
 def to_signed(value):
@@ -409,12 +412,20 @@ class _FixedVariable(_FixedBase, vtypes._Variable):
         v = self._adjust(value)
         return vtypes._Variable.write(self, v, blk=blk, ldelay=ldelay, rdelay=rdelay)
 
+    def reset(self):
+        if self.initval is None:
+            return None
+        if isinstance(self.initval, _FixedConstant):
+            return self.write(self.initval)
+        # already converted
+        return self.write_raw(self.initval)
+
     def write_raw(self, value, blk=False, ldelay=None, rdelay=None):
         return vtypes._Variable.write(self, value, blk=blk, ldelay=ldelay, rdelay=rdelay)
 
     def assign(self, value):
-        v = self._adjust(value)
-        return vtypes._Variable.assign(self, v)
+        # adjusted by write()
+        return vtypes._Variable.assign(self, value)
 
     def assign_raw(self, value):
         if self.module is None:
@@ -423,8 +434,14 @@ class _FixedVariable(_FixedBase, vtypes._Variable):
         return self.module.Assign(self.write_raw(value))
 
     def connect(self, value):
-        v = self._adjust(value)
-        return vtypes._Variable.connect(self, v)
+        if isinstance(self, vtypes.Reg) and self.module is not None:
+            wire_self = FixedTmpWire(self.module, self.width, self.point,
+                                     self.dims, self.signed)
+            wire_self.assign(value)
+            self.module.Always()(self.write(wire_self, blk=True))
+            return
+        # adjusted by write()
+        return vtypes._Variable.connect(self, value)
 
 
 class _FixedInput(_FixedVariable, vtypes.Input):
@@ -450,6 +467,7 @@ class _FixedWire(_FixedVariable, vtypes.Wire):
 class _FixedBinaryOperator(_FixedBase, vtypes._BinaryOperator):
     ast_name = None
     overwrite_signed = False
+    exact = False
     __hash__ = vtypes._BinaryOperator.__hash__
 
     def init(self, left, right):
@@ -459,11 +477,22 @@ class _FixedBinaryOperator(_FixedBase, vtypes._BinaryOperator):
         rsigned = vtypes.get_signed(right)
         point = _max_mux(lpoint, rpoint)
         signed = lsigned and rsigned if not self.overwrite_signed else False
-        ldata, rdata = adjust(left, right, lpoint, rpoint, signed)
+        ldata, rdata = adjust(left, right, lpoint, rpoint, signed, self.exact)
         self.point = point
         return ldata, rdata
 
 
+class _FixedCompareOperator(_FixedBinaryOperator):
+    # the operands have no wider context
+    exact = True
+
+    def init(self, left, right):
+        ldata, rdata = _FixedBinaryOperator.init(self, left, right)
+        # the result is a truth value
+        self.point = 0
+        return ldata, rdata
+
+
 class _FixedBinaryShiftOperator(_FixedBinaryOperator):
 
     def init(self, left, right):
@@ -604,16 +633,15 @@ class _FixedSra(_FixedBinaryShiftOperator, vtypes.Sra):
         vtypes.Sra.__init__(self, left, right)
 
 
-class _FixedLessThan(_FixedBinaryOperator, vtypes.LessThan):
+class _FixedLessThan(_FixedCompareOperator, vtypes.LessThan):
     ast_name = 'LessThan'
-    overwrite_signed = True
 
     def __init__(self, left, right):
         left, right = self.init(left, right)
         vtypes.LessThan.__init__(self, left, right)
 
 
-class _FixedGreaterThan(_FixedBinaryOperator, vtypes.GreaterThan):
+class _FixedGreaterThan(_FixedCompareOperator, vtypes.GreaterThan):
     ast_name = 'GreaterThan'
 
     def __init__(self, left, right):
@@ -621,7 +649,7 @@ class _FixedGreaterThan(_FixedBinaryOperator, vtypes.GreaterThan):
         vtypes.GreaterThan.__init__(self, left, right)
 
 
-class _FixedLessEq(_FixedBinaryOperator, vtypes.LessEq):
+class _FixedLessEq(_FixedCompareOperator, vtypes.LessEq):
     ast_name = 'LessEq'
 
     def __init__(self, left, right):
@@ -629,7 +657,7 @@ class _FixedLessEq(_FixedBinaryOperator, vtypes.LessEq):
         vtypes.LessEq.__init__(self, left, right)
 
 
-class _FixedGreaterEq(_FixedBinaryOperator, vtypes.GreaterEq):
+class _FixedGreaterEq(_FixedCompareOperator, vtypes.GreaterEq):
     ast_name = 'GreaterEq'
 
     def __init__(self, left, right):
@@ -637,7 +665,7 @@ class _FixedGreaterEq(_FixedBinaryOperator, vtypes.GreaterEq):
         vtypes.GreaterEq.__init__(self, left, right)
 
 
-class _FixedEq(_FixedBinaryOperator, vtypes.Eq):
+class _FixedEq(_FixedCompareOperator, vtypes.Eq):
     ast_name = 'Eq'
 
     def __init__(self, left, right):
@@ -645,7 +673,7 @@ class _FixedEq(_FixedBinaryOperator, vtypes.Eq):
         vtypes.Eq.__init__(self, left, right)
 
 
-class _FixedNotEq(_FixedBinaryOperator, vtypes.NotEq):
+class _FixedNotEq(_FixedCompareOperator, vtypes.NotEq):
     ast_name = 'NotEq'
 
     def __init__(self, left, right):
-- 
2.43.0


From 4953277c7ef0e45581b20eed54c1d1f8c0d216a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:10 +0000
Subject: [PATCH 115/119] fix: importing a function or a task repeated its
 statements

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 283ba86..7d04461 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -794,7 +794,7 @@ class VerilogReadVisitor(object):
                         t.raw_width = d.raw_width
                         t.raw_dims = d.raw_dims
                     else:
-                        body.append(s)
+                        body.append(d)
             else:
                 body.append(s)
 
@@ -837,7 +837,7 @@ class VerilogReadVisitor(object):
                         t.raw_width = d.raw_width
                         t.raw_dims = d.raw_dims
                     else:
-                        body.append(s)
+                        body.append(d)
             else:
                 body.append(s)
 
-- 
2.43.0


From 26c97483ef3055a19202bafc1b348f13d28ea3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:10 +0000
Subject: [PATCH 116/119] fix: an imported localparam or supply could not refer
 to the parameters of its module symbolically

---
 veriloggen/verilog/from_verilog.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 7d04461..2bac033 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -380,7 +380,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Parameter(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Parameter(value, width, signed, name=name, raw_width=raw_width,
+                                 module=self.m)
         self.add_object(param)
         return param
 
@@ -390,7 +391,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Localparam(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Localparam(value, width, signed, name=name, raw_width=raw_width,
+                                 module=self.m)
         self.add_object(param)
         return param
 
@@ -400,7 +402,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Supply(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Supply(value, width, signed, name=name, raw_width=raw_width,
+                                 module=self.m)
         self.add_object(param)
         return param
 
-- 
2.43.0


From 17751a3ecf3dad00a0e812cb459bb7fc275344fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:10 +0000
Subject: [PATCH 117/119] fix: importing delayed assignments, task calls with
 arguments and initial blocks in generate blocks failed

---
 veriloggen/verilog/from_verilog.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 2bac033..47dccaa 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -228,7 +228,7 @@ class VerilogReadVisitor(object):
             labels = self.visit(node.scope)
 
             if not isinstance(self.m, (module.Module, ReadOnlyModule)):
-                lables.append(vtypes.AnyType(name=node.name))
+                labels.append(vtypes.AnyType(name=node.name))
                 return vtypes.Scope(*labels)
 
             m = self.m
@@ -596,9 +596,9 @@ class VerilogReadVisitor(object):
         left = self.visit(node.left)
         right = self.visit(node.right)
         ldelay = self.visit(
-            node.ldelay.value) if node.ldelay is not None else None
+            node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
-            node.rdelay.value) if node.rdelay is not None else None
+            node.rdelay.delay) if node.rdelay is not None else None
         subst = vtypes.Subst(left, right, ldelay=ldelay, rdelay=rdelay)
         assign = vtypes.Assign(subst)
         self.add_object(assign)
@@ -715,8 +715,15 @@ class VerilogReadVisitor(object):
         return statements
 
     def visit_Initial(self, node):
+        # to avoid to call self.add_object() for the current Module
+        self.push_read_only_module()
+
         statement = to_tuple(self.visit(node.statement))
         initial = vtypes.Initial(*statement)
+
+        # to restore the current Module
+        self.pop_module()
+
         self.add_object(initial)
         return initial
 
@@ -855,7 +862,7 @@ class VerilogReadVisitor(object):
     def visit_TaskCall(self, node):
         name = self.visit(node.name)
         args = tuple([self.visit(arg) for arg in node.args])
-        call = task.TaskCall(name, args)
+        call = task.TaskCall(name, *args)
         return call
 
     def _visit_GenerateFor(self, item):
-- 
2.43.0


From 5c2d84ca8c915841b2a823e4edaf26b00508bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:10 +0000
Subject: [PATCH 118/119] fix: casez, unique case and always_ff/comb/latch were
 silently dropped by the importer

---
 veriloggen/verilog/from_verilog.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 47dccaa..bc10336 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -932,6 +932,21 @@ class VerilogReadVisitor(object):
         args = [self.visit(label) for label in node.labellist]
         return args
 
+    def visit_CasezStatement(self, node):
+        raise TypeError("Casez is not currently supported.")
+
+    def visit_UniqueCaseStatement(self, node):
+        raise TypeError("Unique case is not currently supported.")
+
+    def visit_AlwaysFF(self, node):
+        raise TypeError("always_ff is not currently supported.")
+
+    def visit_AlwaysComb(self, node):
+        raise TypeError("always_comb is not currently supported.")
+
+    def visit_AlwaysLatch(self, node):
+        raise TypeError("always_latch is not currently supported.")
+
     def visit_Pragma(self, node):
         raise TypeError("Pragma is not currently supported.")
 
-- 
2.43.0


From bee0391c935aa77b6aea23e0e3c0c4cd329beb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:54 +0000
Subject: [PATCH 119/119] fix: importing an event control failed

---
 veriloggen/verilog/from_verilog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index bc10336..f88562b 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -728,7 +728,10 @@ class VerilogReadVisitor(object):
         return initial
 
     def visit_EventStatement(self, node):
-        sensitivity = self.visit(node.sens_list)
+        sensitivity = self.visit(node.senslist)
+        if any([isinstance(s, vtypes.SensitiveAll) for s in sensitivity]):
+            # pyverilog reads a null statement as '@(*)'
+            raise TypeError("Null statement and '@(*)' are not currently supported.")
         event = vtypes.Event(*sensitivity)
         return event
 
-- 
2.43.0

