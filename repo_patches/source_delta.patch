From e5a93969ea27861668c27f165c4b7986e78ad666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:21 +0000
Subject: [PATCH 01/60] fix: keep a case's or negated block's only jump where
 it is reachable other than through its header

The only jump of a block was merged into the jumps of the block's header even
if the header jumps over the block (if not), which inverted the condition, and
even if the previous case falls through into it, which skipped the jump.
---
 .../compiler/compile_handlers/abstract.py            | 12 +++++++++---
 .../compile_handlers/blocks/switches/case_block.py   |  7 ++++++-
 .../compile_handlers/blocks/switches/switch_block.py |  8 +++++++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..e545513 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -144,13 +144,16 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self.start_label = None
         self.end_label = None
 
-    def _process_block(self, insert_the_jump_if_needed: bool = True) -> list[SsbOperation]:
+    def _process_block(
+        self, insert_the_jump_if_needed: bool = True, keep_lone_jump: bool = False
+    ) -> list[SsbOperation]:
         """
         This processes the sub-block and returns the generated sub-block opcodes.
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
-            - If the sub-block only has one single label jump, it's removed and the target
-              of the headers is changed to the target of that jump
+            - If the sub-block only has one single label jump and all headers jump into the block (none over it),
+              it's removed and the target of the headers is changed to the target of that jump.
+              If keep_lone_jump is set, the jump itself is kept (control flow may also run into the block from above).
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -171,6 +174,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
 
         if (
             len(self._header_jump_blueprints) > 0
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
@@ -180,6 +184,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
                 assert ops[0].label is not None
                 self.processed_header_jumps.append(hjb.build_for(ops[0].label))
             self.start_label = ops[0].label
+            if keep_lone_jump:
+                return [ops[0], self.end_label]
             return [self.end_label]  # in this case we don't actually have any operations to write
 
         if insert_the_jump_if_needed and (
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
index 238bf32..38b1e16 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
@@ -54,6 +54,11 @@ class CaseBlockCompileHandler(
         self.is_message_case = False
         # The end of the switch
         self._end_label: SsbLabel | None = None
+        # Whether the control flow may run into this block from the case before it
+        self._reached_by_fall_through = False
+
+    def set_reached_by_fall_through(self, value: bool) -> None:
+        self._reached_by_fall_through = value
 
     def set_end_label(self, end_label: SsbLabel) -> None:
         self._end_label = end_label
@@ -69,7 +74,7 @@ class CaseBlockCompileHandler(
             raise SsbCompilerError(_("Invalid message switch case call."))
         # get_header_jump_template must be called first.
         self.compiler_ctx.add_switch_case(self)
-        retval = self._process_block(False)
+        retval = self._process_block(False, keep_lone_jump=self._reached_by_fall_through)
         self.compiler_ctx.remove_switch_case()
         return retval
 
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..cf38e2a 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.def
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.switch_header import (
     SwitchHeaderCompileHandler,
 )
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
@@ -105,13 +105,19 @@ class SwitchBlockCompileHandler(
             default_ops = [self._generate_jump_operation(OP_JUMP, [], end_label)]
         # 3. For each case:
         cases_waiting_for_a_block = []
+        falls_through = False
         for i, h in enumerate(self._case_handlers):
             if not h.has_sub_block_handlers():
                 # 3b. Else: Jump to the block of the next case which has a block.
                 cases_waiting_for_a_block.append(h)
             else:
                 # 3a. If the case has operations: Collect case sub-block ops
+                if isinstance(h, CaseBlockCompileHandler):
+                    h.set_reached_by_fall_through(falls_through)
                 ops = h.collect()
+                if len(ops) > 1:
+                    # The last entry is always the end label of the block
+                    falls_through = not does_op_end_control_flow(ops[-2], ops[-3] if len(ops) > 2 else None)
                 start_label = h.get_start_label()
                 assert start_label is not None
                 if isinstance(h, DefaultCaseBlockCompileHandler):
-- 
2.43.0


From 9ad89c2826fc1db1eb51dd72eba5c95056bc4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:26 +0000
Subject: [PATCH 02/60] fix: do not turn conditional jumps and calls to the end
 of a routine into returns

A branch, case or call to a label at the end of its routine was replaced by an
unconditional Return, a jump was dropped although another label jump leads to
it, and jumps from other routines to such a label were rejected. The routine
now gets a Return at its end if anything but its own plain jumps leads there.
---
 .../compiler_visitor/routine_visitor.py       | 21 ++++-
 .../ssb_converting/compiler/utils.py          | 83 +++++++++++--------
 explorerscript/ssb_converting/ssb_compiler.py |  4 +-
 3 files changed, 71 insertions(+), 37 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..9cb56b2 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -24,6 +24,8 @@ from __future__ import annotations
 
 from typing import cast
 
+from antlr4 import ParserRuleContext
+
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
 from explorerscript.macro import ExplorerScriptMacro
@@ -35,7 +37,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_targe
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
+from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOpCode, SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import OP_DUMMY_END, SsbLabel
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -44,6 +47,8 @@ class RoutineVisitor(ExplorerScriptVisitor):
     # The information about routines stored in the ssb.
     routine_infos: list[SsbRoutineInfo]
     routine_ops: list[list[SsbOperation]]
+    # For routines that end with a label: The operation to place there, if the label needs to stay.
+    routine_end_ops: list[SsbOperation | None]
     named_coroutines: list[str]
     # Source map
     source_map_builder: SourceMapBuilder
@@ -59,6 +64,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
     def __init__(self, performance_progress_list_var_name: str, macros: dict[str, ExplorerScriptMacro]):
         self.routine_infos = []
         self.routine_ops = []
+        self.routine_end_ops = []
         self.named_coroutines = []
         self.source_map_builder: SourceMapBuilder = SourceMapBuilder()
 
@@ -86,6 +92,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
             self._root_handler.collect()
         )
+        self._prepare_routine_end_op(ctx)
 
     def visitCoro_def(self, ctx: ExplorerScriptParser.Coro_defContext) -> None:
         self._root_handler = CoroDefCompileHandler(ctx, self.compiler_ctx)
@@ -98,6 +105,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
             self.routine_infos[self._active_routine_id],
             self.routine_ops[self._active_routine_id],
         ) = self._root_handler.collect()
+        self._prepare_routine_end_op(ctx)
 
     def visitFor_target_def(self, ctx: ExplorerScriptParser.For_target_defContext) -> None:
         self._root_handler = ForTargetDefCompileHandler(ctx, self.compiler_ctx)
@@ -108,6 +116,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
             self._root_handler.collect()
         )
+        self._prepare_routine_end_op(ctx)
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> list[SsbOperation]:
         return []
@@ -121,10 +130,20 @@ class RoutineVisitor(ExplorerScriptVisitor):
         assert isinstance(self._root_handler, ForTargetDefCompileHandler)
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
+    def _prepare_routine_end_op(self, ctx: ParserRuleContext) -> None:
+        ops = self.routine_ops[self._active_routine_id]
+        self.routine_end_ops[self._active_routine_id] = None
+        if len(ops) > 0 and isinstance(ops[-1], SsbLabel):
+            offset = self.compiler_ctx.counter_ops()
+            self.routine_end_ops[self._active_routine_id] = SsbOperation(offset, SsbOpCode(-1, OP_DUMMY_END), [])
+            # The operation is not written out in the source, it's where the routine is closed.
+            self.source_map_builder.add_opcode(offset, ctx.stop.line - 1, ctx.stop.column)
+
     def _enlarge_routine_info(self) -> None:
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
                 self.routine_infos.append(None)  # type: ignore
                 self.routine_ops.append([])
+                self.routine_end_ops.append(None)
                 self.named_coroutines.append([])  # type: ignore
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..c5806cd 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -38,6 +38,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     OPS_THAT_END_CONTROL_FLOW,
     OP_DUMMY_END,
+    OP_JUMP,
     OPS_CTX,
 )
 from explorerscript.util import f, _
@@ -252,48 +253,60 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
-def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
+def strip_last_label(
+    routine_ops: list[list[SsbOperation]], routine_end_ops: list[SsbOperation | None]
+) -> list[list[SsbOperation]]:
     """
     Checks if the last opcode of a routine is a label, and if so
-    removes it. if there are jumps to it, they are removed and replaced with an OP_DUMMY_END.
+    removes it. If there are jumps to it, they are removed and replaced with an OP_DUMMY_END.
+
+    If not only regular jumps in the same routine lead there, they can not be replaced. In this case the routine
+    keeps it's label and gets the OP_DUMMY_END that was prepared for it in routine_end_ops.
     """
     logger.debug("Stripping last label...")
+    # Which routines have jumps to a label, and the labels which other operations than regular jumps lead to.
+    jumps_to: dict[int, list[int]] = {}
+    irreplaceable: set[int] = set()
+    for r_id, routine in enumerate(routine_ops):
+        for op in routine:
+            if isinstance(op, SsbLabelJump) and op.label is not None:
+                jumps_to.setdefault(op.label.id, []).append(r_id)
+                if op.root.op_code.name != OP_JUMP:
+                    irreplaceable.add(op.label.id)
+
     returned_routine_ops = []
-    for routine in routine_ops:
-        if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
-
-            while isinstance(routine[-1], SsbLabel):
-                indices_to_remove = set()
-                label = routine[-1]
-                # Remove the label
-                del routine[-1]
-                # Replace the jumps to it with returns
-                op_before_ends_control_flow = False
-                for op_i, op in enumerate(routine):
-                    if isinstance(op, SsbLabelJump) and op.label == label:
-                        # We only have to insert the OP_DUMMY_END, if the previous op didn't end control flow
-                        if op_before_ends_control_flow:
-                            indices_to_remove.add(op_i)
-                        else:
-                            routine[op_i] = SsbOperation(op.offset, SsbOpCode(-1, OP_DUMMY_END), [])
+    for r_id, routine in enumerate(routine_ops):
+        while len(routine) > 0 and isinstance(routine[-1], SsbLabel):
+            label = routine[-1]
+            if label.id in irreplaceable or any(r != r_id for r in jumps_to.get(label.id, [])):
+                end_op = routine_end_ops[r_id]
+                assert end_op is not None
+                routine = routine + [end_op]
+                break
+            indices_to_remove = set()
+            # Remove the label
+            routine = routine[:-1]
+            # Replace the jumps to it with returns
+            op_before_ends_control_flow = False
+            for op_i, op in enumerate(routine):
+                if isinstance(op, SsbLabelJump) and op.label == label:
+                    # We only have to insert the OP_DUMMY_END, if the previous op didn't end control flow
+                    if op_before_ends_control_flow:
+                        indices_to_remove.add(op_i)
+                    else:
+                        routine[op_i] = SsbOperation(op.offset, SsbOpCode(-1, OP_DUMMY_END), [])
+                        op_before_ends_control_flow = False
+                else:
+                    if isinstance(op, SsbLabel):
+                        # If there is a label before, then something might jump here!
+                        if len(jumps_to.get(op.id, [])) > 0:
                             op_before_ends_control_flow = False
                     else:
-                        if isinstance(op, SsbLabel):
-                            # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
-                                op_before_ends_control_flow = False
-                        else:
-                            op_before_ends_control_flow = does_op_end_control_flow(
-                                op, routine[op_i - 1] if op_i > 0 else None
-                            )
-                routine = [x for i, x in enumerate(routine) if i not in indices_to_remove]
-            returned_routine_ops.append(routine)
-        else:
-            returned_routine_ops.append([])
+                        op_before_ends_control_flow = does_op_end_control_flow(
+                            op, routine[op_i - 1] if op_i > 0 else None
+                        )
+            routine = [x for i, x in enumerate(routine) if i not in indices_to_remove]
+        returned_routine_ops.append(routine)
     return returned_routine_ops
 
 
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..8472d97 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -239,7 +239,9 @@ class ExplorerScriptSsbCompiler:
         assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
 
         # Copy from listener / remove labels and label jumps
-        label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
+        label_finalizer = LabelFinalizer(
+            strip_last_label(compiler_visitor.routine_ops, compiler_visitor.routine_end_ops)
+        )
 
         self.routine_ops = OpsLabelJumpToRemover(label_finalizer.routines, label_finalizer.label_offsets).routines
         self.routine_infos = compiler_visitor.routine_infos
-- 
2.43.0


From b331aebeaed80474951aa9bf2e7f99421ed0979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:29 +0000
Subject: [PATCH 03/60] fix: do not drop a jump over a call whose target is
 right after it

When looking for redundant jumps, a call (or branch) to a label right after it
was skipped as if it was a redundant jump, so the jump over it was removed and
the operation was executed.
---
 explorerscript/ssb_converting/compiler/label_finalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..3146e3e 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -72,10 +72,10 @@ class LabelFinalizer:
         try:
             while isinstance(r[cursor], SsbLabel) or isinstance(r[cursor], SsbLabelJump):
                 if isinstance(r[cursor], SsbLabelJump):
-                    # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
+                    # If this is a regular jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From 5fe9c9e6c4a5cbf3456515937cfac9e61f6491b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:30 +0000
Subject: [PATCH 04/60] fix: compile routines that are not written in the order
 of their ids

def 1 before def 0 failed with an AssertionError, because the op offsets of
routine 0 are then larger than those of routine 1.
---
 explorerscript/ssb_converting/compiler/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index c5806cd..4d9c863 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -243,8 +243,9 @@ def _count_iter_items(iterable: Iterable[Any]) -> int:
 
 
 def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> bool:
-    last_offset = -1
     for routine in routine_ops:
+        # The routines themselves may be written down in any order.
+        last_offset = -1
         for op in routine:
             if op.offset != -1 and op.offset <= last_offset:
                 return False
-- 
2.43.0


From 1090279d23a09291017476e193ffa26e9aad2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 05/60] fix: process macros in an order in which their
 dependencies come first

---
 .../compiler_visitor/macro_resolution_order.py       | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..1143da0 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -51,16 +51,8 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        # A macro can only be processed after all of the macros it depends on.
+        return [self._dependency_graph.vs[i]["name"] for i in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
-- 
2.43.0


From b1ca4eb46930b021af030275945776e538678a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 06/60] fix: reject jump operations that are written without a
 label

---
 .../ssb_converting/compiler/label_jump_to_remover.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
index 84eebff..00ac666 100644
--- a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
+++ b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
@@ -31,7 +31,7 @@ import logging
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET, SsbLabelJump, SsbLabel
 from explorerscript.util import f, _
 
 logger = logging.getLogger(__name__)
@@ -63,5 +63,8 @@ class OpsLabelJumpToRemover:
                 elif isinstance(op, SsbLabel):
                     # Remove
                     pass
+                elif op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                    # Without a label there is nothing this operation could jump to.
+                    raise SsbCompilerError(f(_("The operation {op.op_code.name} needs a label to jump to.")))
                 else:
                     new_rtn_ops.append(op)
-- 
2.43.0


From 70f93ceda66ef473e2dbe1ab3b9526eabf901a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 07/60] fix: make stored source maps compare equal to the
 original after reading them back

---
 explorerscript/source_map.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..2b51421 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if type(self) is not type(other):
+            return False
+        return self.__dict__ == other.__dict__
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
@@ -206,8 +211,9 @@ class MacroSourceMapping(SourceMapping):
 
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
+        called_in = tuple(data_list[4]) if data_list[4] is not None else None
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0], data_list[1], data_list[2], data_list[3], called_in, data_list[5], data_list[6]
         )
 
 
@@ -298,7 +304,12 @@ class SourceMap:
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SourceMap):
             return False
-        return self._mappings == other._mappings and self._position_marks == other._position_marks
+        return (
+            self._mappings == other._mappings
+            and self._position_marks == other._position_marks
+            and self._mappings_macros == other._mappings_macros
+            and self._position_marks_macro == other._position_marks_macro
+        )
 
     def __str__(self) -> str:
         return self.serialize()
-- 
2.43.0


From 4ffa15743a02ea8c74939665795b40c0ba82bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 08/60] fix: rewrite the macro return address 0 as well

---
 explorerscript/source_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 2b51421..8467168 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -357,7 +357,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From 177c858b0e132dca256d7b5d0e030baa00bc470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 09/60] fix: print the positions of operations as jump targets
 in the compile command

---
 explorerscript/cli/compile.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..03ce3ff 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -45,6 +45,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,12 +66,20 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_op_positions(routine_ops: list[list[SsbOperation]]) -> dict[int, int]:
+    """Maps the offsets the compiler assigned to the (1-indexed) position of the operations across all routines."""
+    return {op.offset: i for i, op in enumerate((op for ops in routine_ops for op in ops), start=1)}
+
+
+def build_ops(ops: list[SsbOperation], op_positions: dict[int, int]) -> list[OpDict]:
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
-            if isinstance(param, int):
+        for i, param in enumerate(op.params):
+            if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET and i == len(op.params) - 1:
+                assert isinstance(param, int)
+                out_op["params"].append(op_positions[param])
+            elif isinstance(param, int):
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
                 out_op["params"].append({"type": "FIXED_POINT", "value": param.value})
@@ -93,30 +102,31 @@ def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
 def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
+    op_positions = build_op_positions(routine_ops)
     routines: list[RoutineDict] = []
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
@@ -182,6 +192,9 @@ if __name__ == "__main__":
         "routines": build_routines_json(compiler.routine_infos, compiler.named_coroutines, compiler.routine_ops),
     }
 
+    # The positions of the operations are the offsets in the output.
+    compiler.source_map.rewrite_offsets(build_op_positions(compiler.routine_ops))
+
     if args.source_map is not None:
         with open_utf8(args.source_map, "w") as f:
             f.write(compiler.source_map.serialize())
-- 
2.43.0


From 0f28eacde6fc1f233f1b50129fffdce36e3f43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 10/60] fix: print the target -1 of routines in the compile
 command

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 03ce3ff..42b6e2d 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -113,19 +113,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         else:
-- 
2.43.0


From c2733374437ae25dea918e77b6eb0e2c3ea019a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 11/60] fix: accept coroutines in the decompile command

---
 explorerscript/cli/decompile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..7f840d6 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -143,11 +143,11 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "ACTOR":
@@ -159,7 +159,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "OBJECT":
@@ -171,7 +171,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "PERFORMER":
@@ -183,7 +183,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         else:
-- 
2.43.0


From d9ea1041ee3a8cc56a3ea681f4c8ee67bee3f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 12/60] fix: accept numbers as coordinates of position marks in
 the decompile command

---
 explorerscript/cli/decompile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 7f840d6..44ff243 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -81,7 +81,8 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
+def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
+    arg_str = str(arg)
     arg_str_arr = arg_str.split(".")
     if len(arg_str_arr) < 2:
         return exps_int(arg_str), 0
-- 
2.43.0


From 934ec51ca6ca884fc913a7ed658a9ddfde831929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 13/60] fix: accept constant arguments as targets of routines
 in the decompile command

---
 explorerscript/cli/decompile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 44ff243..2598251 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -78,7 +78,7 @@ class RoutineDict(TypedDict):
     type: str
     ops: list[OpDict]
     name: NotRequired[str]
-    target_id: NotRequired[str]
+    target_id: NotRequired[int | str | ParamDict]
 
 
 def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
@@ -158,6 +158,8 @@ def read_routines(
             linked_to_name = None
             if isinstance(r["target_id"], int):
                 linked_to = r["target_id"]
+            elif isinstance(r["target_id"], dict):
+                linked_to_name = str(r["target_id"]["value"])
             else:
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
@@ -170,6 +172,8 @@ def read_routines(
             linked_to_name = None
             if isinstance(r["target_id"], int):
                 linked_to = r["target_id"]
+            elif isinstance(r["target_id"], dict):
+                linked_to_name = str(r["target_id"]["value"])
             else:
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
@@ -182,6 +186,8 @@ def read_routines(
             linked_to_name = None
             if isinstance(r["target_id"], int):
                 linked_to = r["target_id"]
+            elif isinstance(r["target_id"], dict):
+                linked_to_name = str(r["target_id"]["value"])
             else:
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
-- 
2.43.0


From 77f7a940da79da5594b2679dcd7db848941e401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 14/60] fix: allow to specify --lookup multiple times

---
 explorerscript/cli/compile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 42b6e2d..3a3f326 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", action="extend", metavar="PATH", help="Lookup paths.")
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From b82411e70d0667409538da66075deb34c8090f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 15/60] fix: print dungeon modes outside of 0 to 3 as they are

---
 explorerscript/ssb_converting/ssb_data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..d6f318d 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -419,14 +419,17 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: SsbOpParam) -> str:
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        if idx == 0:
+            return self.close_constant
+        # Not one of the known modes
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From 9046ba2312390ea5018847e9bbc281029016ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 16/60] fix: find the routine of a jump to the last operation
 of another routine

---
 .../ssb_converting/decompiler/label_jump_to_resolver.py         | 2 +-
 explorerscript/ssb_converting/ssb_special_ops.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
index 732e081..7dc353d 100644
--- a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
+++ b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
@@ -75,7 +75,7 @@ class OpsLabelJumpToResolver:
 
     def _build_end_offsets(self, routines: Sequence[Sequence[SsbOperation]]) -> list[int]:
         offsets = []
-        prev_offset = 0
+        prev_offset = -1
         for routine in routines:
             if len(routine) > 0:
                 last_op = routine[-1]
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..3e0fedf 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From 91b2380dc47a19668da010c195e77f1ce0dfae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 17/60] fix: search for the common end of branches beyond their
 first operation

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..889ff67 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -173,10 +173,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 121871f9c145566bb80edda5c4d98c260b3da6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 18/60] fix: keep the entry points of routines when decompiling

---
 .../graph_building/graph_minimizer.py         | 29 ++++++++++++-------
 .../decompiler/write_handlers/routine.py      |  9 ++++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..2556b5a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -112,7 +112,11 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        if isinstance(iv["op"], SsbLabel):
+                        if (
+                            isinstance(iv["op"], SsbLabel)
+                            and iv.index != 0
+                            and not iv["op"].referenced_from_other_routine
+                        ):
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -698,6 +702,9 @@ class SsbGraphMinimizer:
                 ):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v.index == 0:
+                        # This is where the routine starts.
+                        continue
                     if len(in_edges) != 0:
                         assert len(in_edges) == 1 and len(out_edges) == 1
                         v_before = in_edges[0].source_vertex
@@ -710,7 +717,7 @@ class SsbGraphMinimizer:
                             continue
                         if (
                             isinstance(v_after["op"], SsbForeignLabel)
-                            or v_after["op"].id == 0
+                            or v_after.index == 0
                             or out_edges[0]["loop"]
                             or (isinstance(v_after["op"], SsbLabel) and len(v_after["op"].markers) > 0)
                         ):
@@ -729,21 +736,17 @@ class SsbGraphMinimizer:
                 if isinstance(v["op"], SsbLabel):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v["op"].referenced_from_other_routine and len(out_edges) > 0:
+                        continue
                     if len(in_edges) == 0:
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
                         assert len(out_edges) == 1
                         if (
-                            v["op"].id == 0
+                            v.index == 0
                             or in_edges[0]["loop"]
-                            or (
-                                isinstance(v["op"], SsbLabel)
-                                and (
-                                    v["op"].force_write
-                                    or v["op"].referenced_from_other_routine
-                                    or len(v["op"].markers) > 0
-                                )
-                            )
+                            or v["op"].force_write
+                            or len(v["op"].markers) > 0
                         ):
                             # The label is a special label, loops, or is the first operation, we really
                             # shouldn't remove it
@@ -761,6 +764,10 @@ class SsbGraphMinimizer:
         """
         already_visited: set[int] = set()
         self._get_edges__add_edge(g, rtn, rtn_id, label_indices, 0, already_visited)
+        # Other routines may also enter this one at labels that are not reachable from it's beginning.
+        for i, op in enumerate(rtn):
+            if isinstance(op, SsbLabel) and op.referenced_from_other_routine:
+                self._get_edges__add_edge(g, rtn, rtn_id, label_indices, i, already_visited)
         return
         # TODO: below is for debugging.
 
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
index a5d028e..6d4fdca 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
@@ -30,6 +30,7 @@ from igraph import Graph
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel
 from explorerscript.ssb_converting.util import Blk
 
 if TYPE_CHECKING:
@@ -57,6 +58,14 @@ class RoutineWriteHandler(AbstractWriteHandler):
                 self.decompiler.write_stmnt("alias previous;")
             else:
                 BlockWriteHandler(self.start_vertex, self.decompiler, self.parent, None).write_content()
+                # Write what is only reachable from other routines
+                for v in self.r_graph.vs:
+                    if (
+                        isinstance(v["op"], SsbLabel)
+                        and v["op"].referenced_from_other_routine
+                        and v["op"].id not in self.decompiler.labels_already_printed
+                    ):
+                        BlockWriteHandler(v, self.decompiler, self.parent, None).write_content()
         self.decompiler.write_line()
 
     def _write_routine_header(self) -> None:
-- 
2.43.0


From 32032b7e235ac7c1a242742bc971dedb717b8f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 19/60] fix: continue after an if without an else when its
 branch doesn't reach the end

---
 .../decompiler/write_handlers/label_jumps/if_start.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..4e2e866 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -77,10 +77,12 @@ class IfWriteHandler(AbstractWriteHandler):
                 v_after_if_branch = if_branch_handler.write_content()
             else_ends_on_common_vtx = True
             v_after_else_branch = None
-            if not (
-                isinstance(else_edge.target_vertex["op"], SsbLabel)
-                and any(isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers)
+            if isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
+                isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
             ):
+                # There is no else-branch, the end of the if is what comes next, even if the if-branch doesn't reach it.
+                v_after_else_branch = else_edge.target_vertex
+            else:
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
                 else_edge = self._build_else_if_chain(else_edge)
-- 
2.43.0


From 3adb8f7e3489142469a15ef4fb56276a6834466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 20/60] fix: check reachability without a vertex from the right
 start vertex

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 889ff67..3c1ac6a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -577,8 +577,10 @@ def is_reachable_when_removing(g: Graph, check_id: int, start_id: int, remove_id
 
     if check_id > remove_id:
         check_id -= 1
+    if start_id == remove_id:
+        return False
     if start_id > remove_id:
-        remove_id -= 1
+        start_id -= 1
 
     # Simulate the removal on the copy
     g_copy.delete_vertices(remove_id)
-- 
2.43.0


From 5f16e23461d2a2411d01ff75696283c74b99eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 21/60] fix: fall back to SsbScript on every failure of the
 decompiler

---
 explorerscript/ssb_converting/ssb_decompiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..566a60c 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -152,8 +152,8 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
+        except Exception:
+            # If anything failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
-- 
2.43.0


From 30e56d80cfe826dcfc8b8f5470055a082f8ea901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 22/60] fix: continue with the operation after a call when
 decompiling

---
 .../decompiler/write_handlers/label_jumps/call.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..ab51fcf 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -52,4 +52,5 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
-        return exits[0].target_vertex
+        # After the call, execution continues with the next opcode and not with the one that is called.
+        return min(exits, key=lambda e: e["flow_level"]).target_vertex  # type: ignore
-- 
2.43.0


From e5173356c580df758b87f108268159da5d5ab835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 23/60] fix: write continue and break_loop only inside of the
 loop they belong to

---
 .../write_handlers/label_jumps/forever_break.py      | 12 ++++++------
 .../write_handlers/label_jumps/forever_continue.py   |  2 +-
 explorerscript/ssb_converting/ssb_decompiler.py      |  7 +++++++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..5d019ca 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -46,16 +46,16 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
+        if not self.decompiler.is_in_loop(self.start_vertex["op"].get_marker()):
+            # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
+            # raises some "false positives" and builds loops that have break statements reachable from outside
+            # the loop
+            logger.warning("While decompiling, tried to generate break_loop; outside loop!")
+            raise FallbackToJump()
         self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
-            if len(self.decompiler.forever_start_handler_stack) < 1:
-                # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
-                # raises some "false positives" and builds loops that have break statements reachable from outside
-                # the loop
-                logger.warning("While decompiling, tried to generate break_loop; outside loop!")
-                raise FallbackToJump()
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..f863fff 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -46,7 +46,7 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a continue (if not implicit) and end"""
         logger.debug("Handling a continue; (%s)...", self.start_vertex["op"])
-        if len(self.decompiler.forever_start_handler_stack) < 1:
+        if not self.decompiler.is_in_loop(self.start_vertex["op"].get_marker()):
             # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
             # raises some "false positives" and builds loops that have break statements reachable from outside
             # the loop
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 566a60c..bd5a38f 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -218,6 +218,13 @@ class ExplorerScriptSsbDecompiler:
             # Jump as part of a control structure
             self.write_stmnt(f"jump @label_{label_id};")
 
+    def is_in_loop(self, marker: ForeverContinue | ForeverBreak) -> bool:
+        """Whether the innermost loop that is currently being written is the one the marker belongs to."""
+        if len(self.forever_start_handler_stack) < 1:
+            return False
+        m = self.forever_start_handler_stack[-1].m
+        return m is not None and m.loop_id == marker.loop_id
+
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
         assert self.smb is not None
-- 
2.43.0


From be33214f60a22a4c77ee8066bebdc778bbd83532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 24/60] fix: write the labels calls refer to and continue
 correctly after calls

---
 .../decompiler/graph_building/graph_minimizer.py             | 2 ++
 .../decompiler/write_handlers/label_jumps/call.py            | 5 +++++
 .../ssb_converting/decompiler/write_handlers/routine.py      | 4 ++--
 explorerscript/ssb_converting/ssb_special_ops.py             | 4 ++++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 2556b5a..27b9ea6 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -116,6 +116,7 @@ class SsbGraphMinimizer:
                             isinstance(iv["op"], SsbLabel)
                             and iv.index != 0
                             and not iv["op"].referenced_from_other_routine
+                            and not iv["op"].is_called
                         ):
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
@@ -744,6 +745,7 @@ class SsbGraphMinimizer:
                         assert len(out_edges) == 1
                         if (
                             v.index == 0
+                            or v["op"].is_called
                             or in_edges[0]["loop"]
                             or v["op"].force_write
                             or len(v["op"].markers) > 0
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index ab51fcf..a47c2c0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -52,5 +52,10 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
+        if len(exits) == 1:
+            # The call is the last opcode of the routine, there is nothing to continue with.
+            self.decompiler.write_return()
+            return None
+
         # After the call, execution continues with the next opcode and not with the one that is called.
         return min(exits, key=lambda e: e["flow_level"]).target_vertex  # type: ignore
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
index 6d4fdca..fc97530 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
@@ -58,11 +58,11 @@ class RoutineWriteHandler(AbstractWriteHandler):
                 self.decompiler.write_stmnt("alias previous;")
             else:
                 BlockWriteHandler(self.start_vertex, self.decompiler, self.parent, None).write_content()
-                # Write what is only reachable from other routines
+                # Write what is only reachable from other routines or by calls
                 for v in self.r_graph.vs:
                     if (
                         isinstance(v["op"], SsbLabel)
-                        and v["op"].referenced_from_other_routine
+                        and (v["op"].referenced_from_other_routine or v["op"].is_called)
                         and v["op"].id not in self.decompiler.labels_already_printed
                     ):
                         BlockWriteHandler(v, self.decompiler, self.parent, None).write_content()
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 3e0fedf..1e3b232 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -335,6 +335,8 @@ class SsbLabel(SsbOperation):
     routine_id: int
     # Whether or not this label is referenced from another routine
     referenced_from_other_routine: bool
+    # Whether or not there is a call to this label (calls always name their label, so it must be kept and written)
+    is_called: bool
     # Markers for this label (type of label)
     markers: list[LabelMarker]
     debugging_note: str | None
@@ -348,6 +350,7 @@ class SsbLabel(SsbOperation):
         self.id = id
         self.routine_id = routine_id
         self.referenced_from_other_routine = False
+        self.is_called = False
         self.markers: list[LabelMarker] = []
         self.debugging_note = debugging_note
         self.original_name = original_name
@@ -529,5 +532,6 @@ def process_op_for_jump(
         jmp = SsbLabelJump(SsbOperation(op.offset, op.op_code, new_params), label)
         if op.op_code.name == OP_CALL:
             jmp.markers.append(CallJump())
+            label.is_called = True
         return jmp
     return op
-- 
2.43.0


From 6cd04c900e9e3580bc27eb73d603ef1a335cc8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 25/60] fix: keep a label at the start of a routine that is not
 jumped to

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 27b9ea6..a89de9a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -740,6 +740,9 @@ class SsbGraphMinimizer:
                     if v["op"].referenced_from_other_routine and len(out_edges) > 0:
                         continue
                     if len(in_edges) == 0:
+                        if v.index == 0 and len(out_edges) > 0:
+                            # This is where the routine starts.
+                            continue
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
                         assert len(out_edges) == 1
-- 
2.43.0


From 8b20e83d10b057d9546d5a1ae02a9b140d432b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 26/60] fix: do not build loops whose end is inside of the loop

---
 .../decompiler/graph_building/graph_minimizer.py   |  7 +++++++
 .../decompiler/graph_building/graph_utils.py       | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index a89de9a..1ab5950 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -39,6 +39,7 @@ from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import
     has_unclosed_blocks,
     is_loop,
     is_reachable_when_removing,
+    is_reachable_without_edges,
     iterate_switch_edges,
     reverse_find_edge,
 )
@@ -552,6 +553,12 @@ class SsbGraphMinimizer:
                                     # reachable from outside the loop!
                                     can_build = False
                                     break
+                            if any(
+                                is_reachable_without_edges(g, v, loop_edge.target_vertex, break_points)
+                                for loop_edge in break_points
+                            ):
+                                # The point that would be after the loop is inside of it.
+                                can_build = False
                         if can_build:
                             assert break_points is not None and continue_points is not None
                             loop_id += 1
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3c1ac6a..bd8a130 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -590,3 +590,17 @@ def is_reachable_when_removing(g: Graph, check_id: int, start_id: int, remove_id
 
     p = g_copy.get_shortest_paths(start, check)
     return len(p[0]) > 0
+
+
+def is_reachable_without_edges(g: Graph, start: Vertex, check: Vertex, edges: list[Edge]) -> bool:
+    """Checks if check is reachable from start without using any of the edges"""
+    not_to_use = {e.index for e in edges}
+    visited = {start.index}
+    to_visit = [start.index]
+    while len(to_visit) > 0:
+        for e_id in g.incident(to_visit.pop(), OUT):
+            target = g.es[e_id].target
+            if e_id not in not_to_use and target not in visited:
+                visited.add(target)
+                to_visit.append(target)
+    return check.index in visited
-- 
2.43.0


From 05e5d79cdbbdcae4287f95e1b2e50d81f04ee85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 27/60] fix: fall back to SsbScript if a case is reached other
 than through its switch

---
 .../decompiler/graph_building/graph_minimizer.py         | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 1ab5950..a2c5b22 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -431,6 +431,15 @@ class SsbGraphMinimizer:
 
             g.delete_vertices(vs_to_delete)
 
+            for v in g.vs:
+                if (
+                    isinstance(v["op"], SsbLabelJump)
+                    and v["op"].maybe_root is not None
+                    and any(v["op"].root.op_code.name in cases for cases in OPS_SWITCH_CASE_MAP.values())
+                    and (v.index == 0 or len(v.in_edges()) > 0)
+                ):
+                    raise ValueError(f"{v['op'].root} can be reached without going through the header of a switch.")
+
     def group_switch_cases(self) -> None:
         """Group cases of a switch or multi switch that jump to the same point"""
         logger.debug("Grouping switches...")
-- 
2.43.0


From c31ef4dd5054d01d96db9c8a7d7ceb22b0d84ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 28/60] fix: continue after an if at the end that its elseif
 branches reach

---
 .../write_handlers/label_jumps/if_start.py          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 4e2e866..77fe964 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -49,6 +49,8 @@ class IfWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.ended_on_jump = True
+        # What comes after the else-ifs, if at least one of them doesn't end otherwise.
+        self._v_after_else_ifs: Vertex | None = None
 
     def write_content(self) -> Vertex | None:
         op: SsbLabelJump = self.start_vertex["op"]
@@ -111,9 +113,11 @@ class IfWriteHandler(AbstractWriteHandler):
                 or v_after_if_branch == v_after_else_branch
             ), f"Invalid if-structure for if {m.if_id}"
 
-            if v_after_if_branch is None:
+            if v_after_if_branch is not None:
+                return v_after_if_branch
+            if v_after_else_branch is not None:
                 return v_after_else_branch
-            return v_after_if_branch
+            return self._v_after_else_ifs
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
@@ -201,13 +205,15 @@ class IfWriteHandler(AbstractWriteHandler):
 
                 with Blk(self.decompiler):
                     # Handle elseif-branch
-                    BlockWriteHandler(
+                    v_after_else_if = BlockWriteHandler(
                         if_edge.target_vertex,
                         self.decompiler,
                         self,
                         self.start_vertex,
                         check_end_block=self.check_end_block,
                     ).write_content()
+                    if v_after_else_if is not None:
+                        self._v_after_else_ifs = v_after_else_if
                 next_vertex_ends = isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
                     isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
                 )
@@ -223,6 +229,7 @@ class IfWriteHandler(AbstractWriteHandler):
                     if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
                         return else_edge
                     else:
+                        self._v_after_else_ifs = else_edge.target_vertex
                         return None
                 else:
                     return None
-- 
2.43.0


From f5fbdad96407bc42594bf84462ebd0732c37d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 29/60] fix: search for the common end of branches without
 results of earlier searches

---
 .../graph_building/graph_minimizer.py         |  8 -----
 .../decompiler/graph_building/graph_utils.py  | 32 +++++++------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index a2c5b22..927eb85 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -31,7 +31,6 @@ from igraph import IN, Edge, OUT, Vertex, Graph
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     any_incoming_edge_is_loop,
     find_first_common_next_vertex_in_edges,
-    find_first_common_next_vertex_in_edges__clear_cache,
     find_first_label_vertex_with_marker_that_matches_condition,
     find_lowest_and_highest_out_edge,
     get_all_vertices_between,
@@ -176,7 +175,6 @@ class SsbGraphMinimizer:
                     self._update_edge_style(else_edge)
 
                     # Common end label
-                    find_first_common_next_vertex_in_edges__clear_cache(g)  # TODO: Cache seems to be broken atm.
                     result = find_first_common_next_vertex_in_edges(g, [if_edge, else_edge])
                     if result is not None:
                         e_on_if_bef_end, e_on_else_bef_end = result
@@ -413,7 +411,6 @@ class SsbGraphMinimizer:
                                 # because of an unfinished inner branch.
                                 # TODO: This could lead to real problems...
                                 logger.warning("Switch-Branches ended via the same edge...")
-                                find_first_common_next_vertex_in_edges__clear_cache(g)
                                 continue
                             already_updated_switch_end_in_edges.append(e)
                             # Remove the jumps before the common end label (if they exist), we don't need them anymore.
@@ -427,7 +424,6 @@ class SsbGraphMinimizer:
                                 es_to_delete.append(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
-                    find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
 
@@ -471,8 +467,6 @@ class SsbGraphMinimizer:
                         self._update_edge_style(first_e)
 
             g.delete_edges(es_to_delete)
-            if len(es_to_delete) > 0:
-                find_first_common_next_vertex_in_edges__clear_cache(g)
 
     def build_switch_fallthroughs(self) -> None:
         """
@@ -538,7 +532,6 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
@@ -707,7 +700,6 @@ class SsbGraphMinimizer:
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             vs_to_delete = set()
             # First, let's delete all redundant jumps (actual OP_JUMPs that jump to opcodes with only one in edge)
             for v in g.vs:
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index bd8a130..892f9d8 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -27,7 +27,6 @@ import itertools
 import logging
 import operator
 from collections import Counter
-from threading import Lock
 from typing import Callable, Generator, cast, Sequence
 
 from igraph import Edge, OUT, Vertex, Graph
@@ -55,15 +54,6 @@ def find_lowest_and_highest_out_edge(g: Graph, vertex: Vertex, attr: str) -> tup
     return min(edges, key=lambda k: k[attr]), max(edges, key=lambda k: k[attr])
 
 
-cache_lock = Lock()
-find_first_common_next_vertex_in_edges_cache: dict[int, dict[str, list[Edge] | None]] = {}
-
-
-def find_first_common_next_vertex_in_edges__clear_cache(g: Graph) -> None:
-    with cache_lock:
-        find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-
-
 def find_first_common_next_vertex_in_edges(
     g: Graph,
     es: Sequence[Edge] | set[Edge],
@@ -71,6 +61,7 @@ def find_first_common_next_vertex_in_edges(
     allow_loops: bool = False,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     Finds the first vertex (actually list of edges that lead to it for each edge in es)
@@ -94,21 +85,21 @@ def find_first_common_next_vertex_in_edges(
         Those edges are not visited, aborting the branch.
 
     If no common vertex is found, returns None.
+
+    The cache holds what was found for the edges of the branches on the way; it's only valid for one search, since the
+    edges of the graph are changed afterwards.
     """
     # TODO: Performance with (not allow_open_branches).
+    if cache is None:
+        cache = {}
     es_ids = ",".join(sorted([str(e.index) for e in es]))
-    with cache_lock:
-        if id(g) not in find_first_common_next_vertex_in_edges_cache:
-            find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-        if es_ids in find_first_common_next_vertex_in_edges_cache[id(g)]:
-            return find_first_common_next_vertex_in_edges_cache[id(g)][es_ids]
+    if es_ids in cache:
+        return cache[es_ids]
     assert len(es) > 1
     result = _find_first_common_next_vertex_in_edges__impl(
-        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
+        g, [{e} for e in es], [], allow_open_branches, allow_loops, cache, vs_to_not_visit, allow_loop_edges
     )
-    with cache_lock:
-        # cache may have been cleared in the meantime
-        find_first_common_next_vertex_in_edges_cache[id(g)][es_ids] = result
+    cache[es_ids] = result
     return result
 
 
@@ -118,6 +109,7 @@ def _find_first_common_next_vertex_in_edges__impl(
     map_of_visited: list[dict[int, int]],
     allow_open_branches: bool,
     allow_loops: bool,
+    cache: dict[str, list[Edge] | None],
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
 ) -> None | list[Edge]:
@@ -190,7 +182,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Recursively find the next new common vertex
                         list_of_visited_vs_on_branch = vs_to_not_visit + list(map_of_visited[i].keys())
                         new_common_vertex_edges = find_first_common_next_vertex_in_edges(
-                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch
+                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch, cache=cache
                         )
                         if new_common_vertex_edges is None:
                             new_es_entry.add(None)
-- 
2.43.0


From 4b4d3f563c1e7cfdfcecadf77b6deaeae85605a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 30/60] fix: write break for further cases of a switch without
 content

---
 .../write_handlers/label_jumps/switch_start.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..357db46 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -37,7 +37,9 @@ from explorerscript.ssb_converting.decompiler.write_handlers.label import LabelW
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_data_types import SsbOperator
 from explorerscript.ssb_converting.ssb_special_ops import (
+    SsbLabel,
     SsbLabelJump,
+    SwitchEnd,
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
     OP_SWITCH_DUNGEON_MODE,
@@ -97,8 +99,16 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         self.decompiler.write_stmnt("default:")
                     with Blk(self.decompiler, False):
                         logger.debug("... NOW block for cases.")
+                        if e in already_printed_edges and self._is_end_of_switch(e.target_vertex, m):
+                            # There's nothing in this branch
+                            self.decompiler.write_stmnt("break;")
+                            continue
                         # If this will be visited multiple times, we need a label
-                        if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
+                        if (
+                            e in edges_that_will_be_visited_multiple_times
+                            and e not in already_printed_edges
+                            and not self._is_end_of_switch(e.target_vertex, m)
+                        ):
                             self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
                         if e in already_printed_edges:
                             # Write the label jump instead
@@ -133,6 +143,12 @@ class SwitchWriteHandler(AbstractWriteHandler):
 
             return None
 
+    @staticmethod
+    def _is_end_of_switch(v: Vertex, m: SwitchStart) -> bool:
+        return isinstance(v["op"], SsbLabel) and any(
+            isinstance(mx, SwitchEnd) and mx.switch_id == m.switch_id for mx in v["op"].markers
+        )
+
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
         A switch should end either if there are no vertices left (duh!) or if the end-switch label is reached.
-- 
2.43.0


From 751bf8bd923347f3fadeb837b027ee33827e3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 31/60] fix: write message switches without cases

---
 .../write_handlers/simple_ops/message_switches.py        | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 3746493..2ce8a6a 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -47,14 +47,12 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     """Handles writing message_SwitchMonologue and message_SwitchTalk."""
 
     op_name: str | None
-    have_written_at_least_one_child: bool
 
     def __init__(
         self, start_vertex: Vertex, decompiler: ExplorerScriptSsbDecompiler, parent: AbstractWriteHandler | None
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
-        self.have_written_at_least_one_child = False
 
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
@@ -94,9 +92,4 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         next_op: SsbOperation = next_handler.start_vertex["op"]
         assert self.op_name is not None
-        if next_op.op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
-            if not self.have_written_at_least_one_child:
-                raise ValueError("A message_Switch* must have at least one case or default.")
-            return False
-        self.have_written_at_least_one_child = True
-        return True
+        return next_op.op_code.name in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]
-- 
2.43.0


From cdbda99446b590f60ae9b931b8fe4cd90dccd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 32/60] fix: print strings so that they are read again as the
 same string

---
 .../ssb_converting/compiler/utils.py          |  8 +--
 .../ssb_converting/ssb_data_types.py          | 60 +++++++++++++------
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 4d9c863..2f18f9b 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import itertools
 import logging
+import re
 from collections import deque
 from typing import TYPE_CHECKING, MutableSequence, Iterable, Any
 
@@ -32,7 +33,7 @@ from antlr4 import ParserRuleContext
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.error import SsbCompilerError
 from explorerscript.source_map import SourceMapBuilder
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode, unescape_string
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
     SsbLabelJump,
@@ -198,13 +199,12 @@ def string_literal(string: ExplorerScriptParser.String_valueContext) -> str:
 
 
 def singleline_string_literal(string: str) -> str:
-    # This isn't the greatest escaping but it works for most cases. Changing it now would be backwards incompatible.
-    return str(string)[1:-1].replace('\\"', '"').replace("\\'", "'").replace("\\n", "\n")
+    return unescape_string(str(string)[1:-1])
 
 
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
-    all_lines = string.splitlines()
+    all_lines = re.split("\r?\n", string)
     lines: list[str] = []
     last_line = ""
 
diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6f318d..0a7be7c 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -24,6 +24,7 @@
 #
 from __future__ import annotations
 
+import re
 import string
 from enum import Enum
 from typing import Union, MutableSequence
@@ -41,27 +42,48 @@ def escape_newlines(string: str) -> str:
 
 def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False) -> str:
     if prefer_single_qoute:
-        preferred_quote = "'"
-        preferred_multiline_quote = "'''"
-        secondary_multiline_quote = '"""'
+        quotes = ("'", '"')
     else:
-        preferred_quote = '"'
-        preferred_multiline_quote = '"""'
-        secondary_multiline_quote = "'''"
-
-    if "\n" not in string:
-        # Single line string
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
-
-
-def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
+        quotes = ('"', "'")
+
+    single_line = [x for x in (_repr_single_line_string(string, quote) for quote in quotes) if x is not None]
+    multi_line = [x for x in (_repr_multiline_string(string, indent, quote * 3) for quote in quotes) if x is not None]
+    if "\n" in string:
+        candidates = multi_line + single_line
+    else:
+        candidates = single_line + multi_line
+    if len(candidates) > 0:
+        return candidates[0]
+    # uh oh... None of the string literals can represent this string. This is the closest.
+    return f"{quotes[0]}{escape_newlines(escape_quotes(string, which_quotes=quotes[0]))}{quotes[0]}"
+
+
+def unescape_string(string: str) -> str:
+    """Returns the string that the text between the quotes of a single line string literal represents."""
+    # This isn't the greatest escaping but it works for most cases. Changing it now would be backwards incompatible.
+    return string.replace('\\"', '"').replace("\\'", "'").replace("\\n", "\n")
+
+
+def _repr_single_line_string(string: str, quote: str) -> str | None:
+    """Returns None, if this string can not be represented by a single line string literal."""
+    text = escape_newlines(escape_quotes(string, which_quotes=quote))
+    # See STRING_LITERAL in SsbCommon.g4. There is no escape sequence for the backslash itself.
+    if unescape_string(text) != string or not re.fullmatch(rf"(\\.|[^\\\r\n\f{quote}])*", text, re.DOTALL):
+        return None
+    return f"{quote}{text}{quote}"
+
+
+def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str | None:
+    """Returns None, if this string can not be represented by a multi line string literal."""
+    if delimiter in string or "\r\n" in string:
+        return None
     lines = string.split("\n")
+    if len(lines) == 1:
+        # The first line of a multi line string is kept as it is.
+        return None if string.endswith(delimiter[0]) else f"{delimiter}{string}{delimiter}"
+    if all(line.startswith(" ") for line in lines):
+        # The indentation, that all lines have in common, is not part of a multi line string.
+        return None
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
     output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
     return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
-- 
2.43.0


From ca40fb894f3425fcb8f7f80edf3ffacff59b2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 33/60] fix: only accept .5 as the decimal places of position
 marks and accept -.5

---
 explorerscript/common_syntax.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..409c6ab 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -39,18 +39,16 @@ def parse_position_marker_arg(
         decimal_parts = str(ctx.DECIMAL()).split(".")
 
         if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            dec_part = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
         elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            pos = int(decimal_parts[0] if decimal_parts[0] not in ("", "-") else "0")
+            dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
         else:
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
 
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From e6d17abfc68a1d501b3a34cbe16927a16d8ca25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 34/60] fix: escape the names of position marks

---
 explorerscript/ssb_converting/ssb_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 0a7be7c..d98adc8 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -328,7 +328,9 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        # The name must be a single line string literal.
+        name = _repr_single_line_string(self.name, "'") or _repr_single_line_string(self.name, '"') or f"'{self.name}'"
+        return f"Position<{name}, {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From dc69e4f48ebdbd821a53f9511c9030dfb35c1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 35/60] fix: print carriage returns at the end of lines of
 strings

---
 explorerscript/ssb_converting/ssb_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d98adc8..dd0161e 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -75,7 +75,7 @@ def _repr_single_line_string(string: str, quote: str) -> str | None:
 
 def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str | None:
     """Returns None, if this string can not be represented by a multi line string literal."""
-    if delimiter in string or "\r\n" in string:
+    if delimiter in string:
         return None
     lines = string.split("\n")
     if len(lines) == 1:
@@ -85,6 +85,8 @@ def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str | No
         # The indentation, that all lines have in common, is not part of a multi line string.
         return None
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
+    # A carriage return before the line break is read as a part of the line break.
+    lines = [f"{line}\r" if line.endswith("\r") else line for line in lines]
     output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
     return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
 
-- 
2.43.0


From bc78ee8d99d3797efc465cad7cfe60c7f13628b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:00 +0000
Subject: [PATCH 36/60] fix: print a quote after a backslash in single line
 strings

---
 explorerscript/ssb_converting/ssb_data_types.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index dd0161e..599b35f 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -66,11 +66,13 @@ def unescape_string(string: str) -> str:
 
 def _repr_single_line_string(string: str, quote: str) -> str | None:
     """Returns None, if this string can not be represented by a single line string literal."""
-    text = escape_newlines(escape_quotes(string, which_quotes=quote))
-    # See STRING_LITERAL in SsbCommon.g4. There is no escape sequence for the backslash itself.
-    if unescape_string(text) != string or not re.fullmatch(rf"(\\.|[^\\\r\n\f{quote}])*", text, re.DOTALL):
-        return None
-    return f"{quote}{text}{quote}"
+    # The other quotes only need to be escaped after a backslash.
+    for text in (escape_quotes(string, which_quotes=quote), escape_quotes(string)):
+        text = escape_newlines(text)
+        # See STRING_LITERAL in SsbCommon.g4. There is no escape sequence for the backslash itself.
+        if unescape_string(text) == string and re.fullmatch(rf"(\\.|[^\\\r\n\f{quote}])*", text, re.DOTALL):
+            return f"{quote}{text}{quote}"
+    return None
 
 
 def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str | None:
-- 
2.43.0


From fb84216d6f0792bb80ce8f3387b5ae427843687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 37/60] fix: read the attributes of files that only consist of
 attributes

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..c9b359a 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -35,10 +35,8 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     attributes = {}
     attribute_reader_line = 0
     lines = explorerscript_src.splitlines()
-    if len(lines) < 1:
-        return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From 3f5efea5c06dddd009417a2495b4c78826bc0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 38/60] fix: reject routines in imported files

---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 8472d97..7968467 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -165,7 +165,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,7 +214,7 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
+            if HasRoutinesVisitor().visit(tree):
                 # noinspection PyUnusedLocal
                 fn = os.path.basename(file_name)  # noqa
                 raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
-- 
2.43.0


From cc1db06422e7ad989e7c193aefd82295e7375166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 39/60] fix: check for cycles between macros without listing
 all paths

---
 .../compiler/compiler_visitor/macro_resolution_order.py        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index 1143da0..3798939 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -93,5 +93,4 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
                 )
 
     def _has_path(self, a: Vertex | int, b: Vertex) -> bool:
-        # TODO: can be done more efficiently
-        return len(b.graph.get_all_simple_paths(a, b)) > 0
+        return b.index in b.graph.subcomponent(a, mode="out")
-- 
2.43.0


From b9a6bdefb2def8b8c74703cb777c34723d9f2f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 40/60] fix: report jumps that have no target parameter

---
 explorerscript/ssb_converting/ssb_special_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 1e3b232..270604a 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -499,7 +499,7 @@ def process_op_for_jump(
             )
             param_list = list(op.params.values())
         jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET[op.op_code.name]
-        if len(param_list) < jump_param_idx:
+        if len(param_list) <= jump_param_idx:
             raise ValueError(
                 f"The parameters for the OpCode {op.op_code.name} must contain a jump address at index {jump_param_idx}."
             )
-- 
2.43.0


From 2c832c6fcbe17d333a017ced9e1390ec57e613c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 41/60] fix: compile SSBScript only after it was parsed without
 errors

---
 .../ssb_script/ssb_converting/ssb_compiler.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..22de35f 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # Start Compiling
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker.DEFAULT.walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From 98ebf6c8b4850cede8ac6b2a21325a06027b2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 42/60] fix: reject routine ids that do not start at 0 or have
 gaps

---
 .../compiler/compiler_visitor/routine_visitor.py  | 15 ++++++++++++++-
 explorerscript/ssb_converting/compiler/utils.py   | 15 +++++++++++++++
 .../ssb_converting/compiler/compiler_listener.py  | 15 ++++++++++++++-
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index 9cb56b2..02e0132 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -36,7 +36,12 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.coro_def
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_target_def import ForTargetDefCompileHandler
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
+from explorerscript.ssb_converting.compiler.utils import (
+    CompilerCtx,
+    Counter,
+    check_no_routine_missing,
+    check_routine_id,
+)
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOpCode, SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import OP_DUMMY_END, SsbLabel
 
@@ -56,6 +61,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
     # Global compilation context for the handlers
     compiler_ctx: CompilerCtx
 
+    _number_routines: int
     _active_routine_id: int
     _root_handler: (
         ForTargetDefCompileHandler | CoroDefCompileHandler | SimpleDefCompileHandler | IntegerLikeCompileHandler | None
@@ -72,9 +78,15 @@ class RoutineVisitor(ExplorerScriptVisitor):
             Counter(), self.source_map_builder, {}, Counter(), performance_progress_list_var_name, macros
         )
 
+        self._number_routines = 0
         self._active_routine_id = -1
         self._root_handler = None
 
+    def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> None:
+        self._number_routines = len(ctx.funcdef())
+        self.visitChildren(ctx)
+        check_no_routine_missing(self.routine_infos)
+
     def visitImport_stmt(self, ctx: ExplorerScriptParser.Import_stmtContext) -> None:
         # Are not visited.
         return
@@ -140,6 +152,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
             self.source_map_builder.add_opcode(offset, ctx.stop.line - 1, ctx.stop.column)
 
     def _enlarge_routine_info(self) -> None:
+        check_routine_id(self._active_routine_id, self._number_routines)
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 2f18f9b..2e85a20 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -242,6 +242,21 @@ def _count_iter_items(iterable: Iterable[Any]) -> int:
     return next(counter)
 
 
+def check_routine_id(routine_id: int, number_routines: int) -> None:
+    """Routine ids start at 0 and there are no gaps between them."""
+    if routine_id < 0 or routine_id >= number_routines:
+        raise SsbCompilerError(
+            f(_("The routine id {routine_id} is invalid: The ids must start at 0 and increment by one."))
+        )
+
+
+def check_no_routine_missing(routine_infos: list[Any]) -> None:
+    """Checks that there are no gaps between the ids of the routines after all of them were collected."""
+    for routine_id, info in enumerate(routine_infos):
+        if info is None:
+            raise SsbCompilerError(f(_("There is no routine with the id {routine_id}.")))
+
+
 def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> bool:
     for routine in routine_ops:
         # The routines themselves may be written down in any order.
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..9c12edb 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -29,7 +29,12 @@ from explorerscript.antlr.SsbScriptParser import SsbScriptParser
 from explorerscript.common_syntax import parse_position_marker_arg
 from explorerscript.error import SsbCompilerError
 from explorerscript.source_map import SourceMapBuilder, SourceMapPositionMark
-from explorerscript.ssb_converting.compiler.utils import singleline_string_literal, string_literal
+from explorerscript.ssb_converting.compiler.utils import (
+    check_no_routine_missing,
+    check_routine_id,
+    singleline_string_literal,
+    string_literal,
+)
 from explorerscript.ssb_converting.ssb_data_types import (
     SsbRoutineInfo,
     SsbOperation,
@@ -88,9 +93,16 @@ class SsbScriptCompilerListener(SsbScriptListener):
 
         self._total_number_collected_ops = -1
         self._collected_ops: list[SsbOperation] = []
+        self._number_routines = 0
         self._active_routine_id = -1
         self._collected_params: list[SsbOpParam] = []
 
+    def enterStart(self, ctx: SsbScriptParser.StartContext) -> None:
+        self._number_routines = len(ctx.funcdef())
+
+    def exitStart(self, ctx: SsbScriptParser.StartContext) -> None:
+        check_no_routine_missing(self.routine_infos)
+
     def exitSimple_def(self, ctx: SsbScriptParser.Simple_defContext) -> None:
         self._active_routine_id = exps_int(str(ctx.INTEGER()))
         self._enlarge_routine_info()
@@ -313,6 +325,7 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
+        check_routine_id(self._active_routine_id, self._number_routines)
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
-- 
2.43.0


From 3531a2e0a959998df744a1b7f12608fb111442f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 43/60] fix: only import files

---
 explorerscript/ssb_converting/ssb_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 7968467..4bf076c 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -260,7 +260,7 @@ class ExplorerScriptSsbCompiler:
             if import_file.startswith(".") or import_file.startswith("/"):
                 # Relative or absolute import
                 abs_path = os.path.realpath(str(PurePath(PurePosixPath(dir_name).joinpath(PurePosixPath(import_file)))))
-                if not os.path.exists(abs_path):
+                if not os.path.isfile(abs_path):
                     raise SsbCompilerError(f(_("The file to import ('{import_file}') was not found.")))
             else:
                 # Relative to one of the lookup paths
@@ -279,7 +279,7 @@ class ExplorerScriptSsbCompiler:
                     abs_path_c = os.path.realpath(
                         str(PurePath(dir_name).joinpath(PurePosixPath(lp).joinpath(import_file)))
                     )
-                    if os.path.exists(abs_path_c):
+                    if os.path.isfile(abs_path_c):
                         abs_path = abs_path_c
                         break
                 if abs_path is None:
-- 
2.43.0


From 213a3a90db9395b994f643d1f4becad47cebf647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 44/60] fix: raise only the documented exceptions when
 compiling

---
 explorerscript/ssb_converting/ssb_compiler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 4bf076c..b8fce4d 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -26,7 +26,7 @@ import logging
 import os
 from pathlib import PurePosixPath, PurePath
 
-from explorerscript.error import SsbCompilerError
+from explorerscript.error import ParseError, SsbCompilerError
 from explorerscript.explorerscript_reader import ExplorerScriptReader
 from explorerscript.macro import ExplorerScriptMacro
 from explorerscript.source_map import SourceMap
@@ -133,6 +133,16 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except (ParseError, SsbCompilerError, ValueError):
+            raise
+        except Exception as e:
+            raise ValueError(f"{type(e).__name__}: {e}") from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
-- 
2.43.0


From c99f927a765113683133dea42dbd5767b8f8756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 45/60] fix: treat the first statement of a for header as
 outside of the loop

---
 .../compiler/compile_handlers/blocks/loop/for_block.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/loop/for_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/loop/for_block.py
index 1d71535..8b22e56 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/loop/for_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/loop/for_block.py
@@ -79,15 +79,17 @@ class ForBlockCompileHandler(AbstractLoopBlockCompileHandler[ExplorerScriptParse
         self._end_statement_handler: AbstractStatementCompileHandler[ParserRuleContext] | None = None
 
     def collect(self) -> list[SsbOperation]:
-        self.compiler_ctx.add_loop(cast(AnyLoopBlockCompileHandler, self))
         assert (
             self._init_statement_handler is not None
             and self._end_statement_handler is not None
             and self._branch_blueprint is not None
         )
+        # The init statement is run before the loop, it is not a part of it.
+        init_ops = self._init_statement_handler.collect()
+        self.compiler_ctx.add_loop(cast(AnyLoopBlockCompileHandler, self))
         retval = (
             [self._start_label]
-            + self._init_statement_handler.collect()
+            + init_ops
             + [self._generate_jump_operation(OP_JUMP, [], self._initial_label), self._block_label]
             + self._process_block(False)
             + [self._new_run_label]
-- 
2.43.0


From 3123c29f6a172ead3724c1af36aed115689fd15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 46/60] fix: reject routines in imported SSBScript files

---
 explorerscript/ssb_converting/ssb_compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index b8fce4d..4512abc 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -167,6 +167,10 @@ class ExplorerScriptSsbCompiler:
                 # Parse as SsbScript instead
                 subcompiler = SsbScriptSsbCompiler()
                 subcompiler.compile(explorerscript_src)
+                if macros_only and subcompiler.routine_infos:
+                    # noinspection PyUnusedLocal
+                    fn = os.path.basename(file_name)  # noqa
+                    raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
                 self.routine_infos = subcompiler.routine_infos
                 self.routine_ops = subcompiler.routine_ops
                 self.named_coroutines = subcompiler.named_coroutines
-- 
2.43.0


From b1d6f3254c0d58c043574c0ac6ce2fdfeb51dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 47/60] fix: reject undefined labels in macros that are not
 called

---
 .../compiler/compiler_visitor/macro_visitor.py     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..4f17d18 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,9 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import _, f
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -81,9 +83,19 @@ class MacroVisitor(ExplorerScriptVisitor):
         blueprints = self._root_handler.collect()
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
+        self._check_labels_defined(name, blueprints)
 
         return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
 
+    def _check_labels_defined(self, name: str, blueprints: list[SsbOperation]) -> None:
+        """The labels of a macro are only known in the macro. It might never be called, so check this right away."""
+        defined = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in defined:
+                raise SsbCompilerError(
+                    f(_("Macro {name} contains a jump to a label that does not exist: {op.label.original_name}."))
+                )
+
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
 
-- 
2.43.0


From 8a402470308d077f8a5c690b1a85053c90b90c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 48/60] fix: give every macro its own source map

---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 4f17d18..35ea03a 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -78,6 +78,9 @@ class MacroVisitor(ExplorerScriptVisitor):
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
         self._root_handler = macrodef_handler
+        # Each macro has its own source map, it is relayed when the macro is built.
+        self.source_map_builder = SourceMapBuilder()
+        self.compiler_ctx.source_map_builder = self.source_map_builder
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
-- 
2.43.0


From d2018344a5400bd4df8b52dd1fa0ca2b97d88cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 49/60] fix: keep newlines at the beginning and end when
 highlighting

---
 explorerscript/pygments/expslexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..bed21fd 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -23,6 +23,7 @@
 from __future__ import annotations
 
 import re
+from typing import Any
 
 from pygments.lexer import RegexLexer, include, words
 from pygments.token import Comment, Name, String, Text, Number
@@ -90,6 +91,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options: Any) -> None:
+        # Don't strip newlines at the beginning and at the end unless asked to, no text may be lost.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From ab66be71c76f4ddc5a030d7a92877d8a91d3e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 50/60] fix: map the cases of message switches to where they
 are written

---
 .../compiler/compile_handlers/blocks/switches/case_block.py | 4 ++++
 .../compile_handlers/blocks/switches/default_case_block.py  | 4 ++++
 .../compile_handlers/blocks/switches/message_switch.py      | 6 ++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
index 38b1e16..234a81f 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
@@ -90,6 +90,10 @@ class CaseBlockCompileHandler(
             raise SsbCompilerError(_("Invalid message switch case call."))
         return self._added_string_handler.collect()
 
+    def generate_text_operation(self, op_name: str, params: list[SsbOpParam]) -> SsbOperation:
+        """Generates the operation for this case of a message switch"""
+        return self._generate_operation(op_name, params)
+
     def collect_header_handler(self) -> CaseHeaderCompileHandler:
         assert self._case_header_handler is not None
         return self._case_header_handler
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py
index ee1dd26..29ae507 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/default_case_block.py
@@ -75,6 +75,10 @@ class DefaultCaseBlockCompileHandler(
             raise SsbCompilerError(_("Invalid message switch case call."))
         return self._added_string_handler.collect()
 
+    def generate_text_operation(self, op_name: str, params: list[SsbOpParam]) -> SsbOperation:
+        """Generates the operation for this case of a message switch"""
+        return self._generate_operation(op_name, params)
+
     def add(self, obj: AbstractStatementCompileHandler[ParserRuleContext] | StringCompileHandler) -> None:
         if isinstance(obj, AbstractComplexStatementCompileHandler):
             # Sub statement for the block
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..7904711 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -85,13 +85,15 @@ class MessageSwitchCompileHandler(
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            case_ops.append(h.generate_text_operation(OP_CASE_TEXT, [value, string]))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            case_ops.append(
+                self._default_handler.generate_text_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()])
+            )
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From d7ca6bf5afd7382545c07a7415f54efecf613a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 51/60] fix: map the operations to the statements printed for
 them when decompiling

---
 .../label_jumps/forever_break.py              |  5 ++-
 .../label_jumps/forever_continue.py           |  5 ++-
 .../write_handlers/label_jumps/if_start.py    |  2 +-
 .../write_handlers/label_jumps/jump.py        |  3 +-
 .../label_jumps/switch_start.py               |  4 +-
 .../ssb_converting/ssb_decompiler.py          | 45 +++++++++++++++----
 6 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 5d019ca..854e8dc 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -52,7 +53,9 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
             # the loop
             logger.warning("While decompiling, tried to generate break_loop; outside loop!")
             raise FallbackToJump()
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+        if self.start_vertex["op"].root.op_code.name == OP_JUMP:
+            # (otherwise this was inserted after another operation)
+            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index f863fff..36b067c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -53,7 +54,9 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            if self.start_vertex["op"].root.op_code.name == OP_JUMP:
+                # (otherwise this was inserted after another operation)
+                self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 77fe964..c7eba8f 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -247,7 +247,7 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_add_opcode(op.offset, include_newline_in_header)
         opt_space = " " if not include_newline_in_header else ""
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..a058188 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -48,8 +48,7 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_announce_jump(op)
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 357db46..6f8e759 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -101,7 +101,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         logger.debug("... NOW block for cases.")
                         if e in already_printed_edges and self._is_end_of_switch(e.target_vertex, m):
                             # There's nothing in this branch
-                            self.decompiler.write_stmnt("break;")
+                            self.decompiler.write_break()
                             continue
                         # If this will be visited multiple times, we need a label
                         if (
@@ -134,7 +134,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                     root_op_before is None
                                     or root_op_before.op_code.name not in OPS_THAT_END_CONTROL_FLOW
                                 ):
-                                    self.decompiler.write_stmnt("break;")
+                                    self.decompiler.write_break()
 
             next_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
             if next_vertex:
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index bd5a38f..b5ccdfb 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -44,6 +44,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     CallJump,
     ForeverBreak,
     ForeverContinue,
+    OP_JUMP,
 )
 from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler
 
@@ -69,6 +70,8 @@ class ExplorerScriptSsbDecompiler:
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
+    # Offset of a jump that was just handled, as long as nothing was written since.
+    _jump_to_be_written: int | None
     # Since forever blocks break_loops do NOT have to be on the exact next level, we use a stack system instead!
     forever_start_handler_stack: list[ForeverWriteHandler] = []
 
@@ -98,6 +101,7 @@ class ExplorerScriptSsbDecompiler:
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
+        self._jump_to_be_written = None
         self.forever_start_handler_stack = []
 
     def convert(self) -> tuple[str, SourceMap]:
@@ -106,6 +110,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self.labels_already_printed = []
         self._line_number = 1
+        self._jump_to_be_written = None
         self.smb = SourceMapBuilder()
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
@@ -185,6 +190,7 @@ class ExplorerScriptSsbDecompiler:
             self.write_line()
         self._line_number += stmnt.count("\n")
         self._output += stmnt
+        self._jump_to_be_written = None
 
     def write_line(self) -> None:
         self._line_number += 1
@@ -200,14 +206,18 @@ class ExplorerScriptSsbDecompiler:
     def write_hold(self) -> None:
         self.write_stmnt("hold;")
 
+    def write_break(self) -> None:
+        self._source_map_add_jump()
+        self.write_stmnt("break;")
+
     def write_label_jump(self, label_id: int, previous_op: SsbOperation) -> None:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -216,7 +226,11 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
+
+    def _write_jump(self, label_id: int) -> None:
+        self._source_map_add_jump()
+        self.write_stmnt(f"jump @label_{label_id};")
 
     def is_in_loop(self, marker: ForeverContinue | ForeverBreak) -> bool:
         """Whether the innermost loop that is currently being written is the one the marker belongs to."""
@@ -225,12 +239,27 @@ class ExplorerScriptSsbDecompiler:
         m = self.forever_start_handler_stack[-1].m
         return m is not None and m.loop_id == marker.loop_id
 
-    def source_map_add_opcode(self, op_offset: int) -> None:
-        """Has to be called BEFORE writing the opcode."""
+    def source_map_add_opcode(self, op_offset: int, line: bool = True) -> None:
+        """
+        Has to be called BEFORE writing the opcode. Like for write_stmnt, line is whether the statement starts in a
+        new line; if not it must be separated by one space from what is in the line already.
+        """
         assert self.smb is not None
-        # TODO: Assumes that all statements start in a new line after indent.
-        #       Might need this more flexible.
-        self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        if line:
+            self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        else:
+            column = len(self._output) - (self._output.rfind("\n") + 1) + 1
+            self.smb.add_opcode(op_offset, self._line_number - 1, column)
+
+    def source_map_announce_jump(self, op: SsbLabelJump) -> None:
+        """A jump is added to the source map, if the next thing that is written is a jump or a break."""
+        # The operation may also be one that was inserted after another one, to represent the end of a loop iteration.
+        if op.root.op_code.name == OP_JUMP:
+            self._jump_to_be_written = op.offset
+
+    def _source_map_add_jump(self) -> None:
+        if self._jump_to_be_written is not None:
+            self.source_map_add_opcode(self._jump_to_be_written)
 
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
-- 
2.43.0


From 3eee4e96e290d3fe28efac9856bebd7ba4f80d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 52/60] fix: continue after a call with the operation that
 follows it

---
 .../decompiler/graph_building/graph_minimizer.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 927eb85..0c2cecd 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -735,7 +735,11 @@ class SsbGraphMinimizer:
                             # (may be a loop start for example)
                             continue
                         e = self._reconnect(g, v_before, in_edges[0], v_after, True)
-                        e["flow_level"] = e["flow_level"] + 1
+                        if not isinstance(v_before["op"], SsbLabelJump) or not isinstance(
+                            v_before["op"].get_marker(), CallJump
+                        ):
+                            # (for calls this tells, which of the two edges is the one to continue with)
+                            e["flow_level"] = e["flow_level"] + 1
                         self._update_edge_style(e)
                     vs_to_delete.add(v)
             g.delete_vertices(vs_to_delete)
-- 
2.43.0


From f1627fa0c05540c6910c05acab61081d700fd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 53/60] fix: write an else if the else branch of an elseif
 continues somewhere else

---
 .../write_handlers/label_jumps/if_start.py           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index c7eba8f..2ef845c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -87,7 +87,7 @@ class IfWriteHandler(AbstractWriteHandler):
             else:
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
-                else_edge = self._build_else_if_chain(else_edge)
+                else_edge = self._build_else_if_chain(else_edge, v_after_if_branch)
                 if else_edge is not None:
                     logger.debug("<%d> Handling else-block...", id(self.start_vertex))
                     else_ends_on_common_vtx = False
@@ -181,7 +181,7 @@ class IfWriteHandler(AbstractWriteHandler):
                 return "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
-    def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
+    def _build_else_if_chain(self, in_edge: Edge, v_after_if_branch: Vertex | None) -> Edge | None:
         """Starting from the in_edge try to build as many elseif constructs as possible."""
         op: SsbOperation = in_edge.target_vertex["op"]
         while isinstance(op, SsbLabelJump) and isinstance(op.get_marker(), IfStart):
@@ -224,9 +224,13 @@ class IfWriteHandler(AbstractWriteHandler):
                     op = in_edge.target_vertex["op"]
                 elif next_vertex_ends:
                     # VERY IMPORTANT: If we already wrote this somewhere else, we NEED to write an else regardless,
-                    # because we WON'T be printing it's opcodes next otherwise!
+                    # because we WON'T be printing it's opcodes next otherwise! The same is true, if one of the
+                    # previous branches ended at another vertex, because that's what will be printed next then.
                     eop = else_edge.target_vertex["op"]
-                    if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
+                    if (isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed) or any(
+                        v is not None and v.index != else_edge.target
+                        for v in (v_after_if_branch, self._v_after_else_ifs)
+                    ):
                         return else_edge
                     else:
                         self._v_after_else_ifs = else_edge.target_vertex
-- 
2.43.0


From c223f84ddd22431d731f79c6e38de6195f1da49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 54/60] fix: write a break if a case of a switch only consists
 of a jump to the end

---
 .../decompiler/write_handlers/label_jumps/switch_start.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8e759..1c5b9e5 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -124,12 +124,14 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 check_end_block=self.check_end_block,
                             )
                             handler.write_content()
-                            if (
+                            assert handler.last_handler_in_block is not None
+                            if self._is_end_of_switch(handler.last_handler_in_block.start_vertex, m):
+                                self.decompiler.write_break()
+                            elif (
                                 not isinstance(handler.last_handler_in_block, LabelWriteHandler)
                                 or not handler.last_handler_in_block.switch_fell_through
                             ):
                                 root_op_before = self._get_root_op(handler.last_vertex)
-                                assert handler.last_handler_in_block is not None
                                 if not handler.last_handler_in_block.ended_on_jump and (
                                     root_op_before is None
                                     or root_op_before.op_code.name not in OPS_THAT_END_CONTROL_FLOW
-- 
2.43.0


From d54b8af9701a97ae76ede70e448a8273c643b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 55/60] fix: keep the file of macros that an imported file
 imports

---
 explorerscript/ssb_converting/ssb_compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 4512abc..d4e1f37 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -308,7 +308,11 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
+            # The macros of a sub-file may themselves already have been imported by it, they stay where they are defined.
+            if macro.included__absolute_path is None:
+                macro.included__absolute_path = subfile_path
             if basefile_path is not None:
-                macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
+                macro.included__relative_path = os.path.relpath(
+                    macro.included__absolute_path, os.path.dirname(basefile_path)
+                )
         return macros
-- 
2.43.0


From 680180518c3db46e50d8cbe5d2cadf4ba4b19195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 56/60] fix: name the file of position marks in macros that are
 called by macros of an imported file

---
 explorerscript/macro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..5e90fdf 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -164,8 +164,11 @@ class ExplorerScriptMacro:
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
-        for m in self.source_map.get_position_marks__macros():
-            smb.add_macro_position_mark(*m)
+        for file_path, macro_name, pos_mark in self.source_map.get_position_marks__macros():
+            # If the file path is None, then it's OUR file, see _build_op.
+            if file_path is None:
+                file_path = self.included__relative_path
+            smb.add_macro_position_mark(file_path, macro_name, pos_mark)
 
         out_ops.append(end_label)
 
-- 
2.43.0


From 32cbdc24e5231f11d2f3bcb2ca128efdd2a19ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 57/60] fix: note macro calls at the first remaining operation,
 drop the mappings of removed operations

---
 explorerscript/macro.py                       | 34 +++++++++++++++++++
 explorerscript/source_map.py                  | 10 ++++++
 explorerscript/ssb_converting/ssb_compiler.py |  7 ++--
 3 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 5e90fdf..8e954ae 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -40,17 +40,45 @@ class MacroStartSsbLabel(SsbLabel):
         routine_id: int,
         length_of_macro: int,
         parameter_mapping: dict[str, str],
+        called_in: tuple[str | None, int, int] | None = None,
         debugging_note: str | None = None,
     ):
         super().__init__(id, routine_id, debugging_note)
         self.length_of_macro = length_of_macro
         self.parameter_mapping = parameter_mapping
+        # Where the macro was called, see MacroSourceMapping.
+        self.called_in = called_in
 
 
 class MacroEndSsbLabel(SsbLabel):
     pass
 
 
+def finish_source_map(source_map: SourceMap, routines: list[list[SsbOperation]]) -> None:
+    """
+    Updates the source map after operations were removed: Only the operations that are left keep their entries and
+    the calls of macros are noted at the first operation of them that is left.
+    The routines must still contain the labels of the macros.
+    """
+    offsets: set[int] = set()
+    for routine in routines:
+        # The calls we are in. None, if an operation for it was already found.
+        calls: list[tuple[str | None, int, int] | None] = []
+        for op in routine:
+            if isinstance(op, MacroStartSsbLabel):
+                calls.append(op.called_in)
+            elif isinstance(op, MacroEndSsbLabel):
+                calls.pop()
+            elif not isinstance(op, SsbLabel):
+                real_op = op.root if isinstance(op, SsbLabelJump) else op
+                offsets.add(real_op.offset)
+                mapping = source_map.get_op_line_and_col__macros(real_op.offset)
+                if mapping is not None:
+                    mapping.called_in = next((c for c in reversed(calls) if c is not None), None)
+                    calls = [None] * len(calls)
+    source_map.retain_offsets(offsets)
+
+
 class ExplorerScriptMacro:
     # The name of the macro
     name: str
@@ -117,6 +145,7 @@ class ExplorerScriptMacro:
                 -1,
                 len_real_ops_in_blueprints,
                 parameter_mapping,
+                smb.macro_called_in,
                 f"Macro call {self.name} start label.",
             )
         ]
@@ -247,11 +276,16 @@ class ExplorerScriptMacro:
 
     def _copy_blueprint_label(self, lbl_idx_counter: Counter, blueprint_op: SsbLabel) -> SsbLabel:
         if isinstance(blueprint_op, MacroStartSsbLabel):
+            called_in = blueprint_op.called_in
+            if called_in is not None and called_in[0] is None:
+                # Our file called this.
+                called_in = (self.included__relative_path, *called_in[1:])
             return MacroStartSsbLabel(
                 lbl_idx_counter(),
                 -1,
                 blueprint_op.length_of_macro,
                 blueprint_op.parameter_mapping,
+                called_in,
                 blueprint_op.debugging_note,
             )
         elif isinstance(blueprint_op, MacroEndSsbLabel):
diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 8467168..79c852e 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -341,6 +341,11 @@ class SourceMap:
     def create_empty(cls) -> SourceMap:
         return cls({}, [], {}, [])
 
+    def retain_offsets(self, offsets: set[int]) -> None:
+        """Removes the mappings of all opcode offsets that are not in the set."""
+        self._mappings = {key: val for key, val in self._mappings.items() if key in offsets}
+        self._mappings_macros = {key: val for key, val in self._mappings_macros.items() if key in offsets}
+
     def rewrite_offsets(self, new_mapping: dict[int, int]) -> None:
         """
         Replace all opcode offsets (in mappings, macrco mappings, macro return addresses) with new
@@ -423,6 +428,11 @@ class SourceMapBuilder:
         # logger.debug("<%d>: Marked next macro opcode as called in %s:%d, %d", id(self), str(if_incl_rel_path), line_number, column)
         return self
 
+    @property
+    def macro_called_in(self) -> tuple[str | None, int, int] | None:
+        """Where the next macro opcode is called in, if it was marked."""
+        return self._next_macro_called_in
+
     def add_macro_opcode(
         self, op_offset: int, if_incl_rel_path: str | None, macro_name: str, line_number: int, column: int
     ) -> SourceMapBuilder:
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index d4e1f37..6246495 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -28,7 +28,7 @@ from pathlib import PurePosixPath, PurePath
 
 from explorerscript.error import ParseError, SsbCompilerError
 from explorerscript.explorerscript_reader import ExplorerScriptReader
-from explorerscript.macro import ExplorerScriptMacro
+from explorerscript.macro import ExplorerScriptMacro, finish_source_map
 from explorerscript.source_map import SourceMap
 from explorerscript.ssb_converting.compiler.compiler_visitor.has_routines_visitor import HasRoutinesVisitor
 from explorerscript.ssb_converting.compiler.compiler_visitor.import_visitor import ImportVisitor
@@ -256,10 +256,13 @@ class ExplorerScriptSsbCompiler:
             strip_last_label(compiler_visitor.routine_ops, compiler_visitor.routine_end_ops)
         )
 
+        source_map = compiler_visitor.source_map_builder.build()
+        finish_source_map(source_map, label_finalizer.routines)
+
         self.routine_ops = OpsLabelJumpToRemover(label_finalizer.routines, label_finalizer.label_offsets).routines
         self.routine_infos = compiler_visitor.routine_infos
         self.named_coroutines = compiler_visitor.named_coroutines
-        self.source_map = compiler_visitor.source_map_builder.build()
+        self.source_map = source_map
 
         # Done!
         return self
-- 
2.43.0


From 2f397fdd857614a32ca0e0330de2636097e74a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 58/60] fix: only record position marks that are used by
 operations

---
 explorerscript/macro.py      | 14 +++++++++++++-
 explorerscript/source_map.py |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 8e954ae..7f7b22f 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -28,7 +28,13 @@ from typing import MutableSequence
 
 from explorerscript.source_map import SourceMap, SourceMapBuilder
 from explorerscript.ssb_converting.compiler.utils import Counter
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpParamConstant, SsbOpCode
+from explorerscript.ssb_converting.ssb_data_types import (
+    SsbOperation,
+    SsbOpParam,
+    SsbOpParamConstant,
+    SsbOpParamPositionMarker,
+    SsbOpCode,
+)
 from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_RETURN, OP_JUMP
 from explorerscript.util import f, _
 
@@ -58,9 +64,11 @@ def finish_source_map(source_map: SourceMap, routines: list[list[SsbOperation]])
     """
     Updates the source map after operations were removed: Only the operations that are left keep their entries and
     the calls of macros are noted at the first operation of them that is left.
+    Position marks that are not in any operation (unused arguments of macro calls) are removed.
     The routines must still contain the labels of the macros.
     """
     offsets: set[int] = set()
+    position_marks: list[SsbOpParamPositionMarker] = []
     for routine in routines:
         # The calls we are in. None, if an operation for it was already found.
         calls: list[tuple[str | None, int, int] | None] = []
@@ -72,11 +80,15 @@ def finish_source_map(source_map: SourceMap, routines: list[list[SsbOperation]])
             elif not isinstance(op, SsbLabel):
                 real_op = op.root if isinstance(op, SsbLabelJump) else op
                 offsets.add(real_op.offset)
+                position_marks += [p for p in real_op.params if isinstance(p, SsbOpParamPositionMarker)]
                 mapping = source_map.get_op_line_and_col__macros(real_op.offset)
                 if mapping is not None:
                     mapping.called_in = next((c for c in reversed(calls) if c is not None), None)
                     calls = [None] * len(calls)
     source_map.retain_offsets(offsets)
+    source_map.retain_position_marks(
+        {(p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative) for p in position_marks}
+    )
 
 
 class ExplorerScriptMacro:
diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 79c852e..1a6d673 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -346,6 +346,15 @@ class SourceMap:
         self._mappings = {key: val for key, val in self._mappings.items() if key in offsets}
         self._mappings_macros = {key: val for key, val in self._mappings_macros.items() if key in offsets}
 
+    def retain_position_marks(self, marks: set[tuple[str, int, int, int, int]]) -> None:
+        """Removes all position marks whose name, offsets and relative positions are not in the set."""
+
+        def is_in(m: SourceMapPositionMark) -> bool:
+            return (m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) in marks
+
+        self._position_marks = [m for m in self._position_marks if is_in(m)]
+        self._position_marks_macro = [m for m in self._position_marks_macro if is_in(m[2])]
+
     def rewrite_offsets(self, new_mapping: dict[int, int]) -> None:
         """
         Replace all opcode offsets (in mappings, macrco mappings, macro return addresses) with new
-- 
2.43.0


From 5ddc8f82932d6898ed7f608120eb3a1a20c173fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 59/60] fix: decompile the same routines again when convert is
 called again

---
 explorerscript/ssb_converting/ssb_decompiler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index b5ccdfb..e427f03 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -117,17 +117,17 @@ class ExplorerScriptSsbDecompiler:
 
         # Step 1: Build labels
         resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
         has_any_calls = any(
             any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
+            for rtn in routine_ops
         )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -160,7 +160,6 @@ class ExplorerScriptSsbDecompiler:
         except Exception:
             # If anything failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
@@ -176,7 +175,7 @@ class ExplorerScriptSsbDecompiler:
 
             ssb_script_decompiler = SsbScriptSsbDecompiler(
                 self._routine_infos,
-                self._routine_ops,
+                raw_routine_backup_ops,
                 self._raw_named_coroutines,
             )
 
-- 
2.43.0


From b2ec3277e6171ff2c646e347361c01fcc2797293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 60/60] fix: count the operations of every routine set from the
 start in the CLI

---
 explorerscript/cli/decompile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 2598251..c8fa1ed 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,8 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
 
 class OpDict(TypedDict):
     params: list[ParamDict]
@@ -91,7 +89,7 @@ def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -133,6 +131,7 @@ def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
+    counter = Counter()
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
@@ -146,11 +145,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -164,7 +163,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -178,7 +177,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -192,7 +191,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0

