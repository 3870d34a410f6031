From 13a7e435b4e39063a9777ed3d98bc21bbe410f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 01/46] fix: learn_grammar_rule always raised TypeError
 (missing write_rules argument)

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From 228e673c4393ab8410a2980f091485eb42fddd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 02/46] fix: empty and not-understood sentences crashed: output
 buffer had no relation for them

---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..5c37b13 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From b549cdb1ec3c2f6a2ef806497271e6b8ed00aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 03/46] fix: FindOne returned the last error instead of the
 first

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 3162a570e0d297fe21ee6ec0e2d559f3b200970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:05 +0000
Subject: [PATCH 04/46] fix: output that could not be generated stayed in the
 buffer and ended up in the next response

---
 richard/core/BasicGenerator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..e6c6569 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,11 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            # also clear the buffer if generation fails; its contents would otherwise show up in the next response
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From 4f958e923eb2159b46867f73baf15a024051c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:09 +0000
Subject: [PATCH 05/46] fix: generator combined a reused rule with the binding
 of a later rule that did not match

---
 richard/core/BasicGenerator.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index e6c6569..f6d0b86 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -93,7 +93,7 @@ class BasicGenerator(SomeGenerator):
 
         found = False
         result_rule = None
-        binding = {}
+        result_binding = {}
 
         rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
 
@@ -112,10 +112,11 @@ class BasicGenerator(SomeGenerator):
             # if antecedent_values is not None:
             #     binding[rule_antecedent_variable] = antecedent_values
 
+            matched = False
+
             if not rule.sem:
                 # no condition
-                result_rule = rule
-                found = True
+                matched = True
 
             else:
 
@@ -125,16 +126,19 @@ class BasicGenerator(SomeGenerator):
 
                 if len(match_bindings) > 0:
                     binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                    matched = True
 
 
-            if found:
+            if matched:
+                result_rule = rule
+                result_binding = binding
+                found = True
+
                 # make sure the same rule is not executed again and again
                 if rule.hash not in used_rules:
                     break
 
-        return result_rule, binding, found
+        return result_rule, result_binding, found
 
 
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
-- 
2.43.0


From 88d29bf7a7b4a09a2b2d550134151fc5e02f254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:34 +0000
Subject: [PATCH 06/46] fix: parser accepted words that do not match the
 regular expression, but are only the start of a match

---
 richard/processor/parser/earley/EarleyParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..0dd8fa5 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -129,8 +129,10 @@ class EarleyParser:
             if word is not None:
                 for i in range(1, len(word)+1):
                     sub_word = word[0:i]
+                    # a part of the match doesn't necessarily match by itself
+                    if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
+                        continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-# todo check if match regexp
                     self.add_scanned_state(chart, state, sub_word, sem)
 
         # match a string constant over multiple tokens
-- 
2.43.0


From cb7e38fb9e169b8babea72b2b246f613d2fa0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:40 +0000
Subject: [PATCH 07/46] fix: parser advanced rules with constituents that have
 a different number of arguments

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 0dd8fa5..7b56953 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -185,6 +185,10 @@ class EarleyParser:
             if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
                 continue
 
+            # np(E1) does not complete np(E1, E2)
+            if len(rule.consequents[dot_position-1].arguments) != len(completed_state.rule.antecedent.arguments):
+                continue
+
             # check if the types match
             if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
                 continue
-- 
2.43.0


From dbbbb8d9689ab7db88e8753d54d210d8fef42782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:44 +0000
Subject: [PATCH 08/46] fix: parsing a sentence added rules to the grammar

---
 richard/processor/parser/earley/EarleyParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 7b56953..4d90442 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,13 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            # note: this rule is not added to the grammar, because that would make the grammar grow with each sentence
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From 5d6ff4a22a594ee85830c0342105229dd59989d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:50 +0000
Subject: [PATCH 09/46] fix: optimizer multiplied atoms that occur more than
 once

---
 .../semantic_composer/optimizer/IsolateIndependentParts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..0d99b32 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -81,11 +81,14 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        batch_atoms = batch.atoms.copy()
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
-                if batch_atom == atom:
+            for i, batch_atom in enumerate(batch_atoms):
+                # check for identity, because there may be equal atoms in other batches
+                if batch_atom is atom:
                     ordered_atoms.append(batch_atom)
+                    del batch_atoms[i]
                     break
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
-- 
2.43.0


From 5921121f407cbe73be0e51b40a962fc1d68e1bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:08 +0000
Subject: [PATCH 10/46] fix: local variables in nested semantics and templates
 were shared between constituents

---
 .../semantic_composer/SemanticComposer.py         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index f672cf7..755a38b 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -128,13 +128,14 @@ class SemanticComposer(SomeProcessor):
 
 
     def extend_map_with_semantics(self, map: dict, semantics: list[tuple]):
-        # only lists of atoms for now
-        if isinstance(semantics, list):
-            for atom in semantics:
-                for arg in atom:
-                    # since we're late in the game, don't replace variables that have already been replaced
-                    if isinstance(arg, Variable) and arg.name not in map and not self.variable_generator.isinstance(arg):
-                        map[arg.name] = self.variable_generator.next()
+        if isinstance(semantics, list) or isinstance(semantics, tuple):
+            for element in semantics:
+                self.extend_map_with_semantics(map, element)
+        elif isinstance(semantics, SemanticTemplate):
+            self.extend_map_with_semantics(map, semantics.body)
+        # since we're late in the game, don't replace variables that have already been replaced
+        elif isinstance(semantics, Variable) and semantics.name not in map and not self.variable_generator.isinstance(semantics):
+            map[semantics.name] = self.variable_generator.next()
 
 
     def unify_variables(self, semantics: any, map: dict[str, str]) -> any:
-- 
2.43.0


From c56be1ef3f1f66e36c3b14670fed1cdb90920f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 11/46] fix: inference rule parser read negative numbers as
 positive numbers

---
 richard/module/helper/SimpleInferenceRuleParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..9246b88 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -20,8 +20,8 @@ class SimpleInferenceRuleParser:
             ':-',
             '\(',
             '\)',
-            '\d+\.\d+',
-            '\d+',
+            '-?\d+\.\d+',
+            '-?\d+',
             "'(?:\\\\'|[^'])+'",
             '"(?:\\\\"|[^"])+"',
             '[A-Z]\w*',
@@ -30,8 +30,8 @@ class SimpleInferenceRuleParser:
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-        self.re_float = re.compile("^\d+\.\d+$")
-        self.re_int = re.compile("^\d+$")
+        self.re_float = re.compile("^-?\d+\.\d+$")
+        self.re_int = re.compile("^-?\d+$")
 
 
     def parse(self, text: str):
-- 
2.43.0


From 7c6cb86e05cb62fdf63e3e827c97def7d2f819c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 12/46] fix: inference rule parser dropped the arguments 0 and
 0.0

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 9246b88..321cadb 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -204,7 +204,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
-- 
2.43.0


From f09b6cab0533d395f55c34fef7f302589b6fa22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:37 +0000
Subject: [PATCH 13/46] fix: inference rule parser dropped empty strings

---
 richard/module/helper/SimpleInferenceRuleParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 321cadb..6d68d73 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,8 +22,8 @@ class SimpleInferenceRuleParser:
             '\)',
             '-?\d+\.\d+',
             '-?\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
             '#.*\n',
-- 
2.43.0


From da935c639bdaffb485bbad81a8ef43ab06dc82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:42 +0000
Subject: [PATCH 14/46] fix: inference rule parser read the words in a comment
 without a line end as rules

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 6d68d73..069485d 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -26,7 +26,7 @@ class SimpleInferenceRuleParser:
             '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From c7068b904b66d5af1e54d904e5ce8978a15204b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:46 +0000
Subject: [PATCH 15/46] fix: inference rule parser crashed when the text ended
 inside an atom

---
 richard/module/helper/SimpleInferenceRuleParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 069485d..fd96be0 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -237,6 +237,9 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
+        if token is None:
+            return None, new_pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From 6071ac1a91b1f08f5c60fd5929a5a4dbd93043ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:32 +0000
Subject: [PATCH 16/46] fix: SimpleDataSource failed on records with empty
 values

---
 richard/data_source/SimpleDataSource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..3262ae6 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -38,11 +38,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if record.get(key) != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From 0c36dab96fe147f64e2377b6e556418f7b5db18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:36 +0000
Subject: [PATCH 17/46] fix: CSV importer changed the line ends inside quoted
 values

---
 richard/data_source/CsvImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/CsvImporter.py b/richard/data_source/CsvImporter.py
index 7c04749..541c9f9 100644
--- a/richard/data_source/CsvImporter.py
+++ b/richard/data_source/CsvImporter.py
@@ -4,7 +4,7 @@ from richard.interface.SomeDataSource import SomeDataSource
 
 class CsvImporter:
     def import_table_from_file(self, table_name: str, file_path: str, data_source: SomeDataSource):
-        with open(file_path) as csvfile:
+        with open(file_path, newline='') as csvfile:
             reader = csv.reader(csvfile, delimiter=',')
             line = 0
             headers = []
-- 
2.43.0


From e4b0d3adea58c3df8ef1d5676c0f35a7e44edd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 18/46] fix: with_context ended an enclosing context of the
 same name, and did not end its own context if its body failed

---
 richard/module/BasicDialogContext.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..3a170f2 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -21,9 +21,15 @@ class BasicDialogContext(SimpleMemoryModule):
     def with_context(self, values: list, context: ExecutionContext) -> list[list]:
         name = values[0]
         body = values[1]
-        self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        # the context may have been started already; in that case it must still be active afterwards
+        already_active = len(self.data_source.select('context', ['name'], [name])) > 0
+        if not already_active:
+            self.data_source.insert('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            if not already_active:
+                self.data_source.delete('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From e97c6998e4560d0057bd9aaf4e92e4193145a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:46 +0000
Subject: [PATCH 19/46] fix: text with quotes or backslashes broke the SPARQL
 query

---
 richard/data_source/SparqlDataSource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..ac32361 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -121,12 +121,16 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                prepared = "'{}'@{}".format(self.escape_string(term), self.lang)
         else:
             prepared = str(term)
         return prepared
 
 
+    def escape_string(self, text: str):
+        return text.replace('\\', '\\\\').replace("'", "\\'").replace('\n', '\\n').replace('\r', '\\r')
+
+
     def prepare_variables(self, values, terms):
         variables = []
         for i in range(2):
-- 
2.43.0


From e5931ba80825914ca0dc9e525dac2fa1824e7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:03 +0000
Subject: [PATCH 20/46] fix: an interrupted write to the SPARQL result cache
 broke all later queries

---
 richard/data_source/SparqlDataSource.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index ac32361..b4d5d55 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,5 +1,7 @@
 import hashlib
+import os
 import pickle
+import uuid
 from richard.interface.SomeDataSource import SomeDataSource
 
 
@@ -34,7 +36,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except (OSError, EOFError, pickle.UnpicklingError):
+                # not in the cache, or the cache file is damaged
                 pass
 
         # the actual select
@@ -43,9 +46,12 @@ class SparqlDataSource(SomeDataSource):
         # write to the results cache
         if self.result_cache_path:
             try:
-                with open(file_name, 'wb') as file:
+                # write to a temporary file first, so that an interrupted write doesn't leave an incomplete cache file
+                temp_name = file_name + "." + uuid.uuid4().hex + ".tmp"
+                with open(temp_name, 'wb') as file:
                     pickle.dump(result, file)
-                    return result
+                os.replace(temp_name, file_name)
+                return result
             except OSError:
                 pass
 
-- 
2.43.0


From 5808153d9ceb59cc68368a0180f55fe263229eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 21/46] fix: optional words at the start of a rule, or next to
 an optional space, left wrong spaces behind

---
 richard/entity/GrammarRules.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..3cc764b 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -61,15 +61,14 @@ class GrammarRules:
 
         skip = 1
 
-        # 'the'?_...
-        if index == 0 and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
         # ... _'the'? ...
-        elif consequent.separator and look_ahead_consequent and look_ahead_consequent.optional and not look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
+        if consequent.separator and look_ahead_consequent and not look_ahead_consequent.separator:
+            # no separator if all preceding constituents are left out
+            new_variants = [v + [consequent, look_ahead_consequent] if v else [look_ahead_consequent] for v in variants]
+            if consequent.optional:
+                new_variants.extend([v + [look_ahead_consequent] for v in variants if v])
+            if look_ahead_consequent.optional:
+                new_variants.extend(variants)
             skip = 2
         # ... ~ ...
         elif consequent.optional:
-- 
2.43.0


From feda474810543ce08ca56230f9258d890e5369d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:40 +0000
Subject: [PATCH 22/46] fix: the generator left out optional constituents when
 a rule was used for the second time

---
 richard/core/BasicGenerator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index f6d0b86..0e9c855 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -130,8 +130,11 @@ class BasicGenerator(SomeGenerator):
 
 
             if matched:
-                result_rule = rule
-                result_binding = binding
+                # a rule with optional constituents has several variants, with the same hash; the first one is complete
+                is_variant = found and rule.hash == result_rule.hash and rule.sem is result_rule.sem
+                if not is_variant:
+                    result_rule = rule
+                    result_binding = binding
                 found = True
 
                 # make sure the same rule is not executed again and again
-- 
2.43.0


From c0c7f00ab048438ad1f40dac69c29c357d53bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 23/46] fix: words that are spelled like a category were read
 with the rules of that category in the diagnosis of unknown words

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 4d90442..54de6be 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -106,6 +106,10 @@ class EarleyParser:
 
         consequentIndex = state.dot_position - 1
         nextConsequent = state.rule.consequents[consequentIndex]
+        # a word is not a category, even if there is a category that is spelled the same
+        if nextConsequent.position_type != POS_TYPE_RELATION:
+            return
+
         next_consequent_variables = state.rule.consequents[consequentIndex].arguments
         end_char_index = state.end_char_index
 
-- 
2.43.0


From 15c9038dd46a4f5c21aec3fd9a06524201a4515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:48 +0000
Subject: [PATCH 24/46] fix: a category of the grammar that is called delta was
 taken for the start of a sentence

---
 richard/core/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/constants.py b/richard/core/constants.py
index 90eb0ae..b8b780d 100644
--- a/richard/core/constants.py
+++ b/richard/core/constants.py
@@ -4,8 +4,8 @@ from richard.entity.Variable import Variable
 
 # abstract word categories
 TERMINAL = "terminal"
-GAMMA = "gamma"
-DELTA = "delta"
+GAMMA = "$gamma"
+DELTA = "$delta"
 ROOT_CATEGORY = "s"
 
 # output types
-- 
2.43.0


From 637d4cca9d5a7280943a77136a82a514f7743e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:53 +0000
Subject: [PATCH 25/46] fix: a letter of which the lower case form has two
 characters crashed the parser

---
 richard/processor/parser/earley/EarleyParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 54de6be..83e1272 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -217,6 +217,7 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word
+        # note: lower() may change the number of characters
+        part = text[start_index:start_index+len(word)]
+        return len(part) == len(word) and part.lower() == word
 
-- 
2.43.0


From 68ba9350fc388a75c9224452b255a68eb7c5dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:21 +0000
Subject: [PATCH 26/46] fix: a regular expression with alternatives matched
 only the first alternative that applied

---
 richard/processor/parser/earley/EarleyParser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 83e1272..b4b9da1 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -133,9 +133,10 @@ class EarleyParser:
         if next_consequent.position_type == POS_TYPE_REG_EXP:
             word = self.perform_regexp(chart.text, end_char_index, next_consequent.predicate)
             if word is not None:
-                for i in range(1, len(word)+1):
-                    sub_word = word[0:i]
-                    # a part of the match doesn't necessarily match by itself
+                part = chart.text[end_char_index:]
+                for i in range(1, len(part)+1):
+                    sub_word = part[0:i]
+                    # the match is just one of the texts that match; there may be shorter and longer ones
                     if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
                         continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-- 
2.43.0


From 28be6c22ddf773a3f1b1bd722a23c62ef2ce62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 27/46] fix: local variables of dialog and exec atoms were
 shared between constituents and sentences

---
 richard/processor/semantic_composer/SemanticComposer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index 755a38b..998477a 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -97,8 +97,10 @@ class SemanticComposer(SomeProcessor):
         else:
             inferences.extend(node.rule.dialog)
 
-        # extend the map with variables found in the result of the semantics function
+        # extend the map with variables found in the results of the sem, dialog and exec functions
         self.extend_map_with_semantics(map, semantics)
+        self.extend_map_with_semantics(map, inferences)
+        self.extend_map_with_semantics(map, executable)
 
         # replace the formal parameters in the semantics with the unified variables
         unified_semantics = self.unify_variables(semantics, map)
-- 
2.43.0


From 77c5e109cc6d53f04ea6368541b4800f6593f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:08 +0000
Subject: [PATCH 28/46] fix: a logger for the last test also logged earlier
 tests with the same question and answer

---
 richard/core/DialogTester.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/richard/core/DialogTester.py b/richard/core/DialogTester.py
index f963a41..811839d 100644
--- a/richard/core/DialogTester.py
+++ b/richard/core/DialogTester.py
@@ -42,12 +42,11 @@ class DialogTester:
 
 
     def do_run(self):
-        last = self.tests[-1] if len(self.tests) > 0 else None
         for i, test in enumerate(self.tests):
 
             question, expected = test
 
-            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and test == last)
+            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and i == len(self.tests) - 1)
             self.logger.is_last_test = log_this
 
             request = SentenceRequest(question, logger=self.logger)
-- 
2.43.0


From c33cc3c537836d9d745de3e10704a8471ecb65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:08 +0000
Subject: [PATCH 29/46] fix: the log spelled the locale that was tried letter
 by letter

---
 richard/processor/language_selector/LanguageSelectorProduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/language_selector/LanguageSelectorProduct.py b/richard/processor/language_selector/LanguageSelectorProduct.py
index 81757a7..6083eac 100644
--- a/richard/processor/language_selector/LanguageSelectorProduct.py
+++ b/richard/processor/language_selector/LanguageSelectorProduct.py
@@ -10,7 +10,7 @@ class LanguageSelectorProduct(SomeProduct):
 
 
     def log(self, logger: Logger):
-        logger.add(", ".join(self.locale))
+        logger.add(self.locale)
 
 
     def get_output(self) -> any:
-- 
2.43.0


From c7954eadbc4c76fb42a93e503bb810a953e2cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 30/46] fix: the check that a predicate returns a list came
 after the use of the list

---
 richard/core/Solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 91abfc2..aec7996 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -56,9 +56,6 @@ class Solver(SomeSolver):
         if isinstance(values, ResultIterator):
             return values
 
-        if not isinstance(values, list):
-            raise Exception("Predicate '" + predicate + "' should return a list")
-
         if len(values) > 0:
             if not isinstance(values[0], list):
                 raise Exception("The results of '" + predicate + "' should be lists")
@@ -131,6 +128,9 @@ class Solver(SomeSolver):
                     raise Exception("A relation that returns a ResultIterator can't be used in combination with another relation by the same name: " + relation.predicate)
                 return out_values
 
+            if not isinstance(out_values, list):
+                raise Exception("Predicate '" + predicate + "' should return a list")
+
             # deduplicate results
             for out_value in out_values:
                 stringed_value = str(out_value)
-- 
2.43.0


From 630ea65b9fe7c3e196cfa97a0d413d06521c7668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 31/46] fix: multiplying an unbound argument crashed before the
 check for unbound arguments

---
 richard/module/CoreModule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 5c8daa1..6eb6136 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -96,13 +96,14 @@ class CoreModule(SomeModule):
 
         e1 = values[0]
         e2 = values[1]
-        e3 = e1 * e2
 
         if e1 is None:
             raise Exception("* first argument is unbound")
         if e2 is None:
             raise Exception("* second argument is unbound")
 
+        e3 = e1 * e2
+
         return [
             [None, None, e3]
         ]
-- 
2.43.0


From 4b7e2922b4f172d3b12dbb0c2796d511e5856ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:56 +0000
Subject: [PATCH 32/46] fix: one solution of a rule body that leaves a head
 argument open dropped all solutions of the rule

---
 richard/module/InferenceModule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..d3bbdfe 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -100,15 +100,16 @@ class InferenceModule(SomeModule):
                     if isinstance(rule_argument, Variable):
                         # check if the results are not bound (completely)
                         # this happens when r(X). is matches against r(Y).
+                        # only this solution is skipped, other solutions may be bound
                         if not rule_argument.name in solution:
-                            return []
+                            break
                         result.append(solution[rule_argument.name])
                     else:
                         result.append(rule_argument)
                 else:
                     result.append(value)
-
-            results.append(result)
+            else:
+                results.append(result)
 
         return results
 
-- 
2.43.0


From b9cbc477174e645da974203649a45b8495018fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:31 +0000
Subject: [PATCH 33/46] fix: characters without meaning in rule text were
 skipped, so that p(X) :- \+ q(X) was read as p(X) :- q(X)

---
 richard/module/helper/SimpleInferenceRuleParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index fd96be0..0dbaca0 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -27,6 +27,8 @@ class SimpleInferenceRuleParser:
             '[A-Z]\w*',
             '\w+',
             '#.*',
+            # any other character; no rule allows it, so it is an error (it should not be skipped)
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -240,11 +242,11 @@ class SimpleInferenceRuleParser:
         if token is None:
             return None, new_pos
 
-        if token[0] == "'":
+        if token[0] == "'" and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
 
-        if token[0] == '"':
+        if token[0] == '"' and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace('\\"', '"'), pos
 
-- 
2.43.0


From 5e478694fced5db3f15b271241692871e543fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 34/46] fix: characters without meaning in the syntax of a
 grammar rule were skipped, so that a -> b & c was read as a -> b c

---
 richard/processor/parser/helper/SimpleGrammarRulesParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/helper/SimpleGrammarRulesParser.py b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
index 7c3e9fd..c5115ff 100644
--- a/richard/processor/parser/helper/SimpleGrammarRulesParser.py
+++ b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
@@ -28,6 +28,7 @@ class SimpleGrammarRulesParser:
             '\w+',
             '\\+',
             '~',
+            '[^\s\'"]',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -176,7 +177,7 @@ class SimpleGrammarRulesParser:
         if not token:
             return None, 0
 
-        if token[0] == '/':
+        if token[0] == '/' and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace('\\/', '/'), pos
 
-- 
2.43.0


From 22c4abc1f16f52fad968b62727994c7064325caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:45 +0000
Subject: [PATCH 35/46] fix: a SPARQL request that failed with another status
 than 400, 403 or 429 could look like a result

---
 richard/data_source/SparqlDataSource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index b4d5d55..e2c8aa1 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -88,6 +88,8 @@ class SparqlDataSource(SomeDataSource):
             raise Exception("Too many requests: " + str(response.text))
         if response.status_code == 400:
             raise Exception("Bad request: " + str(response.text))
+        if response.status_code >= 400:
+            raise Exception("Request failed: " + str(response.text))
 
         # Parse the JSON response
         data = response.json()
-- 
2.43.0


From e242b8e6dba4d20bc64de3a1bd12bc9b989c10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 36/46] fix: storing an atom of a relation that no module can
 write was silently ignored

---
 richard/core/Solver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index aec7996..8b77bf0 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -168,8 +168,11 @@ class Solver(SomeSolver):
         if len(relations) == 0:
             raise Exception("No relation called '" + predicate + "' available in the model")
 
-        for relation in relations:
-            if relation.write_function is not None:
-                context = ExecutionContext(relation, arguments, {}, self)
-                relation.write_function(arguments, context)
+        writable = [relation for relation in relations if relation.write_function is not None]
+        if len(writable) == 0:
+            raise Exception("No module can write the relation '" + predicate + "'")
+
+        for relation in writable:
+            context = ExecutionContext(relation, arguments, {}, self)
+            relation.write_function(arguments, context)
 
-- 
2.43.0


From b5ca9b362cad2b33293828334bb3e679282ee6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 37/46] fix: a goal that refers to a variable by its name was
 isolated from the goal that binds it

---
 .../optimizer/IsolateIndependentParts.py         | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 0d99b32..913f9a4 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -44,11 +44,13 @@ class IsolateIndependentParts:
 
     def collect_batches(self, atoms, excluded_variables: list[str]):
 
+        all_variables = set(get_atom_variables(atoms))
+
         # create a batch for each atom
         collection: list[AtomBatch] = []
         for atom in atoms:
             # note that the top level variables are excluded, they may occur in any batch
-            variables = set(get_atom_variables(atom)) - excluded_variables
+            variables = (set(get_atom_variables(atom)) | self.get_reified_variables(atom, all_variables)) - excluded_variables
             collection.append(AtomBatch([atom], variables))
 
         # combine batches until the result is stable
@@ -76,6 +78,18 @@ class IsolateIndependentParts:
         return restored
 
 
+    def get_reified_variables(self, construct: any, names: set[str]) -> set[str]:
+        """
+        an atom may also refer to a variable by its name (example: find_all)
+        """
+        if isinstance(construct, str):
+            return {construct} & names
+        elif isinstance(construct, tuple) or isinstance(construct, list):
+            return set().union(*[self.get_reified_variables(element, names) for element in construct])
+        else:
+            return set()
+
+
     def restore_atom_order(self, atoms: list[tuple], batch: AtomBatch) -> AtomBatch:
         """
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
-- 
2.43.0


From 36d7effc1d59404b3c05f14492299297785ed3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:47 +0000
Subject: [PATCH 38/46] fix: a second rule with the same syntax (a homonym, for
 example) was never part of a reading

---
 richard/processor/parser/earley/entity/ChartState.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/richard/processor/parser/earley/entity/ChartState.py b/richard/processor/parser/earley/entity/ChartState.py
index 7881547..2d935f4 100644
--- a/richard/processor/parser/earley/entity/ChartState.py
+++ b/richard/processor/parser/earley/entity/ChartState.py
@@ -24,11 +24,21 @@ class ChartState:
 
     def __eq__(self, other_state: object) -> bool:
         return self.rule.equals(other_state.rule) and \
+               self.has_same_meaning(other_state) and \
                self.dot_position == other_state.dot_position and \
                self.start_char_index == other_state.start_char_index and \
                self.end_char_index == other_state.end_char_index
 
 
+    def has_same_meaning(self, other_state) -> bool:
+        # rules with the same syntax are alternatives (homonyms, for example), unless they are one and the same rule
+        # the rule of a terminal state is created for the word itself
+        return self.is_terminal() or (
+            self.rule.sem is other_state.rule.sem and
+            self.rule.exec is other_state.rule.exec and
+            self.rule.dialog == other_state.rule.dialog)
+
+
     def is_terminal(self):
         if len(self.rule.consequents[0].arguments) == 0:
             return False
-- 
2.43.0


From 49d998b4810e80f4ba9e29420c2181b27331de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 39/46] fix: a rule of the write grammar counted as used if
 another rule with the same syntax was used

---
 richard/core/BasicGenerator.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 0e9c855..f1c4a5a 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -28,15 +28,19 @@ class BasicGenerator(SomeGenerator):
             self.output_buffer.clear()
 
 
-    def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
+    def get_rule_key(self, rule: GrammarRule) -> tuple:
+        # rules with the same syntax, but different conditions for example, are different rules
+        return (rule.hash, id(rule.sem), id(rule.exec), id(rule.post))
+
+
+    def generate_node(self, used_rules: list[tuple], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
 
         words = []
         rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)
 
         if found:
 
-            hash = rule.hash
-            used_rules.append(hash)
+            used_rules.append(self.get_rule_key(rule))
 
             for i, consequent in enumerate(rule.consequents):
                 consequent_vals = self.get_consequent_values(rule, i, binding)
@@ -89,7 +93,7 @@ class BasicGenerator(SomeGenerator):
         return consequent_values
 
 
-    def find_rule(self, used_rules: list, antecedent_cat: str, antecedent_values: list[any]):
+    def find_rule(self, used_rules: list[tuple], antecedent_cat: str, antecedent_values: list[any]):
 
         found = False
         result_rule = None
@@ -131,20 +135,20 @@ class BasicGenerator(SomeGenerator):
 
             if matched:
                 # a rule with optional constituents has several variants, with the same hash; the first one is complete
-                is_variant = found and rule.hash == result_rule.hash and rule.sem is result_rule.sem
+                is_variant = found and self.get_rule_key(rule) == self.get_rule_key(result_rule)
                 if not is_variant:
                     result_rule = rule
                     result_binding = binding
                 found = True
 
                 # make sure the same rule is not executed again and again
-                if rule.hash not in used_rules:
+                if self.get_rule_key(rule) not in used_rules:
                     break
 
         return result_rule, result_binding, found
 
 
-    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
+    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[tuple], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
 
         if position_type == POS_TYPE_WORD_FORM:
             result = category
-- 
2.43.0


From 1e3c8e3262592551741b6d2b13373d01990fbcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 40/46] fix: a quoted word with a capital in a grammar rule
 never matched

---
 richard/processor/parser/earley/EarleyParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index b4b9da1..264408f 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -220,5 +220,5 @@ class EarleyParser:
     def read_word(self, text: str, start_index: int, word: str):
         # note: lower() may change the number of characters
         part = text[start_index:start_index+len(word)]
-        return len(part) == len(word) and part.lower() == word
+        return len(part) == len(word) and part.lower() == word.lower()
 
-- 
2.43.0


From 658138a322f605327a8fa2ef716ed51e001afb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 41/46] fix: the optimizer put a disjunction before the goals
 that bind its variables

---
 .../processor/semantic_composer/optimizer/SortByCost.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/SortByCost.py b/richard/processor/semantic_composer/optimizer/SortByCost.py
index f441cc7..151d126 100644
--- a/richard/processor/semantic_composer/optimizer/SortByCost.py
+++ b/richard/processor/semantic_composer/optimizer/SortByCost.py
@@ -1,6 +1,6 @@
 from richard.core.Model import Model
 from richard.core.atoms import get_atom_variables
-from richard.core.constants import IGNORED, INFINITE
+from richard.core.constants import DISJUNCTION, IGNORED, INFINITE
 from richard.entity.Variable import Variable
 
 
@@ -53,6 +53,11 @@ class SortByCost:
 
     def calculate_cost(self, atom: tuple, bound_variables: set, model: Model):
         predicate = atom[0]
+
+        # the result of a disjunction depends on the variables that are bound before it
+        if predicate == DISJUNCTION:
+            return INFINITE
+
         relations = model.find_relations(predicate)
         if len(relations) == 0:
             return 0
-- 
2.43.0


From 24f401354cefff09cc9999d55c89e318fb5adc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 42/46] fix: only the first result of a predicate was checked;
 others of the wrong form were used in part, or crashed

---
 richard/core/Solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 8b77bf0..8042f3f 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -56,11 +56,11 @@ class Solver(SomeSolver):
         if isinstance(values, ResultIterator):
             return values
 
-        if len(values) > 0:
-            if not isinstance(values[0], list):
+        for value in values:
+            if not isinstance(value, list):
                 raise Exception("The results of '" + predicate + "' should be lists")
-            if len(values[0]) != len(arguments):
-                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(values[0])) + " and should be " + str(len(arguments)))
+            if len(value) != len(arguments):
+                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(value)) + " and should be " + str(len(arguments)))
 
         results = self.create_solve_single_results(values, binding, arguments)
         return results
-- 
2.43.0


From d6a3d20f76f46ae56911e721fd7228b906c759dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 43/46] fix: a grammar rule without required constituents
 crashed the parser on every sentence; it is refused now

---
 richard/processor/parser/helper/SimpleGrammarRulesParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/helper/SimpleGrammarRulesParser.py b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
index c5115ff..d55d8d7 100644
--- a/richard/processor/parser/helper/SimpleGrammarRulesParser.py
+++ b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
@@ -66,6 +66,10 @@ class SimpleGrammarRulesParser:
             if 'sem' in simple_rule:
                 sem = simple_rule['sem']
 
+        # the parser cannot handle rules that match an empty text
+        if not write_rules and all(c.optional or c.separator for c in consequents):
+            raise Exception("A rule must contain at least one constituent that is not optional: " + simple_rule['syn'])
+
         exec = None
         if write_rules:
             if 'format' in simple_rule:
-- 
2.43.0


From 7ef42879547d025edaf366d5dcdf790a129c7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 44/46] fix: output that was stored before an exception ended
 up in the next response

---
 richard/core/System.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/richard/core/System.py b/richard/core/System.py
index f5a33fd..f8cb144 100644
--- a/richard/core/System.py
+++ b/richard/core/System.py
@@ -5,6 +5,7 @@ from richard.entity.ControlBlock import ControlBlock
 from richard.entity.SentenceRequest import SentenceRequest
 from richard.interface.SomeClearableDb import SomeClearableDb
 from richard.interface.SomeGenerator import SomeGenerator
+from richard.module.BasicOutputBuffer import BasicOutputBuffer
 
 
 class System:
@@ -36,7 +37,13 @@ class System:
 
     def enter(self, request: SentenceRequest):
 
-        result = self.reader_pipeline[0].process(request)
+        try:
+            result = self.reader_pipeline[0].process(request)
+        except Exception:
+            # the output that was stored before the failure would otherwise show up in the next response
+            self.clear_output()
+            raise
+
         if result.error_type != "":
             Solver(self.model).solve([('store', [
                 ('output_type', result.error_type),
@@ -50,5 +57,12 @@ class System:
             return product.get_output()
 
 
+    def clear_output(self):
+        if self.model:
+            for module in self.model.modules:
+                if isinstance(module, BasicOutputBuffer):
+                    module.clear()
+
+
     def read_output(self):
         return self.output_generator.generate_output()
-- 
2.43.0


From 3de0d1e7222a28f31746364e7562d19181704131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 45/46] fix: the text between parentheses in an inference rule
 is parsed once, not twice per level

---
 .../helper/SimpleInferenceRuleParser.py       | 61 +++++--------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 0dbaca0..86a5c2c 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -88,57 +88,26 @@ class SimpleInferenceRuleParser:
     # parent(X, Y), parent(Y, Z)
     # ( sibling(X, Y) ; ( brother(X, Y) ; sister(X, Y) )
     def parse_atoms(self, tokens: list[str], pos: int):
-        atoms, new_pos = self.parse_grouped_atoms(tokens, pos)
-        if atoms:
-            pos = new_pos
-            return atoms, pos
-
-        atoms, new_pos = self.parse_ungrouped_atoms(tokens, pos)
-        if atoms:
-            pos = new_pos
-            return atoms, pos
-
-        return None, pos
-
+        # the text between parentheses is parsed only once, whether it is a group or a disjunction
+        atom, new_pos = self.parse_atom(tokens, pos)
+        if not atom:
+            return None, pos
 
-    # parent(X, Y), parent(Y, Z)
-    def parse_ungrouped_atoms(self, tokens: list[str], pos: int):
-        atoms = []
+        # ( parent(X, Y), parent(Y, Z) )
+        if atom[0] == DISJUNCTION and len(atom[1]) == 1:
+            return atom[1][0], new_pos
 
-        while True:
-            atom, new_pos = self.parse_atom(tokens, pos)
+        # parent(X, Y), parent(Y, Z)
+        atoms = [atom]
+        comma, next_pos = self.parse_token(tokens, new_pos)
+        while comma == ",":
+            atom, new_pos = self.parse_atom(tokens, next_pos)
             if not atom:
-                return None, new_pos
-            pos = new_pos
+                return None, pos
             atoms.append(atom)
+            comma, next_pos = self.parse_token(tokens, new_pos)
 
-            comma, new_pos = self.parse_token(tokens, pos)
-
-            if comma != ",":
-                break
-            pos = new_pos
-
-        return atoms, pos
-
-
-    # ( parent(X, Y), parent(Y, Z) )
-    def parse_grouped_atoms(self, tokens: list[str], pos: int):
-        open, new_pos = self.parse_token(tokens, pos)
-        if open != "(":
-            return None, new_pos
-        pos = new_pos
-
-        atoms, new_pos = self.parse_atoms(tokens, pos)
-        if not atoms:
-            return None, new_pos
-        pos = new_pos
-
-        open, new_pos = self.parse_token(tokens, pos)
-        if open != ")":
-            return None, new_pos
-        pos = new_pos
-
-        return atoms, pos
+        return atoms, new_pos
 
 
     # ( brother(X, Y) ; sister(X, Y)
-- 
2.43.0


From 25f0469563a6d32ea74209ddf99cb0d240cab496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:14 +0000
Subject: [PATCH 46/46] fix: a cache file with contents that unpickle with
 another kind of exception broke the SPARQL query

---
 richard/data_source/SparqlDataSource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index e2c8aa1..9d75ede 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -36,8 +36,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except (OSError, EOFError, pickle.UnpicklingError):
-                # not in the cache, or the cache file is damaged
+            except Exception:
+                # not in the cache, or the cache file is damaged (unpickling may raise any exception)
                 pass
 
         # the actual select
-- 
2.43.0

