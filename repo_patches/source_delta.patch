From 03ba659eab3c8f1589c540dc6705f2e507cede61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 01/31] fix: adding to a sum of a single script no longer drops
 that script

---
 ieml/dictionary/script/script.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 7f4adca..a38aece 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -256,17 +256,15 @@ class AdditiveScript(Script):
 
         if _children:
 
-            to_remove = []
             to_add = []
             # remove the sub addition
             for c in _children:
                 if isinstance(c, AdditiveScript):
-                    to_remove.append(c)
                     to_add.extend(c.children)
 
             _children.extend(to_add)
-            # Remove duplicate children
-            _children = list(set(c for c in _children if c not in to_remove))
+            # Remove duplicate children (a sum of a single script is equal to it, so compare the types)
+            _children = list(set(c for c in _children if not isinstance(c, AdditiveScript)))
 
         # make a character with the children if possible
         if l == 0:
-- 
2.43.0


From 2584596d7c0117db5d8319b2ba33b52fd83d0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 02/31] fix: factorize no longer fails with KeyError on
 sequences that do not fill a cube

---
 ieml/dictionary/script/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 66e2807..4a25c67 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -69,6 +69,10 @@ def factor(sequences):
 
         for r in candidate:
             _facto = sorted(set(it.chain.from_iterable(_neighbours(t, r) for t in factorisation)))
+            if any(i not in relations for i in _facto):
+                # a corner of the cube is not one of the sequences, can't be factorized with it
+                continue
+
             _candidate = set(candidate)
             for i in _facto:
                 _candidate &= set(relations[i])
-- 
2.43.0


From efa2e116be8899de14f9bf17f51ce17f9df8cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 03/31] fix: polymorpheme singular sequences never exceed a
 group multiplicity

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 31f1715..1d54921 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -108,7 +108,7 @@ def compute_PM_singular_sequences(constants, groups):
 
     max_sizes_groups = defaultdict(set)
     for i, (grp, mult) in enumerate(groups):
-        for j in range(mult + 1, min_len + 1):
+        for j in range(mult + 1, min_len + 2):
             max_sizes_groups[j].add(i)
 
     def iter_groups_combinations():
-- 
2.43.0


From 1c93d923526677ad94581cf218b73b10f0ba0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 04/31] fix: morphemes of a word with a junction

---
 ieml/usl/word.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index e8aa5c2..6511a30 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -84,7 +84,8 @@ class Word(USL):
     @property
     def morphemes(self):
         return sorted(set(chain.from_iterable(e.actor.morphemes
-                                              for e in self.syntagmatic_fun.actors.values())))
+                                              for e in self.syntagmatic_fun.actors.values()
+                                              if e.actor is not None)))
 
     def check(self):
         check_word(self)
\ No newline at end of file
-- 
2.43.0


From 72c335e46b9c5e0b22f060444abeb615cd36616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 05/31] fix: compare words when only one of them has a junction

---
 ieml/usl/syntagmatic_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index f817c32..dc6ddbb 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -60,8 +60,9 @@ class SyntagmaticFunction:
         return s_actors == o_actors
 
     def __lt__(self, other):
-        s_actors = sorted([(p, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
-        o_actors = sorted([(p, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
+        # the actor of a junction is None
+        s_actors = sorted([(p, a.actor is not None, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
+        o_actors = sorted([(p, a.actor is not None, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
         return s_actors < o_actors
 
     # @property
-- 
2.43.0


From 70b3881c106b634dc0ca7ec26d7dca051c390d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 06/31] fix: unescape the quotes of a parsed decoration value

---
 ieml/usl/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index e63b963..87aa9f8 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -209,7 +209,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1])
+        p[0] = Decoration(usl_path, p[3][1:-1].replace(r'\"', '"'))
 
 
     def p_error(self, p):
-- 
2.43.0


From f37fa1cba5aef12073299cd09e0affe34ca3052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 07/31] fix: parse decorations on the focus role, on a role and
 on groups with a multiplicity

---
 ieml/usl/parser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 95b3222..ce3ed81 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -55,7 +55,7 @@ def get_lexer(module=None):
     t_LITERAL = r'\#(\\\#|[^\#])+\#'
 
     t_GROUP_MULTIPLICITY = r'm\d+'
-    t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
+    t_USL_PATH = r'(?<=\[)>(role>(!\s)?{role_regex}(\s{role_regex})*(>|(?=\s)))?((flexion|content)(>|(?=\s)))?(((group_\d(\s\d)?|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
                                                                                                                         term_regex=TERM_REGEX)
 
     t_DECORATION_VALUE = r'"(\\"|[^"])*"'
-- 
2.43.0


From 82f508ff63dc049bde144099f4a80f15b4fdba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 08/31] fix: a parsed constant path has no multiplicity, as the
 paths of iter_structure_path

---
 ieml/usl/decoration/parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index ef2e991..7d8b369 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -114,14 +114,14 @@ class PathParser:
                              | POLYMORPHEME_POSITION MULTIPLICITY SEPARATOR MORPHEME"""
         if len(p) == 2:
             group_idx = GroupIndex[p[1].upper()]
-            p[0] = PolymorphemePath(group_idx, multiplicity=1)
+            p[0] = PolymorphemePath(group_idx, multiplicity=None if group_idx == GroupIndex.CONSTANT else 1)
         elif len(p) == 3:
             group_idx = GroupIndex[p[1].upper()]
             p[0] = PolymorphemePath(group_idx, multiplicity=int(p[2]))
         elif len(p) == 4:
             group_idx = GroupIndex[p[1].upper()]
             morpheme = script(p[3])
-            p[0] = PolymorphemePath(group_idx, morpheme, multiplicity=1)
+            p[0] = PolymorphemePath(group_idx, morpheme, multiplicity=None if group_idx == GroupIndex.CONSTANT else 1)
         else:
             group_idx = GroupIndex[p[1].upper()]
             morpheme = script(p[4])
-- 
2.43.0


From 8f8fe9c4ac4ad2c4ba77df6ca21c9fe90d27edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:57 +0000
Subject: [PATCH 09/31] fix: the paths of a lexeme flexion do not lead to its
 constant or groups

---
 ieml/usl/lexeme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index fea0d1c..9b8bb5f 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -55,8 +55,8 @@ class Lexeme(USL):
 
 		yield (LexemePath(LexemeIndex.FLEXION), self.pm_flexion)
 
-		yield from [(LexemePath(LexemeIndex.FLEXION, child=None if path.morpheme is None else FlexionPath(path.morpheme)), pm)
-					for path, pm in self.pm_flexion.iter_structure_path()]
+		yield from [(LexemePath(LexemeIndex.FLEXION, child=FlexionPath(path.morpheme)), pm)
+					for path, pm in self.pm_flexion.iter_structure_path() if path.morpheme is not None]
 
 		yield (LexemePath(LexemeIndex.CONTENT), self.pm_content)
 		yield from [(LexemePath(LexemeIndex.CONTENT, child=path), pm)
-- 
2.43.0


From ad7a43d891348f2f17ef29f5bbe1a1c6b825a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:57 +0000
Subject: [PATCH 10/31] fix: parse a polymorpheme with a flexion decoration

---
 ieml/usl/polymorpheme.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 1d54921..2b90de6 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -190,18 +190,23 @@ class PolyMorpheme(USL):
         res_f = lambda u, grp_idx, multiplicity: (FlexionPath(morpheme=u) if flexion else
                                 PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity))
 
-        yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
+        # a flexion path only leads to a morpheme
+        if not flexion:
+            yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
         yield from [(res_f(m, GroupIndex.CONSTANT, None), m) for m in self.constant]
         if len(self.groups) > 0:
-            yield (res_f(None, GroupIndex.GROUP_0, self.groups[0][1]), PolyMorpheme(groups=[self.groups[0]]))
+            if not flexion:
+                yield (res_f(None, GroupIndex.GROUP_0, self.groups[0][1]), PolyMorpheme(groups=[self.groups[0]]))
             yield from [(res_f(s, GroupIndex.GROUP_0, self.groups[0][1]), s) for s in self.groups[0][0]]
 
         if len(self.groups) > 1:
-            yield (res_f(None, GroupIndex.GROUP_1, self.groups[1][1]), PolyMorpheme(groups=[self.groups[1]]))
+            if not flexion:
+                yield (res_f(None, GroupIndex.GROUP_1, self.groups[1][1]), PolyMorpheme(groups=[self.groups[1]]))
             yield from [(res_f(s, GroupIndex.GROUP_1, self.groups[1][1]), s) for s in self.groups[1][0]]
 
         if len(self.groups) > 2:
-            yield (res_f(None, GroupIndex.GROUP_2, self.groups[2][1]), PolyMorpheme(groups=[self.groups[2]]))
+            if not flexion:
+                yield (res_f(None, GroupIndex.GROUP_2, self.groups[2][1]), PolyMorpheme(groups=[self.groups[2]]))
             yield from [(res_f(s, GroupIndex.GROUP_2, self.groups[2][1]), s) for s in self.groups[2][0]]
 
     @property
-- 
2.43.0


From 931a63a2e3563daae1f3b65807445e6888f53c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 11/31] fix: read the descriptors and the structure as strings

---
 ieml/ieml_database/ieml_database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 90db087..b4f3bf7 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -203,7 +203,8 @@ class IEMLDatabase:
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
-            r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+            # the values are plain strings ('NA', 'null' or '12' are values as any other)
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
@@ -214,7 +215,7 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+        r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
         r.columns = ['ieml', 'key', 'value']
         return Structure(r)
 
-- 
2.43.0


From 76c6af7c8316d8d5a7d9faf466879f505ff70314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 12/31] fix: read the structure of an empty database

---
 ieml/ieml_database/ieml_database.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index b4f3bf7..3485eed 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -215,8 +215,12 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
-        r.columns = ['ieml', 'key', 'value']
+        try:
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
+            r.columns = ['ieml', 'key', 'value']
+        except EmptyDataError:
+            r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
+
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-- 
2.43.0


From 5d8a9e560db834f307d39e3449ef11c9e56b23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 13/31] fix: structure values of a key with a single value

---
 ieml/ieml_database/ieml_database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 3485eed..50f0843 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -55,7 +55,11 @@ class Structure:
         ieml, key, _ = normalize_key(ieml, key, None, parse_ieml=False, partial=False, structure=True)
 
         try:
-            return self.df.loc(axis=0)[(ieml, key)].to_dict('list')['value']
+            res = self.df.loc(axis=0)[(ieml, key)]
+            if isinstance(res, pandas.Series):
+                return res.to_list()
+            else:
+                return res.to_dict('list')['value']
         except KeyError:
             return []
 
-- 
2.43.0


From 0efdde1662b5600415f5befec7fac7f339650876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 14/31] fix: remove_descriptor removes the given value, and
 only it

---
 ieml/ieml_database/ieml_database.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 50f0843..9dbaa6c 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -299,19 +299,23 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor)
+                    self.remove_descriptor(ieml, l, descriptor, value)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d)
+                    self.remove_descriptor(ieml, language, d, value)
             return
 
         if value:
             value = _normalize_value(value)
 
+        prefix = '"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor)
+        if value is None:
+            to_remove = lambda l: l.startswith(prefix)
+        else:
+            to_remove = lambda l: l.rstrip('\n') == prefix + '"{}"'.format(self.escape_value(value))
+
         with open(path, "r", encoding='utf8') as f:
-            lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
-                                        ('"{}"'.format(self.escape_value(value)) if value is not None else ''))]
+            lines = [l for l in f.readlines() if not to_remove(l)]
 
         with open(path, "w", encoding='utf8') as f:
             f.writelines(lines)
-- 
2.43.0


From b601f0502bca5a16c2692564df9f7d0d3d47972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 15/31] fix: pull when a locally deleted descriptor file is
 remotely modified

---
 ieml/ieml_database/git_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dcac1d9..5d4f7ab 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -22,7 +22,8 @@ from appdirs import user_cache_dir
 
 from ieml import logger, error
 from ieml.commons import monitor_decorator
-from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE
+from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE, \
+    LANGUAGES, DESCRIPTORS_CLASS
 
 
 def get_local_cache_dir(origin):
-- 
2.43.0


From 30796f57fcb5b7c65d36c460dc27e58e32f449bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 16/31] fix: pull with conflicts that are not in a descriptor
 file

---
 ieml/ieml_database/git_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 5d4f7ab..4c32174 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -355,7 +355,7 @@ class GitInterface:
                     last = self.repo.create_commit('HEAD',
                                             DEFAULT_COMMITER_SIGNATURE,
                                             DEFAULT_COMMITER_SIGNATURE,
-                                            "Merge {}".format(ieml),
+                                            "Merge {}".format(', '.join(conflicts)),
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-- 
2.43.0


From 6072032241c619ead27c5bc9b988b7a08ce1356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 17/31] fix: no root for a script is a KeyError, as the callers
 of root expect

---
 ieml/dictionary/table/table_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index e1e7be2..0f90c9c 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -26,7 +26,7 @@ class TableStructure:
             return self.table_to_root[self.tables[s]]
         except KeyError as e:
             error("No root defined for the script {}".format(str(s)))
-            return None
+            raise e
 
 
     def __iter__(self):
-- 
2.43.0


From a302695a1d4c412b9cf02606e7d0e687ee0b8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 18/31] fix: two different folder contents don't have the same
 cache key

---
 ieml/commons.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index b1cb461..78547c4 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -139,7 +139,9 @@ class FolderWatcherCache:
         res = b""
         for file in self.files:
             with open(file, 'rb') as fp:
-                res += file[len(self.db_path)+1:].encode('utf8') + b":" + fp.read()
+                # the sizes delimit the names and the contents
+                filename, content = file[len(self.db_path)+1:].encode('utf8'), fp.read()
+                res += "{}:{}:".format(len(filename), len(content)).encode('utf8') + filename + content
 
         return os.path.join(self.cache_folder, ".{}-cache.{}".format(self.name, hashlib.md5(res).hexdigest()))
 
-- 
2.43.0


From 4fdbe00204de61d3bec531a3d9c02c498c557263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 19/31] fix: the cached list of usls depends on all the
 descriptors and structure files

---
 ieml/ieml_database/ieml_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 9dbaa6c..39323ec 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -233,7 +233,8 @@ class IEMLDatabase:
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
     @monitor_decorator("Get list of all usls")
-    @cache_results_watch_files("morpheme/*/*.desc", 'all_usls')
+    # watch every .desc and .ieml files
+    @cache_results_watch_files("**/*.[di]e[sm][cl]", 'all_usls')
     def get_list(self):
         res = {}
         dictionary = self.get_dictionary()
-- 
2.43.0


From 38bdf14b8c3f0d76d29825a1b53871f6e0dcfc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 20/31] fix: update_all_ieml keeps the descriptors

---
 ieml/ieml_database/transactions/DBTransaction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1755a92..b17bfa9 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -365,7 +365,6 @@ class DBTransactions:
 
                 db.remove_descriptor(old_ieml, None, None)
 
-                for l in LANGUAGES:
-                    for d in value[l]:
-                        for e in value[l][e]:
-                            db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+                for (_, l, d), values in value.items():
+                    for e in values:
+                        db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
-- 
2.43.0


From e1273a9e9b8591b678c6c795e26c9578923c5777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:42 +0000
Subject: [PATCH 21/31] fix: the index of a lexeme or a word gives its type

---
 ieml/usl/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 175ffa9..a25c50c 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -35,7 +35,9 @@ def get_index(s, dic):
             return (0, '0' + int2base(dic.index[s.constant[0]]))
         else:
             return (1, '1' + int2base(_polymorph_idx(s, dic)))
-    elif isinstance(s, Word):
+    elif isinstance(s, Lexeme):
         return (2, '2' + int2base(0))
-    else:
+    elif isinstance(s, Word):
         return (3, '3' + int2base(0))
+    else:
+        return (4, '4' + int2base(0))
-- 
2.43.0


From 08801a4918b5c9bd1175bd74ae61ffa3a6a013d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:42 +0000
Subject: [PATCH 22/31] fix: update_all_ieml loses no descriptor when an ieml
 becomes the one of another usl

---
 ieml/ieml_database/transactions/DBTransaction.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index b17bfa9..d2f828a 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -358,13 +358,15 @@ class DBTransactions:
 
         with self.gitdb.commit(self.signature, '[IEML migration] Update all ieml in db: {}'.format(message)):
 
-            for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls"):
-                new_ieml = f(old_ieml)
-
-                value = desc.get_values_partial(old_ieml)
+            usls = db.list(parse=True)
 
+            # remove all before adding: the ieml of an usl can become the one of another
+            for old_ieml in usls:
                 db.remove_descriptor(old_ieml, None, None)
 
-                for (_, l, d), values in value.items():
+            for old_ieml in tqdm.tqdm(usls, "Migrate all usls"):
+                new_ieml = f(old_ieml)
+
+                for (_, l, d), values in desc.get_values_partial(old_ieml).items():
                     for e in values:
-                        db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+                        db.add_descriptor(new_ieml, l, d, e)
-- 
2.43.0


From 48b50264bc906bc48a47373d53415fd60b20e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 23/31] fix: a word whose singled out role is a junction is
 read back

---
 ieml/usl/parser/parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 87aa9f8..559e6af 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -6,6 +6,7 @@ from ieml.dictionary.script import script, Script, NullScript
 from ieml.usl import Word, PolyMorpheme, USL
 from ieml.exceptions import CannotParse
 from ieml.usl.word import Lexeme
+from ieml.usl.constants import JUNCTION_SCRIPTS
 from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 from .lexer import get_lexer, tokens
 import threading
@@ -24,6 +25,23 @@ class IEMLParserSingleton(type):
         return cls._instance
 
 
+def _merge_focus(focus, role):
+    """The role singled out when a second one is marked: the roles of the lexemes of a junction are all marked when the
+    junction is singled out."""
+    if focus is None:
+        return role
+
+    common = 0
+    while common < min(len(focus), len(role)) and focus[common] == role[common]:
+        common += 1
+
+    if common == len(focus) and role[common:] and role[common] in JUNCTION_SCRIPTS:
+        return focus
+    if 0 < common < min(len(focus), len(role)) and role[common - 1] in JUNCTION_SCRIPTS:
+        return role[:common - 1]
+    return role
+
+
 class IEMLParser():
     tokens = tokens
     lock = threading.Lock()
@@ -160,9 +178,9 @@ class IEMLParser():
                        | EXCLAMATION_MARK positioned_lexeme
                        | positioned_lexeme"""
         if len(p) == 5:
-            lex_list, _ = p[1]
+            lex_list, focus = p[1]
             role, _ = p[4]
-            p[0] = (lex_list + [p[4]], role)
+            p[0] = (lex_list + [p[4]], _merge_focus(focus, role))
         elif len(p) == 4:
             lex_list, address = p[1]
             p[0] = (lex_list + [p[3]], address)
-- 
2.43.0


From d7dd12e6031072b8df87e3c65566f373b4137383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:01 +0000
Subject: [PATCH 24/31] fix: malformed roles in the text of a word are refused,
 not an IndexError

---
 ieml/usl/syntagmatic_function.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index dc6ddbb..e3e45a3 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -191,6 +191,9 @@ class SyntagmaticFunction:
         if not l:
             raise ValueError("Empty syntagmatic function")
 
+        if any(len(address) == 0 for address, _ in l):
+            raise ValueError("Invalid syntagmatic function, there is a lexeme without role")
+
         roles = [address[0] for address, _ in l]
         children_l = [(address[1:], x) for address, x in l]
 
@@ -263,6 +266,9 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
+        if any(len(address) < 2 for address, _ in l):
+            raise ValueError("Invalid junction syntagmatic function definition, a role has no junction index")
+
         junctions = {address[0] for address, _ in l}
 
         links = junctions & set(JUNCTION_SCRIPTS)
@@ -289,7 +295,7 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         groups = [[] for _ in range(len(_groups))]
         for i in _groups:
-            if i > len(groups):
+            if i >= len(groups):
                 raise ValueError("Invalid junction syntagmatic function definition, incoherent indexing.")
             groups[i] = _groups[i]
 
-- 
2.43.0


From 37c37ffcb5b846f4f8a17f14b46166a3f3933be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:18 +0000
Subject: [PATCH 25/31] fix: a role which is not in the junction is refused,
 not moved into it

---
 ieml/usl/syntagmatic_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index e3e45a3..5d7173e 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -274,6 +274,8 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
         links = junctions & set(JUNCTION_SCRIPTS)
         if len(links) != 1:
             raise ValueError("No links defined in the junction")
+        if len(junctions) != 1:
+            raise ValueError("Invalid junction syntagmatic function definition, all children must be in the junction")
         link = next(iter(links))
 
         # anchors = junctions & JUNCTION_ANCHOR_TO_LINKS.keys()
-- 
2.43.0


From 941800b45522d03ba63565d018e4c43fdd30e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 26/31] fix: a role which has qualities but no lexeme is
 refused, not rendered as None

---
 ieml/usl/syntagmatic_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index 5d7173e..92d297e 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -386,6 +386,9 @@ class DependantQualitySyntagmaticFunction(SyntagmaticFunction):
         if _junction:
             return JunctionSyntagmaticFunction._from_list(l, DependantQualitySyntagmaticFunction)
 
+        if actor is None:
+            raise ValueError("Invalid actant syntagmatic function definition, there is no lexeme for a role which has qualities.")
+
         dependant = None
         if _dependant:
             dependant = DependantQualitySyntagmaticFunction._from_list(_dependant)
-- 
2.43.0


From 698300bc996b67a24b524512c832de05b94276af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:25 +0000
Subject: [PATCH 27/31] fix: read the morphemes which are, or start by, the
 script of an old grammatical class

The lexer refused every morpheme starting by E:.b.E:?:.- : it was cut in two tokens (a syntax error), or its first two
characters were skipped as illegal (another morpheme was read).
---
 ieml/constants.py         | 2 +-
 ieml/usl/parser/lexer.py  | 5 ++++-
 ieml/usl/parser/parser.py | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ieml/constants.py b/ieml/constants.py
index 7c4c812..830330a 100644
--- a/ieml/constants.py
+++ b/ieml/constants.py
@@ -114,7 +114,7 @@ PHONETIC_PUNCTUATION = [
     '_',
     '~'
 ]
-TERM_REGEX = r'(?!E:\.b\.E:.:\.-)[EUASBTOMFIacbedgfihkjmlonpsutwyx][EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]+'
+TERM_REGEX = r'[EUASBTOMFIacbedgfihkjmlonpsutwyx][EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]+'
 
 # TERM_REGEX_LAYER_0 = r'[EUASBTOMFI]\:'
 # TERM_REGEX_LAYER_0_ADD = r'{layer0}(\s*\+\s*{layer0})*'.format(layer0=TERM_REGEX_LAYER_0)
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index ce3ed81..302952e 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -37,7 +37,10 @@ tokens = (
 
 
 def get_lexer(module=None):
-    t_OLD_MORPHEME_GRAMMATICAL_CLASS = r'E:\.b\.E:[SBT]:\.-'
+    # before MORPHEME; longer morphemes may start by the script of a grammatical class
+    def t_OLD_MORPHEME_GRAMMATICAL_CLASS(t):
+        r"E:\.b\.E:[SBT]:\.-(?![EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+])"
+        return t
 
     t_MORPHEME = TERM_REGEX
     # t_PLUS   = r'\+'
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 559e6af..3b99dcc 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -97,7 +97,8 @@ class IEMLParser():
 
 
     def p_morpheme(self, p):
-        """morpheme : MORPHEME"""
+        """morpheme : MORPHEME
+                    | OLD_MORPHEME_GRAMMATICAL_CLASS"""
 
         morpheme = script(p[1], factorize=self.factorize_script)
 
-- 
2.43.0


From 3280807619362ad3768102f52b09a503311a6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:59 +0000
Subject: [PATCH 28/31] fix: a paradigm both marked as ignored and out of every
 root was removed twice (KeyError)

---
 ieml/dictionary/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index cd82409..b1043b1 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -44,7 +44,7 @@ class Dictionary:
             if not s.singular_sequences_set.issubset(singular_sequences):
                 ignored.append(s)
 
-        for s in ignored:
+        for s in set(ignored):
             del scripts[str(s)]
             if s in root_paradigms:
                 root_paradigms.remove(s)
-- 
2.43.0


From c3e596e0c57042075f152ad612cadd99d5d3bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 29/31] fix: asking whether a path in a polymorpheme has a
 prefix of another kind raised AttributeError

---
 ieml/usl/decoration/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 0179811..48f4c44 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -220,7 +220,8 @@ class PolymorphemePath(UslPath):
 			   self.multiplicity == other.multiplicity
 
 	def _has_prefix(self, other):
-		return self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
+		return isinstance(other, PolymorphemePath) and \
+			   self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
 
 	def as_constant(self, u=None):
 		return PolymorphemePath(group_idx=GroupIndex.CONSTANT,
-- 
2.43.0


From c21e9ab95fa8e1087f182cc69e5d2a8d698da64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:11 +0000
Subject: [PATCH 30/31] fix: a carriage return in a descriptor was turned into
 a newline by the next removal, and could not be removed

---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 39323ec..bff9d78 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -315,10 +315,10 @@ class IEMLDatabase:
         else:
             to_remove = lambda l: l.rstrip('\n') == prefix + '"{}"'.format(self.escape_value(value))
 
-        with open(path, "r", encoding='utf8') as f:
+        with open(path, "r", encoding='utf8', newline='\n') as f:
             lines = [l for l in f.readlines() if not to_remove(l)]
 
-        with open(path, "w", encoding='utf8') as f:
+        with open(path, "w", encoding='utf8', newline='\n') as f:
             f.writelines(lines)
 
     def add_structure(self, ieml, key, value):
-- 
2.43.0


From 971a051e0b3d63fa223a8196ae2a8474512d8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:53 +0000
Subject: [PATCH 31/31] fix: the only singular sequence of a lexeme or word
 with groups is not itself

---
 ieml/usl/lexeme.py | 16 +++++++---------
 ieml/usl/word.py   |  2 --
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index 9b8bb5f..8030d6a 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -74,15 +74,13 @@ class Lexeme(USL):
 
 
 	def _compute_singular_sequences(self):
-		if self.pm_flexion.is_singular and (self.pm_content is None or self.pm_content.is_singular):
-			return [self]
-		else:
-			_product = [self.pm_flexion,
-						self.pm_content]
-			_product = [p.singular_sequences for p in _product if p is not None]
-
-			return [Lexeme(*ss)
-					for ss in itertools.product(*_product)]
+		# a polymorpheme with groups can have a single singular sequence, other than itself
+		_product = [self.pm_flexion,
+					self.pm_content]
+		_product = [p.singular_sequences for p in _product if p is not None]
+
+		return [Lexeme(*ss)
+				for ss in itertools.product(*_product)]
 
 
 	@property
diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index 6511a30..eec8208 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -59,8 +59,6 @@ class Word(USL):
 
     def _compute_singular_sequences(self):
         sfun_ss = self.syntagmatic_fun.singular_sequences(context_type=self.context_type)
-        if len(sfun_ss) == 1:
-            return [self]
 
         return [Word(sfun, self.role, self.context_type) for sfun in sfun_ss]
 
-- 
2.43.0

