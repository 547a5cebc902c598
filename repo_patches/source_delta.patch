From ad94c9dcb8af90cb95e1b5ff2fd55838b2d55eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/41] fix: names and tags of a collection list only those its
 matches have

---
 rebulk/match.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..3bd42cb 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -764,7 +764,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         Retrieve all names.
         :return:
         """
-        return self._name_dict.keys()
+        # the index keeps a key once looked up or emptied
+        return {name: None for name, matches in self._name_dict.items() if matches}.keys()
 
     @property
     def tags(self) -> KeysView[str]:
@@ -772,7 +773,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         Retrieve all tags.
         :return:
         """
-        return self._tag_dict.keys()
+        return {tag: None for tag, matches in self._tag_dict.items() if matches}.keys()
 
     @overload
     def to_dict(
-- 
2.43.0


From a908deb8db126403e872da96b695a92f6ba02f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/41] fix: at_index returns a list of its own, not the
 internal index entry

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3bd42cb..fd67b44 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -756,7 +756,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict[pos]), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
-- 
2.43.0


From a26957911ecbf3389e693c69d3e79b1344a84c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 03/41] fix: forget the removed match itself in indexes, not an
 equal one, and let max_end shrink

---
 rebulk/match.py | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index fd67b44..ec37b21 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -101,7 +101,6 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     _base = list
     _base_add = _base.append
-    _base_remove = _base.remove
     _base_extend = _base.extend
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
@@ -184,26 +183,51 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 _BaseMatches._base_add(self._index_dict[index], match)
         self._max_end = max(self._max_end, match.end)
 
+    def _reset_indexes(self) -> None:
+        """
+        Forget lookup indexes (they are built again on demand, in collection order) and compute the maximum end.
+        """
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
+
+    @staticmethod
+    def _index_remove(entries: list[Match], match: Match) -> None:
+        """
+        Remove the given match object, not one that is only equal to it.
+        """
+        for position, entry in enumerate(entries):
+            if entry is match:
+                del entries[position]
+                return
+
     def _remove_match(self, match: Match) -> None:
         """
         Remove a match
         :param match:
         :type match: Match
         """
+        if any(other is match for other in self._delegate):
+            # the same object is still there: which occurrence left matters for the order
+            self._reset_indexes()
+            return
         if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
+            self._index_remove(self._name_dict[match.name], match)
         if self.__tag_dict is not None:
             for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
+                self._index_remove(self._tag_dict[tag], match)
         if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
+            self._index_remove(self._start_dict[match.start], match)
         if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
+            self._index_remove(self._end_dict[match.end], match)
         if self.__index_dict is not None:
             for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+                self._index_remove(self._index_dict[index], match)
+        if match.end >= self._max_end:
+            self._max_end = max((other.end for other in self._delegate), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
-- 
2.43.0


From d053f67d20e02cffae5f1180d175718215436756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/41] fix: replacing or inserting matches keeps lookup
 indexes coherent

---
 rebulk/match.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index ec37b21..0da0118 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -981,12 +981,15 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
-        self._delegate[index] = match  # type: ignore[index,assignment]
-        if isinstance(index, slice):
-            for match_item in match:  # type: ignore[union-attr]
-                self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+        added = list(match) if isinstance(index, slice) else [match]  # type: ignore[arg-type]
+        updated = list(self._delegate)
+        updated[index] = added if isinstance(index, slice) else added[0]  # type: ignore[index,assignment]
+        try:
+            for match_item in added:
+                self._add_match(match_item)  # type: ignore[arg-type]
+            self._delegate = updated
+        finally:
+            self._reset_indexes()
 
     def __delitem__(self, index: int | slice) -> None:
         match = self._delegate[index]
@@ -1002,8 +1005,11 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
-        self._delegate.insert(index, value)
         self._add_match(value)
+        at_end = index >= len(self._delegate)
+        self._delegate.insert(index, value)
+        if not at_end:
+            self._reset_indexes()
 
 
 class Matches(_BaseMatches):
-- 
2.43.0


From eec32c2cbeb202ec024469661217218aee7c4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 05/41] fix: holes never returns an empty or negative hole

---
 rebulk/match.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index 0da0118..87b99df 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -682,6 +682,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if ret and hole:
             # go the the next starting element ...
             ret[-1].end = min(self._hole_end(rindex, ignore), end)
+        # the scan begins before the range: a hole closed at or before its start is none
+        ret = [found for found in ret if found.end > found.start]
         return filter_index(ret, predicate, index)
 
     @overload
-- 
2.43.0


From dc2dc402ad70f6bad57100eca7edefd9895f173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 06/41] fix: a slice of markers is a collection of markers

---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 87b99df..48edec2 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -862,7 +862,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            return self.__class__(ret)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1034,7 +1034,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _add_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From f213de240a2fb574f56dea0fe1d0afce0ab22bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 07/41] fix: RemoveMatch removes the very match designated, not
 the first equal one

---
 rebulk/rules.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..fab9f42 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -19,7 +19,7 @@ if TYPE_CHECKING:
     from collections.abc import Iterator
     from types import ModuleType
 
-    from .match import Matches
+    from .match import Match, Matches
 
 log = getLogger(__name__).log
 
@@ -131,6 +131,20 @@ class Rule(CustomRule):
             cons.then(matches, when_response, context)
 
 
+def _remove_match(matches: Matches, match: Match) -> bool:
+    """
+    Remove given match object from matches, or the first equal one if this very object is absent.
+    """
+    for index, other in enumerate(matches):
+        if other is match:
+            del matches[index]
+            return True
+    if match in matches:
+        matches.remove(match)
+        return True
+    return False
+
+
 class RemoveMatch(Consequence):
     """
     Remove matches returned by then
@@ -141,12 +155,10 @@ class RemoveMatch(Consequence):
             ret = []
             when_response = list(when_response)
             for match in when_response:
-                if match in matches:
-                    matches.remove(match)
+                if _remove_match(matches, match):
                     ret.append(match)
             return ret
-        if when_response in matches:
-            matches.remove(when_response)
+        if _remove_match(matches, when_response):
             return when_response
         return None
 
-- 
2.43.0


From 0720005890ba0c3a2682916b9473fdd95c0f05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 08/41] fix: a match has its own list of tags, not the list of
 its pattern

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 48edec2..639e6d0 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1066,7 +1066,7 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From d05744bd5dcaa61f88e2fb3fe2b6b7e212165182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 09/41] fix: AppendMatch neither renames a match already there
 nor adds one equal to another

---
 rebulk/rules.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index fab9f42..eb0a0b6 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -176,19 +176,26 @@ class AppendMatch(Consequence):
             ret = []
             when_response = list(when_response)
             for match in when_response:
-                if match not in matches:
-                    if self.match_name:
-                        match.name = self.match_name
-                    matches.append(match)
+                if self._append(matches, match):
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
-        if when_response not in matches:
-            matches.append(when_response)
+        if self._append(matches, when_response):
             return when_response
         return None
 
+    def _append(self, matches: Matches, match: Match) -> bool:
+        """
+        Append a single match, unless it is already there or equals another once named.
+        """
+        if any(other is match for other in matches):
+            return False
+        if self.match_name:
+            match.name = self.match_name
+        if match in matches:
+            return False
+        matches.append(match)
+        return True
+
 
 class RenameMatch(Consequence):
     """
-- 
2.43.0


From 1865c00601e5bc0665bf04ea1e40272976f2f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 10/41] fix: loading a module registers its rule classes only

---
 rebulk/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index eb0a0b6..81df33f 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -304,7 +304,7 @@ class Rules(list[CustomRule]):
         """
 
         def predicate(member: Any) -> Any:
-            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
+            return inspect.isclass(member) and member.__module__ == module.__name__ and issubclass(member, CustomRule)
 
         for _name, obj in inspect.getmembers(module, predicate):
             self.load_class(obj)
-- 
2.43.0


From c1433d4d6f404b05add5029e53ca955787ad373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 11/41] fix: a dependency given as an instance never runs a
 rule twice nor fails when absent

---
 rebulk/rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 81df33f..5eda395 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -397,8 +397,7 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
+                dependency = class_dict.get(dependency if inspect.isclass(dependency) else dependency.__class__)
                 if dependency:
                     dependencies.add(dependency)
         graph[rule] = dependencies
-- 
2.43.0


From 51b219e02d8771c2266902ebbfca1edd9718e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 12/41] fix: rules of one class at several priorities keep
 their own registration position

---
 rebulk/rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 5eda395..8bdd761 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -333,10 +333,11 @@ class Rules(list[CustomRule]):
         :rtype:
         """
         ret: list[tuple[CustomRule, Any]] = []
+        positions = {id(rule): position for position, rule in enumerate(self)}
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
             sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                sorted_group = sorted(rules_group, key=lambda rule: positions[id(rule)])  # Sort rules group based on initial ordering.
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From f391c4bbbb63e11508d86911a919f2023034617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 13/41] fix: toposort leaves the sets of its input unmodified

---
 rebulk/toposort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..a641d71 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -42,7 +42,7 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
         return
 
     # Copy the input so as to leave it unmodified.
-    data = data.copy()
+    data = {item: set(dep) for item, dep in data.items()}
 
     # Ignore self dependencies.
     for k, v in data.items():
-- 
2.43.0


From 9d1bf2647b4f59c4ce81642372af170d3ef6f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 14/41] fix: a private match never hides the conflict with an
 equal public one

---
 rebulk/processors.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rebulk/processors.py b/rebulk/processors.py
index 8266210..20ea212 100644
--- a/rebulk/processors.py
+++ b/rebulk/processors.py
@@ -61,17 +61,14 @@ class ConflictSolver(Rule):
     def when(self, matches: Matches, context: dict[str, Any] | None) -> Any:
         to_remove_matches = IdentitySet()
 
-        public_matches = [match for match in matches if not match.private]
-        public_matches.sort(key=len)
+        public = matches.__class__([match for match in matches if not match.private])
+        public_matches = sorted(public, key=len)
 
         for match in public_matches:
-            conflicting_matches = matches.conflicting(match)
+            conflicting_matches = public.conflicting(match)
 
             if conflicting_matches:
                 # keep the match only if it's the longest
-                conflicting_matches = [
-                    conflicting_match for conflicting_match in conflicting_matches if not conflicting_match.private
-                ]
                 conflicting_matches.sort(key=len)
 
                 for conflicting_match in conflicting_matches:
-- 
2.43.0


From 1599699be998e4b9b6a77b89c88076df77c92b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 15/41] fix: marker patterns may have groups and chain parts:
 children of a match may be markers

---
 rebulk/chain.py |  6 +++---
 rebulk/match.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..9bafec2 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -9,7 +9,7 @@ import itertools
 from typing import TYPE_CHECKING, Any, Literal, cast, overload
 
 from .loose import call
-from .match import Match, Matches
+from .match import Children, Match, Matches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
 
@@ -143,7 +143,7 @@ class Chain(Pattern):
             )
 
             if last_pattern_groups:
-                original_children = Matches(match.children)
+                original_children = Children(match.children)
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
@@ -179,7 +179,7 @@ class Chain(Pattern):
         return match
 
     def _chain_breaker_eval(self, matches: list[Match]) -> bool:
-        return not self.chain_breaker or not self.chain_breaker(Matches(matches))
+        return not self.chain_breaker or not self.chain_breaker(Children(matches))
 
     @staticmethod
     def _fix_matches_offset(chain_part_matches: Iterable[Match], input_string: str, offset: int) -> None:
diff --git a/rebulk/match.py b/rebulk/match.py
index 639e6d0..afa023d 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1028,6 +1028,15 @@ class Matches(_BaseMatches):
         super()._add_match(match)
 
 
+class Children(Matches):
+    """
+    A custom list[Match] containing children of a match, that are markers when the match is a marker.
+    """
+
+    def _add_match(self, match: Match) -> None:
+        super(Matches, self)._add_match(match)
+
+
 class Markers(_BaseMatches):
     """
     A custom list[Match] containing markers list.
@@ -1094,7 +1103,7 @@ class Match:
         Children matches.
         """
         if self._children is None:
-            self._children = Matches(None, self.input_string)
+            self._children = Children(None, self.input_string)
         return self._children
 
     @children.setter
-- 
2.43.0


From 5b7c836e086147d4444f0fa999f6dbd217761c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 16/41] fix: an empty string pattern matches nothing instead of
 never ending

---
 rebulk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..15fda23 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -55,7 +55,7 @@ def find_all(
     if ignore_case:
         sub = sub.lower()
         string = string.lower()
-    while True:
+    while sub:
         start = string.find(sub, start, end)
         if start == -1:
             return
-- 
2.43.0


From 495136bbf50c5808a6b3f069da3eb8ecb46afbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 17/41] fix: ignore_case keeps positions of the original string
 when lower casing changes its length

---
 rebulk/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 15fda23..d62ddb6 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -12,6 +12,15 @@ from typing import Any, TypeVar
 _T = TypeVar("_T")
 
 
+def _lower(string: str) -> str:
+    """
+    Lower case of each character of a string, keeping characters whose lower case is not a single character.
+    """
+    if string.isascii():
+        return string.lower()
+    return "".join(lower if len(lower) == 1 else char for char in string for lower in (char.lower(),))
+
+
 def find_all(
     string: str,
     sub: str,
@@ -53,8 +62,8 @@ def find_all(
     :rtype: __generator[str]
     """
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        sub = _lower(sub)
+        string = _lower(string)
     while sub:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From 086071e2b99bb2157f912e84d3a4e0f03dc058a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 18/41] fix: options returned by a functional pattern are left
 unmodified

---
 rebulk/pattern.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..05bb505 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -564,12 +564,9 @@ class FunctionalPattern(Pattern):
                 args_iterable = ret
             for args in args_iterable:
                 if isinstance(args, dict):
-                    options = args
+                    options = {**self._match_kwargs, **args}
                     options.pop("input_string", None)
                     options.pop("pattern", None)
-                    if self._match_kwargs:
-                        options = self._match_kwargs.copy()
-                        options.update(args)
                     match = Match(pattern=self, input_string=input_string, **options)
                     if match:
                         yield match
-- 
2.43.0


From 37a24bf607a50c50f5646cf3b677dc21a1ce741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 19/41] fix: after a failed attempt a chain is searched again
 from the end of its first constituent

---
 rebulk/chain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 9bafec2..8762a34 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -62,6 +62,7 @@ class Chain(Pattern):
             chain_found = False
             current_chain_matches: list[Match] = []
             valid_chain = True
+            restart_offset: int | None = None
             for chain_part in self.parts:
                 try:
                     chain_part_matches, raw_chain_part_matches = chain_part.matches(
@@ -78,10 +79,13 @@ class Chain(Pattern):
                         offset,
                         current_chain_matches,
                     )
+                    if restart_offset is None and raw_chain_part_matches:
+                        restart_offset = raw_chain_part_matches[0].raw_end
                 except _InvalidChainException:
                     valid_chain = False
-                    if current_chain_matches:
-                        offset = current_chain_matches[0].raw_end
+                    if restart_offset is not None:
+                        offset = restart_offset
+                        chain_input_string = input_string[offset:]
                     break
             if not chain_found:
                 break
-- 
2.43.0


From 226924561265c121f35e90fbbf035d5d683caebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 20/41] fix: repeater {n} means exactly n repetitions

---
 rebulk/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 8762a34..3ff0e44 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -390,10 +390,10 @@ class ChainPart(BasePattern):
             self.repeater_start = 0
             self.repeater_end = 1
         else:
-            match = re.match(r"\{\s*(\d*)\s*,?\s*(\d*)\s*\}", value)
+            match = re.match(r"\{\s*(\d*)\s*(,?)\s*(\d*)\s*\}", value)
             if match:
                 start = match.group(1)
-                end = match.group(2)
+                end = match.group(3) if match.group(2) else start
                 if start or end:
                     self.repeater_start = int(start) if start else 0
                     self.repeater_end = int(end) if end else None
-- 
2.43.0


From c06210bd94891a03c5b78d59a7913211c545ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 21/41] fix: an occurrence dropped or replaced by
 pre_match_processor keeps its own rank in a chain part

---
 rebulk/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 05bb505..88f1db0 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -334,6 +334,8 @@ class Pattern(BasePattern, metaclass=ABCMeta):
         :param match_index:
         :return: Process and dispatched matches.
         """
+        self._process_match_index(match, match_index)
+
         match = self._process_match_processor(match, self.pre_match_processor)
         if not match:
             return
-- 
2.43.0


From 4558cd96e968e42570ba52240e5d626674a563f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 22/41] fix: too few repetitions of the first part only move
 the search forward, they do not end it

---
 rebulk/chain.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 3ff0e44..584564f 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -24,6 +24,10 @@ class _InvalidChainException(Exception):
     Internal exception raised when a chain is not valid
     """
 
+    def __init__(self, raw_matches: list[Match]) -> None:
+        super().__init__()
+        self.raw_matches = raw_matches
+
 
 class Chain(Pattern):
     """
@@ -81,8 +85,11 @@ class Chain(Pattern):
                     )
                     if restart_offset is None and raw_chain_part_matches:
                         restart_offset = raw_chain_part_matches[0].raw_end
-                except _InvalidChainException:
+                except _InvalidChainException as invalid:
                     valid_chain = False
+                    if restart_offset is None and invalid.raw_matches:
+                        chain_found = True
+                        restart_offset = offset + invalid.raw_matches[0].raw_end
                     if restart_offset is not None:
                         offset = restart_offset
                         chain_input_string = input_string[offset:]
@@ -308,7 +315,7 @@ class ChainPart(BasePattern):
         if matches:
             max_match_index = max(m.match_index for m in matches)
         if max_match_index + 1 < self.repeater_start:
-            raise _InvalidChainException
+            raise _InvalidChainException(matches)
 
     def chain(self) -> ChainBuilder:
         """
-- 
2.43.0


From f34c46ba73c5305b3f7fca81e62f2caa7c12e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 23/41] fix: matches substituted by post_match_processor keep
 the rank of their occurrence in a chain part

---
 rebulk/pattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 88f1db0..7b6d866 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -351,6 +351,9 @@ class Pattern(BasePattern, metaclass=ABCMeta):
         if not match:
             return
 
+        for processed in (match, *match.children):
+            self._process_match_index(processed, match_index)
+
         if (self._should_include_parent or self.private_parent) and match.name not in self.ignore_names:
             yield match
         if self._should_include_children or self.private_children:
-- 
2.43.0


From 9902a90de46ba95ef63eb2e16d5cbc56bf4e7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 24/41] fix: a chain match is never shortened to nothing, which
 made an enclosing chain search forever

---
 rebulk/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 584564f..f86d925 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -161,7 +161,9 @@ class Chain(Pattern):
                     last_matches = last_pattern_groups[index]
                     for last_match in last_matches:
                         match.children.remove(last_match)
-                    match.end = match.children[-1].end if match.children else match.start
+                    if not match.children:
+                        break
+                    match.end = match.children[-1].end
                     ret = super()._process_match(match, match_index, child=child)
                     if ret:
                         return True
-- 
2.43.0


From d1778db65b586529f1c332d8eddd420e063c3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 25/41] fix: a chain giving up its trailing nested chain gives
 up the members of it as well

---
 rebulk/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index f86d925..ef36df1 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -12,6 +12,7 @@ from .loose import call
 from .match import Children, Match, Matches
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
+from .utils import IdentitySet
 
 if TYPE_CHECKING:
     from collections.abc import Callable, Iterable, Iterator
@@ -159,8 +160,10 @@ class Chain(Pattern):
 
                 for index in reversed(list(last_pattern_groups)):
                     last_matches = last_pattern_groups[index]
+                    dropped = IdentitySet(last_matches)
                     for last_match in last_matches:
-                        match.children.remove(last_match)
+                        dropped.update(last_match.children)
+                    match.children = Children([child_ for child_ in match.children if child_ not in dropped])
                     if not match.children:
                         break
                     match.end = match.children[-1].end
-- 
2.43.0


From 9c3decc4e87e0fa8a98ed000d2d230a7161598e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 26/41] fix: merging defaults never modifies the option dicts
 of the caller, of other patterns or of defaults

---
 rebulk/loose.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..a7785cf 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -181,11 +181,21 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     """
     if "clear" in defaults and defaults.pop("clear"):
         kwargs.clear()
+    _merge_defaults(defaults, kwargs, override)
+
+
+def _merge_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: bool = False) -> None:
+    """
+    Merge defaults into kwargs. Nested lists and dicts are merged into new objects: those of defaults and kwargs may
+    belong to the caller or to other patterns.
+    """
     for key, value in defaults.items():
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
-                set_defaults(value, kwargs[key])
+                merged = dict(kwargs[key])
+                _merge_defaults(value, merged)
+                kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From d66ef61375abe460672a1ad549549c234f718d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 27/41] fix: abbreviations are substituted in a copy of the
 dict describing an expression

---
 rebulk/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 7b6d866..d99baeb 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -484,6 +484,7 @@ class RePattern(Pattern):
                         pattern = pattern.replace(key, replacement)
                 pattern = call(re.compile, pattern, **self._kwargs)
             elif isinstance(pattern, dict):
+                pattern = dict(pattern)
                 if self.abbreviations and "pattern" in pattern:
                     for key, replacement in self.abbreviations:
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
-- 
2.43.0


From 4179aa5382d7809a92edb41f8f73daea7225e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 28/41] fix: a constituent equal to another one is still a
 child of the chain match

---
 rebulk/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index ef36df1..c9ecb2e 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -189,7 +189,7 @@ class Chain(Pattern):
             if chain_match.children:
                 for child in chain_match.children:
                     match.children.append(child)
-            if chain_match not in match.children:
+            if not any(child is chain_match for child in match.children):
                 match.children.append(chain_match)
                 chain_match.parent = match
         return match
-- 
2.43.0


From f155fbeca4e51e6feeeb9eb775ef964196884bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 29/41] fix: to_dict leaves list values of matches unmodified

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index afa023d..ae80ac7 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -836,7 +836,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     else:
                         if value in ret[match.name]:
                             continue
-                    ret[match.name].append(value)
+                    # a list of its own: the value of a match may be a list, which is left unmodified
+                    ret[match.name] = [*ret[match.name], value]
             else:
                 if enforce_list and not isinstance(value, list):
                     ret[match.name] = [value]
-- 
2.43.0


From 7f1c3a2c0d124b01ea9e109cf3c6eab52f8b6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 30/41] fix: Matches.to does not pass fields that are no
 argument of the dataclass

---
 rebulk/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index ae80ac7..3f78ab4 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -912,7 +912,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return cast("M", [match.value for match in self])
         if dataclasses.is_dataclass(model):
             hints = get_type_hints(model)
-            field_names: Iterable[str] = [data_field.name for data_field in dataclasses.fields(model)]
+            field_names: Iterable[str] = [
+                data_field.name for data_field in dataclasses.fields(model) if data_field.init
+            ]
         elif is_typeddict(model):
             hints = get_type_hints(model)
             field_names = hints
-- 
2.43.0


From 5f59c14658d98d9e16efa5b2d22d01d64866233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 31/41] fix: a rule keeps the log level it is given

---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 8bdd761..d4ab43c 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From 1de56ade56fc6d9af8431632580ea5c85b7b412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 32/41] fix: a literal value given for one name hides no other
 name from introspection

---
 rebulk/introspector.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/rebulk/introspector.py b/rebulk/introspector.py
index caf95f0..aa8f4d2 100644
--- a/rebulk/introspector.py
+++ b/rebulk/introspector.py
@@ -10,9 +10,11 @@ from collections import defaultdict
 from typing import TYPE_CHECKING, Any, cast
 
 from .pattern import FunctionalPattern, Pattern, RePattern, StringPattern
-from .utils import extend_safe
+from .utils import extend_safe, get_first_defined
 
 if TYPE_CHECKING:
+    from collections.abc import Sequence
+
     from .rebulk import Rebulk
     from .rules import CustomRule
 
@@ -46,28 +48,30 @@ class PatternDescription(Description):
                 extend_safe(self._properties[key], values)
         else:
             # A `value=` given to the pattern is stored in `pattern.values` (keyed by match
-            # name, or `None` for the default), not in `match_options`. When set, it is the
-            # introspected property value.
-            pattern_values = {
-                (value_name if value_name else pattern.name): value
-                for value_name, value in pattern.values.items()
-                if value is not None
-            }
-            if pattern_values:
-                for value_key, value in pattern_values.items():
-                    extend_safe(self._properties[cast("str", value_key)], [value])
-            elif isinstance(pattern, StringPattern):
-                extend_safe(self._properties[cast("str", pattern.name)], pattern.patterns)
+            # name or role, or `None` for the default), not in `match_options`. When set for
+            # a match, it is the introspected property value.
+            for value_name, value in pattern.values.items():
+                if value is not None and value_name not in (None, "__parent__", "__children__"):
+                    extend_safe(self._properties[value_name], [value])
+            if isinstance(pattern, StringPattern):
+                self._describe(pattern.name, "__parent__", pattern.patterns)
             elif isinstance(pattern, RePattern):
                 if pattern.name and pattern.name not in pattern.private_names:
-                    extend_safe(self._properties[pattern.name], [None])
+                    self._describe(pattern.name, "__parent__", [None])
                 if not pattern.private_children:
                     for regex_pattern in pattern.patterns:
                         for group_name in regex_pattern.groupindex:
                             if group_name not in pattern.private_names:
-                                extend_safe(self._properties[group_name], [None])
+                                self._describe(group_name, "__children__", [None])
             elif isinstance(pattern, FunctionalPattern) and pattern.name and pattern.name not in pattern.private_names:
-                extend_safe(self._properties[pattern.name], [None])
+                self._describe(pattern.name, "__parent__", [None])
+
+    def _describe(self, name: str | None, role: str, values: Sequence[Any]) -> None:
+        """
+        Add property values of matches of given name and role, unless a literal value is configured for them.
+        """
+        value = get_first_defined(self.pattern.values, [name, role, None] if name else [role, None])
+        extend_safe(self._properties[cast("str", name)], values if value is None else [value])
 
     @property
     def properties(self) -> dict[str, list[Any]]:
-- 
2.43.0


From f7e7ff8bb303c4d560eef766eb07ca9179ef27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 33/41] fix: introspection describes the names chains emit

---
 rebulk/introspector.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rebulk/introspector.py b/rebulk/introspector.py
index aa8f4d2..a173391 100644
--- a/rebulk/introspector.py
+++ b/rebulk/introspector.py
@@ -9,6 +9,7 @@ from abc import ABCMeta, abstractmethod
 from collections import defaultdict
 from typing import TYPE_CHECKING, Any, cast
 
+from .chain import Chain
 from .pattern import FunctionalPattern, Pattern, RePattern, StringPattern
 from .utils import extend_safe, get_first_defined
 
@@ -65,6 +66,15 @@ class PatternDescription(Description):
                                 self._describe(group_name, "__children__", [None])
             elif isinstance(pattern, FunctionalPattern) and pattern.name and pattern.name not in pattern.private_names:
                 self._describe(pattern.name, "__parent__", [None])
+            elif isinstance(pattern, Chain):
+                if pattern.name and pattern.name not in pattern.private_names:
+                    self._describe(pattern.name, "__parent__", [None])
+                if not pattern.private_children:
+                    for part in pattern.parts:
+                        if not (part.is_hidden or part.pattern.private or part.pattern.marker):
+                            for part_name, values in PatternDescription(part.pattern).properties.items():
+                                if part_name and part_name not in pattern.private_names:
+                                    self._describe(part_name, "__children__", values)
 
     def _describe(self, name: str | None, role: str, values: Sequence[Any]) -> None:
         """
-- 
2.43.0


From d521486c9ca95dbf6af3af81b8e6a18cd8a97c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:11 +0000
Subject: [PATCH 34/41] fix: a bound method is given no more arguments than it
 accepts

---
 rebulk/loose.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index a7785cf..0ba96da 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,7 +5,7 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
+from inspect import getfullargspec, isclass, ismethod
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -59,7 +59,8 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    bound = ismethod(callable_) or ismethod(getattr(callable_, "__call__", None))  # first argument is already given
+    return argspec_args(argspec, bound, *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
@@ -85,7 +86,7 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
 
     :param argspec: argspec to use
     :type argspec: argspec
-    :param constructor: is it a constructor ?
+    :param constructor: is it a constructor or a method, given its first argument already ?
     :type constructor: bool
     :param args:
     :type args:
-- 
2.43.0


From de983fc592913df4d8f8f33b839bdc7ad5dc58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 35/41] fix: a parent without length is still the parent of its
 children

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 3f78ab4..f022d82 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1224,7 +1224,7 @@ class Match:
         :rtype:
         """
         match = self
-        while match.parent:
+        while match.parent is not None:
             match = match.parent
         return match
 
-- 
2.43.0


From 8b11080a2aaa74daa98ca85b1e433148a8e0b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 36/41] fix: a slice of a collection keeps its text and
 declared keys

---
 rebulk/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index f022d82..bdd8020 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -863,7 +863,9 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return self.__class__(ret)
+            part = self.__class__(ret, self.input_string)
+            part.declared_keys = self.declared_keys
+            return part
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
-- 
2.43.0


From b40874b80e44bffaaa1d37617d4f875e0832966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 37/41] fix: a chain giving up trailing repetitions keeps the
 minimum of its last part

---
 rebulk/chain.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index c9ecb2e..8d71226 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -157,8 +157,10 @@ class Chain(Pattern):
             if last_pattern_groups:
                 original_children = Children(match.children)
                 original_end = match.end
+                last_part = self._part_of(last_pattern)
+                minimum = last_part.repeater_start if last_part else 0
 
-                for index in reversed(list(last_pattern_groups)):
+                for index in reversed(list(last_pattern_groups)[minimum:]):
                     last_matches = last_pattern_groups[index]
                     dropped = IdentitySet(last_matches)
                     for last_match in last_matches:
@@ -176,6 +178,15 @@ class Chain(Pattern):
 
         return False
 
+    def _part_of(self, pattern: Any) -> ChainPart | None:
+        """
+        Part of this chain giving matches of the pattern, by itself or through chains nested in it.
+        """
+        for part in self.parts:
+            if part.pattern is pattern or (isinstance(part.pattern, Chain) and part.pattern._part_of(pattern)):
+                return part
+        return None
+
     def _build_chain_match(self, current_chain_matches: list[Match], input_string: str) -> Match:
         start: int | None = None
         end: int | None = None
-- 
2.43.0


From 0ce74895457c7acab63eda4f76b6976369e43a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:31 +0000
Subject: [PATCH 38/41] fix: chains use the very functions declared as
 defaults, not copies of them

---
 rebulk/builder.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rebulk/builder.py b/rebulk/builder.py
index 3554d7a..1e72c53 100644
--- a/rebulk/builder.py
+++ b/rebulk/builder.py
@@ -7,7 +7,6 @@ from __future__ import annotations
 
 from abc import ABCMeta, abstractmethod
 from contextlib import contextmanager
-from copy import deepcopy
 from logging import getLogger
 from typing import TYPE_CHECKING, Any, TypeVar
 
@@ -292,11 +291,11 @@ class ChainBuilder(PatternFactory):
         self._chain = chain
 
     def _inherit_defaults(self, source: PatternFactory) -> None:
-        self._defaults = deepcopy(source._defaults)
-        self._regex_defaults = deepcopy(source._regex_defaults)
-        self._functional_defaults = deepcopy(source._functional_defaults)
-        self._string_defaults = deepcopy(source._string_defaults)
-        self._chain_defaults = deepcopy(source._chain_defaults)
+        self._defaults = dict(source._defaults)
+        self._regex_defaults = dict(source._regex_defaults)
+        self._functional_defaults = dict(source._functional_defaults)
+        self._string_defaults = dict(source._string_defaults)
+        self._chain_defaults = dict(source._chain_defaults)
         self._keys = dict(source._keys)
 
     def _add(self, pattern: Any) -> ChainPart:
-- 
2.43.0


From 6d22f1c4c3b298d738655e247b186ac82aba0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:31 +0000
Subject: [PATCH 39/41] fix: pieces and copies of a match share its pattern and
 functions

---
 rebulk/match.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index bdd8020..819e94c 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1319,6 +1319,15 @@ class Match:
 
         return filter_index(ret, predicate, index)
 
+    def __deepcopy__(self, memo: dict[int, Any]) -> Match:
+        # A copy belongs to the very pattern of this match, and its value comes from the very same functions.
+        shared = (self.pattern, self.formatter, self.conflict_solver)
+        memo.update({id(obj): obj for obj in shared})
+        ret = self.__class__.__new__(self.__class__)
+        memo[id(self)] = ret
+        ret.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return ret
+
     def tagged(self, *tags: str) -> bool:
         """
         Check if this match has at least one of the provided tags
-- 
2.43.0


From 0989f6a205842f77611fe62d65f6a0f9801738d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:02 +0000
Subject: [PATCH 40/41] fix: matches of chain parts are moved with the bounds
 of their text

---
 rebulk/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 8d71226..8cd6803 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -215,6 +215,10 @@ class Chain(Pattern):
                 chain_part_match.input_string = input_string
                 chain_part_match.end += offset
                 chain_part_match.start += offset
+                if chain_part_match._raw_start is not None:
+                    chain_part_match._raw_start += offset
+                if chain_part_match._raw_end is not None:
+                    chain_part_match._raw_end += offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
 
-- 
2.43.0


From cfd14e071f7b645bfd67dd9be05385faf4d08024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:39 +0000
Subject: [PATCH 41/41] fix: inserting at an index that is no integer changes
 nothing

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 819e94c..d2cdd5e 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -8,6 +8,7 @@ from __future__ import annotations
 import copy
 import dataclasses
 import itertools
+import operator
 from collections import OrderedDict, defaultdict
 from collections.abc import Callable, Iterable, KeysView, MutableSequence
 from types import UnionType
@@ -1012,8 +1013,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
+        at_end = operator.index(index) >= len(self._delegate)
         self._add_match(value)
-        at_end = index >= len(self._delegate)
         self._delegate.insert(index, value)
         if not at_end:
             self._reset_indexes()
-- 
2.43.0

