From cf2bf3146522850ed0785667a9455914509fba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 01/48] fix: keep all words and escaped characters of JSGF tags

Tags of more than one word and tags with escaped braces could not be parsed,
and compiled tags escaped the backslashes of the escapes themselves.
---
 jsgf/expansions.py |  6 +++---
 jsgf/parser.py     | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..a729886 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -561,9 +561,9 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..9169696 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -243,6 +243,11 @@ def _post_process(tokens):
     return list(map(transform, tokens))
 
 
+def _unescape_tag(text):
+    """Remove the backslashes used to escape characters in tag text."""
+    return re.sub(r"\\([{}\\])", r"\1", text)
+
+
 def _transform_tokens(tokens):
     lst = tokens.asList()
 
@@ -251,6 +256,8 @@ def _transform_tokens(tokens):
         # Remove braces and tag text from the left and assign the text to the
         # expansion on the left.
         i = lst.index("{")
+        j = lst.index("}")
+        tag = _unescape_tag(" ".join(lst[i+1:j]))
 
         # Raise an error if '*' or '+' is found; repeats cannot be tagged like that.
         previous = lst[i-1]
@@ -265,14 +272,11 @@ def _transform_tokens(tokens):
             # Support tagging syntax like 'text {tag1} {tag2} {tag3}' by wrapping
             # the expansion on the left in required groupings.
             previous = RequiredGrouping(previous)
-            previous.tag = lst.pop(i+1)
             lst[i-1] = previous
-        else:
-            previous.tag = lst.pop(i+1)
+        previous.tag = tag
 
-        # Remove both braces from the list.
-        lst.pop(i)
-        lst.pop(i)
+        # Remove the tag text and both braces from the list.
+        del lst[i:j+1]
 
     # Handle repeats by wrapping the preceding item in either a Repeat or
     # KleeneStar expansion.
@@ -384,7 +388,7 @@ def get_exp_parser():
     # Define tag text to one or more words defined by a regular expression.
     # Escaped brace characters ('\{' or '\}') are allowed in tag text.
     tag_text = OneOrMore(
-        Regex(r"([\w\-\\']|\\{|\\})+", re.UNICODE).setName("tag text")
+        Regex(r"(\\[{}\\]|[\w\-\\'])+", re.UNICODE).setName("tag text")
     )
     tag = lcurl + tag_text + rcurl
 
-- 
2.43.0


From 93ed6af3895b7cd6acc64490f08d5fe85959bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 02/48] fix: follow the JSGF precedence rules for weights,
 groups and repeats

A weight belongs to a whole alternative rather than to its first item, a
required grouping at the start of a sequence takes no part of the following
alternatives, and stacked repeat operators are reported as a GrammarError.
---
 jsgf/parser.py | 54 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 9169696..f8e8ff0 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -243,6 +243,12 @@ def _post_process(tokens):
     return list(map(transform, tokens))
 
 
+def _has_leading_weight(e):
+    """Whether the first alternative of a parsed alternative set has a weight."""
+    return (isinstance(e, ParsedAlternativeSet) and
+            any(x is e.children[0] for x in e.weights))
+
+
 def _unescape_tag(text):
     """Remove the backslashes used to escape characters in tag text."""
     return re.sub(r"\\([{}\\])", r"\1", text)
@@ -251,6 +257,16 @@ def _unescape_tag(text):
 def _transform_tokens(tokens):
     lst = tokens.asList()
 
+    # Take off the weight of the first atom, if any. It belongs to the whole of the
+    # alternative that the atom starts.
+    weight = None
+    if isinstance(lst[0], WeightedExpansion):
+        weight = lst[0].weight
+        lst[0] = lst[0].children.pop()
+
+    def with_weight(e):
+        return e if weight is None else WeightedExpansion(e, weight)
+
     # Handle tags.
     while "{" in lst:
         # Remove braces and tag text from the left and assign the text to the
@@ -281,41 +297,41 @@ def _transform_tokens(tokens):
     # Handle repeats by wrapping the preceding item in either a Repeat or
     # KleeneStar expansion.
     if "+" in lst or "*" in lst:
-        cls = Repeat if lst.pop(1) == "+" else KleeneStar
-
-        # Handle weighted expansions by weighting the repeat expansion.
-        if isinstance(lst[0], WeightedExpansion):
-            child = lst[0].children.pop()
-            weight = lst[0].weight
-            lst[0] = WeightedExpansion(cls(child), weight)
-        else:
-            lst[0] = cls(lst[0])
+        lst[0] = (Repeat if lst.pop(1) == "+" else KleeneStar)(lst[0])
+        if "+" in lst or "*" in lst:
+            raise GrammarError("cannot repeat repeats without using parenthesises")
 
     # Handle atoms by returning the only token.
     if len(lst) == 1:
-        return lst[0]
+        return with_weight(lst[0])
 
     # Handle alternative sets.
     elif "|" in lst:
         lst.remove("|")
-        return ParsedAlternativeSet(*lst)
+        return ParsedAlternativeSet(with_weight(lst[0]), *lst[1:])
 
     # Handle sequences.
     elif len(lst) == 2:
+        # Only the first item of an alternative can have a weight.
+        if _has_leading_weight(lst[1]):
+            raise GrammarError("weights can only be used at the start of an "
+                               "alternative")
+
         # If the second expansion is an alternative set, place the first expansion
         # inside a sequence with the first child of the alternative set.
-        # Do not do this if the first expansion is a required grouping.
         # This handles rule expansions like "up <n> | left <n>".
-        RG, AS = RequiredGrouping, AlternativeSet
-        if not isinstance(lst[0], RG) and isinstance(lst[1], AS):
-            child1 = lst[1].children.pop(0)
-            seq = Sequence(lst[0], child1)
-            lst[1].children.insert(0, seq)
-            return lst[1]
+        if isinstance(lst[1], ParsedAlternativeSet):
+            alternatives = list(lst[1].children)
+            weights = list(lst[1].weights.items())
+            lst[1].children.clear()
+            seq, = _post_process([Sequence(lst[0], alternatives[0])])
+            result = ParsedAlternativeSet(with_weight(seq), *alternatives[1:])
+            result.weights = weights
+            return result
 
         # Otherwise return a sequence.
         else:
-            return Sequence(*lst)
+            return with_weight(Sequence(*lst))
 
     raise TypeError("unhandled tokens %s" % lst)
 
-- 
2.43.0


From 14eee9285ee5460e426892fd75775767bd50b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 03/48] fix: put parenthesises around tagged sequences when
 compiling them

The tag of a sequence of several parts was compiled as a tag of the last part.
---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a729886..ff3d3ec 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1308,8 +1308,11 @@ class Sequence(VariableChildExpansion):
             e.compile(ignore_tags) for e in self.children
         ])
 
-        # Return the sequence and the tag if there is one
+        # Return the sequence and the tag if there is one. Use parenthesises if the
+        # tag would otherwise only be attached to the last part of the sequence.
         if self.tag and not ignore_tags:
+            if len(self.children) > 1 or self.children[0].children:
+                seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
         else:
             return seq
-- 
2.43.0


From fed6c4b1f689fca0981a15f3e9961a76148fd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 04/48] fix: accept ',' and '=' in names as documented

---
 jsgf/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..c622e6c 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -18,7 +18,7 @@ reserved_names = Combine(PPLiteral("NULL") ^ PPLiteral("VOID"))
 
 # This will match one or more alphanumeric Unicode characters and/or any of the
 # following special characters: +-:;,=|/\()[]@#%!^&~$
-base_name = Regex(r"[\w\+\-;:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+base_name = Regex(r"[\w\+\-;:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 
 # A qualified name is a base name plus one or more base names joined by dots,
@@ -37,7 +37,7 @@ import_name = Combine((qualified_name + Optional(".*")) ^ (base_name + ".*"))
 # Grammar names cannot include semicolons because the declared grammar name parser
 # will gobble any semicolon after the name that isn't separated by whitespace,
 # leading to a parser error.
-_grammar_base_name = Regex(r"[\w\+\-:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+_grammar_base_name = Regex(r"[\w\+\-:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 grammar_name = Combine(_grammar_base_name ^ Combine(
     _grammar_base_name + OneOrMore("." + _grammar_base_name)))\
-- 
2.43.0


From 92310be37eb4d24bc657ad2060c0c0fce1bd4b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 05/48] fix: reject whitespace around names and reserved
 grammar names

Names with surrounding whitespace were accepted but do not survive compiling,
and the documentation states that NULL and VOID cannot be grammar names.
---
 jsgf/expansions.py |  2 +-
 jsgf/grammars.py   |  5 +++--
 jsgf/references.py | 18 +++++++++++++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index ff3d3ec..e65b9d8 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1108,7 +1108,7 @@ class BaseExpansionRef(references.BaseRef, Expansion):
 
     @staticmethod
     def valid(name):
-        return references.optionally_qualified_name.matches(name)
+        return references.matches_name(references.optionally_qualified_name, name)
 
     def compile(self, ignore_tags=False):
         self.validate_compilable()
diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..cedd9ac 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -178,7 +178,7 @@ class Import(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.import_name.matches(name)
+        return references.matches_name(references.import_name, name)
 
 
 class Grammar(references.BaseRef):
@@ -233,7 +233,8 @@ class Grammar(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.grammar_name.matches(name)
+        return (references.matches_name(references.grammar_name, name) and
+                not references.reserved_names.matches(name))
 
     @property
     def case_sensitive(self):
diff --git a/jsgf/references.py b/jsgf/references.py
index c622e6c..39f79d1 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -44,6 +44,21 @@ grammar_name = Combine(_grammar_base_name ^ Combine(
     .setName("grammar name")
 
 
+def matches_name(element, name):
+    """
+    Whether a name is matched by a parser element.
+
+    Parser elements skip whitespace around what they match, but whitespace is not
+    allowed in names.
+
+    :param element: pyparsing.ParserElement
+    :param name: str
+    :returns: bool
+    """
+    text = "%s" % (name,)
+    return text == text.strip() and element.matches(text)
+
+
 class BaseRef(object):
     """
     Base class for JSGF rule and grammar references.
@@ -96,4 +111,5 @@ class BaseRef(object):
         :param name: str
         :returns: bool
         """
-        return base_name.matches(name) and not reserved_names.matches(name)
+        return (matches_name(base_name, name) and
+                not reserved_names.matches(name))
-- 
2.43.0


From 2ca1988f099444ae0430249eca3306671974d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 06/48] fix: allow comments after the last statement of a
 grammar

---
 jsgf/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index f8e8ff0..89bcc3e 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -502,7 +502,7 @@ def get_grammar_parser():
     # Define the grammar parser element, then set its name and parse action.
     parser = (header_line + name_line + ZeroOrMore(import_statement) +
               OneOrMore(rule_parser))
-    parser.setName("grammar").setParseAction(_make_grammar)
+    parser.setName("grammar").setParseAction(_make_grammar).ignore(cppStyleComment)
     return parser
 
 
-- 
2.43.0


From f02b4289c0abeda812634be26aedc716fc6dbcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 07/48] fix: only set matching slices for expansions that are
 part of the match

The post-parse function also ran for alternatives that were tried and not
chosen, and its end location could include trailing whitespace.
---
 jsgf/expansions.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e65b9d8..54c5151 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -740,8 +740,13 @@ class Expansion(object):
             element = self._matcher_element
         return element
 
-    def _parse_action(self, tokens):
-        self.current_match = " ".join(tokens.asList())
+    def _parse_action(self, instring, loc, tokens):
+        match = " ".join(tokens.asList())
+        self.current_match = match
+
+        # Skip any whitespace before the match.
+        start = len(instring) - len(instring[loc:].lstrip())
+        self.matching_slice = slice(start, start + len(match))
         return tokens
 
     def _make_matcher_element(self):
@@ -756,25 +761,6 @@ class Expansion(object):
         # Set the ParserElement's action.
         element.setParseAction(self._parse_action)
 
-        # Save the element's original postParse function.
-        closure = element.postParse
-
-        # Set a new function and use the original function for returning values.
-        def postParse(instring, loc, tokenlist):
-            if isinstance(tokenlist, pyparsing.ParseResults):
-                s = " ".join(tokenlist.asList())
-            elif isinstance(tokenlist, list):
-                s = "".join(tokenlist)
-            elif isinstance(tokenlist, string_types):
-                s = tokenlist
-            else:
-                raise TypeError("postParse received invalid tokenlist %s"
-                                % tokenlist)
-            self.matching_slice = slice(loc - len(s), loc)
-            return closure(instring, loc, tokenlist)
-
-        element.postParse = postParse
-
         # Return the element.
         return element
 
@@ -1552,9 +1538,9 @@ class Repeat(SingleChildExpansion):
         else:
             return []
 
-    def _parse_action(self, tokens):
+    def _parse_action(self, instring, loc, tokens):
         # Call the super method to set current_match.
-        super(Repeat, self)._parse_action(tokens)
+        super(Repeat, self)._parse_action(instring, loc, tokens)
 
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
-- 
2.43.0


From 98fb532ca7e1c35887a04088699c8bd75e5262ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 08/48] fix: only match whole words and ignore extra whitespace
 in speech

---
 jsgf/expansions.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 54c5151..3bba877 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -394,6 +394,25 @@ class ChildList(object):
         self._list[i].parent = self._expansion
 
 
+class _WholeWords(object):
+    """
+    Mixin class for pyparsing literals that only match whole words.
+    """
+    def parseImpl(self, instring, loc, doActions=True):
+        end, result = super(_WholeWords, self).parseImpl(instring, loc, doActions)
+        if instring[:loc][-1:].strip() or instring[end:end + 1].strip():
+            raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+        return end, result
+
+
+class _WordsLiteral(_WholeWords, pyparsing.Literal):
+    pass
+
+
+class _CaselessWordsLiteral(_WholeWords, pyparsing.CaselessLiteral):
+    pass
+
+
 class Expansion(object):
     """
     Expansion base class.
@@ -669,8 +688,9 @@ class Expansion(object):
         :param speech: str
         :returns: str
         """
-        # Match the string using this expansion's parser element.
-        speech = speech.strip()
+        # Match the string using this expansion's parser element. Ensure that there
+        # is only one space between words.
+        speech = " ".join(speech.split())
         try:
             result = " ".join(
                 self.matcher_element.parseString(speech).asList()
@@ -1426,12 +1446,15 @@ class Literal(Expansion):
         return re.compile(r"\s+".join(words))
 
     def _make_matcher_element(self):
-        # Return a case-sensitive or case-insensitive pyparsing Literal element.
-        text = self._text
-        if self.case_sensitive:
+        # Return a case-sensitive or case-insensitive pyparsing Literal element that
+        # matches the words of the text.
+        text = " ".join(self._text.split())
+        if not text:
             matcher_cls = pyparsing.Literal
+        elif self.case_sensitive:
+            matcher_cls = _WordsLiteral
         else:
-            matcher_cls = pyparsing.CaselessLiteral
+            matcher_cls = _CaselessWordsLiteral
         return self._set_matcher_element_attributes(matcher_cls(text))
 
     def __eq__(self, other):
-- 
2.43.0


From fa828061b01b4cdbe260dda044f02ceb73bc4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 09/48] fix: keep the case of speech when finding parts
 matching case-sensitive rules

---
 jsgf/rules.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..36fec8b 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -270,9 +270,11 @@ class Rule(references.BaseRef):
         if not self._active:
             return None
 
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip().lower()
+        # Ensure that there is only one space between words. Case only matters if the
+        # rule is case sensitive.
+        speech = " ".join(speech.split())
+        if not self.case_sensitive:
+            speech = speech.lower()
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
-- 
2.43.0


From b8efcd2097d899870557e3d2e7437f80a3bd5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 10/48] fix: match childless sequences like the <NULL> they are
 compiled to

---
 jsgf/expansions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3bba877..547f7b3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1324,6 +1324,10 @@ class Sequence(VariableChildExpansion):
             return seq
 
     def _make_matcher_element(self):
+        # Without children, this is compiled as <NULL>.
+        if not self.children:
+            return self._set_matcher_element_attributes(pyparsing.Empty())
+
         # Return an And element using each child's matcher element.
         return self._set_matcher_element_attributes(pyparsing.And([
             child.matcher_element for child in self.children
-- 
2.43.0


From 2f4f0bfddcb52994978ddbb255549c0e4c8cf4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 11/48] fix: do not hang or keep stale data when matching
 optionals and repeats

Repeating an expansion that may match nothing never finished, data of
incomplete repetitions and optionals was kept and a required repeat was
not required inside an optional.
---
 jsgf/expansions.py | 78 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 547f7b3..9e65dad 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -413,6 +413,45 @@ class _CaselessWordsLiteral(_WholeWords, pyparsing.CaselessLiteral):
     pass
 
 
+class _Optional(pyparsing.Optional):
+    """
+    Optional element that only runs parse actions if there is a match.
+    """
+    def parseImpl(self, instring, loc, doActions=True):
+        if doActions and not self.expr.canParseNext(instring, loc):
+            return loc, []
+        return super(_Optional, self).parseImpl(instring, loc, doActions)
+
+
+class _Repetition(pyparsing.OneOrMore):
+    """
+    Repetition element that only runs parse actions for complete repetitions and
+    stops when there is nothing left to match.
+    """
+    def __init__(self, expr, required):
+        super(_Repetition, self).__init__(expr)
+        self.required = required
+
+    def parseImpl(self, instring, loc, doActions=True):
+        result = []
+        required = self.required
+        while True:
+            try:
+                end, tokens = self.expr._parse(instring, loc, doActions=False)
+            except (pyparsing.ParseException, IndexError):
+                if required:
+                    raise
+                break
+            required = False
+            if not tokens:
+                break
+            if doActions:
+                end, tokens = self.expr._parse(instring, loc)
+            result.extend(tokens)
+            loc = end
+        return loc, result
+
+
 class Expansion(object):
     """
     Expansion base class.
@@ -1506,6 +1545,9 @@ class Repeat(SingleChildExpansion):
 
         <repeat> = (please)+ don't crash;
     """
+    # Whether at least one repetition is required.
+    _required = True
+
     def __init__(self, expansion):
         super(Repeat, self).__init__(expansion)
         self._repetitions_matched = []
@@ -1587,32 +1629,32 @@ class Repeat(SingleChildExpansion):
                 self.child.reset_for_new_match()
             return tokens
 
-        # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
-
-        # Determine the parser element type to use.
-        type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
+        # Wrap the child's matcher element and set the extra parse action.
+        child_element = pyparsing.And([self.child.matcher_element])
+        child_element.setParseAction(f)
 
         # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
         rep = self.repetition_ancestor
-        if rep:
+        only_branch = rep is not None and self._required
+        if only_branch:
             # Check if there are no other branches.
             c = rep.child
-            only_branch = True
             while c is not self:
-                if len(c.children) > 1:
+                if len(c.children) != 1:
                     only_branch = False
                     break
-                else:
-                    c = c.children[0]
+                c = c.children[0]
 
-            # Use an And element instead if self is the only branch because
-            # it makes no sense to repeat a repeat like this!
-            if only_branch:
-                type_ = pyparsing.And
-                child_element = [child_element]
+        if only_branch:
+            # Don't repeat if self is the only branch because it makes no sense to
+            # repeat a repeat like this!
+            return self._set_matcher_element_attributes(
+                pyparsing.And([child_element])
+            )
 
-        return self._set_matcher_element_attributes(type_(child_element))
+        return self._set_matcher_element_attributes(
+            _Repetition(child_element, self._required)
+        )
 
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
@@ -1627,6 +1669,8 @@ class KleeneStar(Repeat):
 
         <kleene> = (please)* don't crash;
     """
+    _required = False
+
     def compile(self, ignore_tags=False):
         super(KleeneStar, self).compile()
         compiled = self.child.compile(ignore_tags)
@@ -1672,7 +1716,7 @@ class OptionalGrouping(SingleChildExpansion):
 
     def _make_matcher_element(self):
         return self._set_matcher_element_attributes(
-            pyparsing.Optional(self.child.matcher_element)
+            _Optional(self.child.matcher_element)
         )
 
     @property
-- 
2.43.0


From e1483330f96c66a95dd8d2e3c92bcfd37507a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 12/48] fix: restore match data with restore_current_matches by
 default

---
 jsgf/expansions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9e65dad..89055d3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -168,9 +168,9 @@ def restore_current_matches(e, values, override_none=True):
     def restore(x):
         match_data = values.get(x, None)
         if match_data:
-            if not override_none and match_data["current_match"] is not None:
+            if override_none or match_data["current_match"] is not None:
                 x.current_match = match_data["current_match"]
-            if not override_none and match_data["matching_slice"] is not None:
+            if override_none or match_data["matching_slice"] is not None:
                 x.matching_slice = match_data["matching_slice"]
 
     map_expansion(e, restore)
-- 
2.43.0


From ec581a148aaaafef385b76b2986ba1eda6631ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 13/48] fix: keep repetition data for comparable expansions and
 nested repeats

Match data was kept by comparing expansions, so comparable descendants
shared it, and the data of a repeat inside another repeat was lost.
---
 jsgf/expansions.py | 61 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 89055d3..6f9686a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -835,11 +835,25 @@ class Expansion(object):
         if self.current_match:
             return True
 
+        # Check each repetition ancestor, as repeats can be repeated too.
         rep = self.repetition_ancestor
-        if rep and any(rep.get_expansion_matches(self)):
-            return True
-        else:
-            return False
+        while rep:
+            if any(rep._get_repetition_data(self, "had_match")):
+                return True
+            rep = rep.repetition_ancestor
+        return False
+
+    def _get_match_data(self):
+        # Get the data for this expansion to be kept for each repetition.
+        return {
+            "current_match": self.current_match,
+            "matching_slice": self.matching_slice,
+            "had_match": self.had_match,
+        }
+
+    def _restore_match_data(self, data):
+        self.current_match = data["current_match"]
+        self.matching_slice = data["matching_slice"]
 
     def _init_lookup(self):
         # Initialises the lookup dictionary for the root expansion.
@@ -1589,11 +1603,7 @@ class Repeat(SingleChildExpansion):
 
         :returns: list
         """
-        if e.is_descendant_of(self):
-            return [values[e]["current_match"] for values in
-                    self._repetitions_matched]
-        else:
-            return []
+        return self._get_repetition_data(e, "current_match")
 
     def get_expansion_slices(self, e):
         """
@@ -1601,11 +1611,26 @@ class Repeat(SingleChildExpansion):
 
         :returns: list
         """
-        if e.is_descendant_of(self):
-            return [values[e]["matching_slice"] for values in
-                    self._repetitions_matched]
-        else:
-            return []
+        return self._get_repetition_data(e, "matching_slice")
+
+    def _get_repetition_data(self, e, key):
+        # Compare by identity because there can be comparable descendants.
+        result = []
+        for values in self._repetitions_matched:
+            for x, data in values:
+                if x is e:
+                    result.append(data[key])
+                    break
+        return result
+
+    def _get_match_data(self):
+        data = super(Repeat, self)._get_match_data()
+        data["repetitions_matched"] = self._repetitions_matched
+        return data
+
+    def _restore_match_data(self, data):
+        super(Repeat, self)._restore_match_data(data)
+        self._repetitions_matched = data["repetitions_matched"]
 
     def _parse_action(self, instring, loc, tokens):
         # Call the super method to set current_match.
@@ -1614,8 +1639,8 @@ class Repeat(SingleChildExpansion):
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
             # Restore the last repetition's match values.
-            last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, last, False)
+            for x, data in self._repetitions_matched[-1]:
+                x._restore_match_data(data)
         return tokens
 
     def _make_matcher_element(self):
@@ -1623,7 +1648,9 @@ class Repeat(SingleChildExpansion):
         def f(tokens):
             if tokens.asList():
                 # Add current match values to the _repetitions_matched list.
-                self._repetitions_matched.append(save_current_matches(self.child))
+                self._repetitions_matched.append(flat_map_expansion(
+                    self.child, lambda x: (x, x._get_match_data())
+                ))
 
                 # Wipe current match values for the next repetition (if any).
                 self.child.reset_for_new_match()
-- 
2.43.0


From f863d25e0549f6ae94a1aa8bea7165360bac316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 14/48] fix: discard match data and tags of rules that do not
 match all of the speech

Optional rules matched any speech this way.
---
 jsgf/expansions.py |  2 ++
 jsgf/rules.py      | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6f9686a..5ae4ba3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -735,6 +735,8 @@ class Expansion(object):
                 self.matcher_element.parseString(speech).asList()
             )
         except pyparsing.ParseException:
+            # Reset data set by parts of the tree that did match.
+            self.reset_for_new_match()
             result = ""
 
         # Return the difference between the result and speech. The result can be
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 36fec8b..c39af88 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -40,6 +40,7 @@ class Rule(references.BaseRef):
         """
         super(Rule, self).__init__(name)
         self.visible = visible
+        self._matched = False
         self._expansion = None
         self.expansion = expansion
         self._active = True
@@ -224,7 +225,8 @@ class Rule(references.BaseRef):
 
         :returns: bool
         """
-        return self.expansion.current_match is not None
+        # Note: optional expansions have '' as their current match if there was none.
+        return bool(self.expansion.current_match) or self._matched
 
     def matches(self, speech):
         """
@@ -254,9 +256,11 @@ class Rule(references.BaseRef):
         # matched completely.
         remainder = self.expansion.matches(speech)
         if remainder != "":
-            self.expansion.current_match = None
+            self.expansion.reset_for_new_match()
 
-        return self.expansion.current_match is not None
+        self._matched = (remainder == "" and
+                         self.expansion.current_match is not None)
+        return self._matched
 
     def find_matching_part(self, speech):
         """
-- 
2.43.0


From 0f0a2fe0c045e3c435e0de3e9e6a54f71e0a04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 15/48] fix: use the new text of a literal for matching

---
 jsgf/expansions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5ae4ba3..50c9c38 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1451,6 +1451,8 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        if hasattr(self, "_matcher_element"):
+            self.invalidate_matcher()
 
     def generate(self):
         """
-- 
2.43.0


From 2b9e106623d0accbe69b85b68ce1eeb3ed4c0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 16/48] fix: match referenced rules and added references as
 they are now

A rule kept matching an outdated version of a referenced rule that was not
in its grammar or whose expansion was replaced, and references that were
added to a rule's expansion could not be resolved.
---
 jsgf/expansions.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 50c9c38..ad62edc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -452,6 +452,21 @@ class _Repetition(pyparsing.OneOrMore):
         return loc, result
 
 
+class _Reference(pyparsing.ParserElement):
+    """
+    Element that uses the current parser element of a referenced rule.
+    """
+    def __init__(self, ref):
+        super(_Reference, self).__init__()
+        self.ref = ref
+        self.mayReturnEmpty = True
+        self.setName("<%s>" % ref.name)
+
+    def parseImpl(self, instring, loc, doActions=True):
+        element = self.ref.referenced_rule.expansion.matcher_element
+        return element._parse(instring, loc, doActions)
+
+
 class Expansion(object):
     """
     Expansion base class.
@@ -1212,8 +1227,10 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        if self.rule and self.rule.grammar:
-            return self.rule.grammar.get_rule_from_name(self.name)
+        # Use the rule of the root expansion if this was added to its tree later on.
+        rule = self.rule or self.root_expansion.rule
+        if rule and rule.grammar:
+            return rule.grammar.get_rule_from_name(self.name)
         else:
             raise GrammarError("cannot get referenced Rule object from Grammar")
     
@@ -1226,11 +1243,9 @@ class NamedRuleRef(BaseExpansionRef):
         return self.referenced_rule.generate()
 
     def _make_matcher_element(self):
-        # Wrap the parser element for the referenced rule's root expansion so that
+        # Use the parser element for the referenced rule's root expansion so that
         # the current match value for the NamedRuleRef is also set.
-        return self._set_matcher_element_attributes(pyparsing.And([
-            self.referenced_rule.expansion.matcher_element
-        ]))
+        return self._set_matcher_element_attributes(_Reference(self))
 
     def __hash__(self):
         return super(NamedRuleRef, self).__hash__()
-- 
2.43.0


From 4b30b40a5240d546303a4d56cbed9e7f133ac5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 17/48] fix: do not match or generate removed alternatives or
 those of a copied set

---
 jsgf/expansions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index ad62edc..c49ed33 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1925,11 +1925,12 @@ class AlternativeSet(VariableChildExpansion):
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
+            weights = [self._weights[child] for child in self.children]
+            w_sum = sum(weights)
             rand = random.random()
             # print("rand = %s" % rand)
             help_sum = 0
-            for child, weight in self._weights.items():
+            for child, weight in zip(self.children, weights):
                 help_sum += (weight / w_sum)
                 # print(help_sum)
                 if rand < help_sum:
@@ -1943,7 +1944,8 @@ class AlternativeSet(VariableChildExpansion):
 
             # Exclude alternatives that have a weight value of 0.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = self._weights[e]
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From af1db56a61cdb25f01465be542210f15dbcbd7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 18/48] fix: never generate alternatives with a weight of 0 or
 take the logarithm of 0

---
 jsgf/expansions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c49ed33..9f58504 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1601,7 +1601,7 @@ class Repeat(SingleChildExpansion):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5))
+        c = int(math.log((random.random() or 1.0) / 2, 0.5))
         return " ".join([self.child.generate() for _ in range(c)])
 
     def __hash__(self):
@@ -1734,7 +1734,7 @@ class KleeneStar(Repeat):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5)) - 1
+        c = int(math.log((random.random() or 1.0) / 2, 0.5)) - 1
         return " ".join([self.child.generate() for _ in range(c)])
 
     @property
@@ -1935,6 +1935,11 @@ class AlternativeSet(VariableChildExpansion):
                 # print(help_sum)
                 if rand < help_sum:
                     return child.generate()
+
+            # The probabilities can sum up to slightly less than 1.
+            return random.choice([
+                child for child, weight in zip(self.children, weights) if weight
+            ]).generate()
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
-- 
2.43.0


From 4888fe6d8350751e34ba730b850a52ff50f8b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 19/48] fix: copy the case sensitivity of literals and the
 weights of alternatives

---
 jsgf/expansions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9f58504..6300c6f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1480,7 +1480,7 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        e = type(self)(self._text, self.case_sensitive)
         e.tag = self.tag
         return e
 
@@ -1875,7 +1875,10 @@ class AlternativeSet(VariableChildExpansion):
 
     def __deepcopy__(self, memo):
         result = super(AlternativeSet, self).__deepcopy__(memo)
-        result.weights = dict(self.weights)
+
+        # Use the copied children for the weights, not the original ones.
+        copies = dict(zip(self.children, result.children))
+        result.weights = {copies.get(e, e): w for e, w in self.weights.items()}
         return result
 
     def _validate_weights(self):
-- 
2.43.0


From 1ed19824174a9f9ea55a126421b8192a77d466ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 20/48] fix: do not change childless expansions when compiling
 them

Compiling or hashing an expansion without children added a <NULL> reference
to it, which changed what it compares to and what it matches.
---
 jsgf/expansions.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6300c6f..59ca64e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1310,11 +1310,11 @@ class VoidRef(BaseExpansionRef):
 
 
 class ExpansionWithChildren(Expansion):
-    def compile(self, ignore_tags=False):
-        # Add a reference to the built-in NULL rule to produce a valid JSGF rule
+    @property
+    def _compilable_children(self):
+        # Use a reference to the built-in NULL rule to produce a valid JSGF rule
         # expansion: "<NULL>" instead of "()";
-        if not self.children:
-            self.children.append(NullRef())
+        return self.children or [NullRef()]
 
 
 class SingleChildExpansion(ExpansionWithChildren):
@@ -1381,13 +1381,13 @@ class Sequence(VariableChildExpansion):
     def compile(self, ignore_tags=False):
         super(Sequence, self).compile()
         seq = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._compilable_children
         ])
 
         # Return the sequence and the tag if there is one. Use parenthesises if the
         # tag would otherwise only be attached to the last part of the sequence.
         if self.tag and not ignore_tags:
-            if len(self.children) > 1 or self.children[0].children:
+            if len(self.children) > 1 or any(e.children for e in self.children):
                 seq = "(%s)" % seq
             return "%s%s" % (seq, self.compiled_tag)
         else:
@@ -1587,7 +1587,7 @@ class Repeat(SingleChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(Repeat, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._compilable_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)+%s" % (compiled, self.compiled_tag)
         else:
@@ -1719,7 +1719,7 @@ class KleeneStar(Repeat):
 
     def compile(self, ignore_tags=False):
         super(KleeneStar, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._compilable_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "(%s)*%s" % (compiled, self.compiled_tag)
         else:
@@ -1751,7 +1751,7 @@ class OptionalGrouping(SingleChildExpansion):
     """
     def compile(self, ignore_tags=False):
         super(OptionalGrouping, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._compilable_children[0].compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "[%s]%s" % (compiled, self.compiled_tag)
         else:
@@ -1780,7 +1780,7 @@ class RequiredGrouping(Sequence):
     def compile(self, ignore_tags=False):
         super(RequiredGrouping, self).compile()
         grouping = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._compilable_children
         ])
 
         if self.tag and not ignore_tags:
@@ -1891,7 +1891,7 @@ class AlternativeSet(VariableChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self._weights:
+        if self._weights and self.children:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
@@ -1904,7 +1904,7 @@ class AlternativeSet(VariableChildExpansion):
         else:
             # Or do the same thing without the weights
             alt_set = "|".join([
-                e.compile(ignore_tags) for e in self.children
+                e.compile(ignore_tags) for e in self._compilable_children
             ])
 
         if self.tag and not ignore_tags:
@@ -1924,6 +1924,8 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
+        if not self.children:
+            return ""
         if self._weights:
             self._validate_weights()
             # use weights if they are set
@@ -1946,6 +1948,10 @@ class AlternativeSet(VariableChildExpansion):
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
+        # Without children, this is compiled as <NULL>.
+        if not self.children:
+            return self._set_matcher_element_attributes(pyparsing.Empty())
+
         # Return an element that can match the alternatives.
         if self._weights:
             self._validate_weights()
-- 
2.43.0


From 12e295d1dc7118466b38783f3c3adacab5ec9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 21/48] fix: decide whether a nested repeat repeats by its
 current ancestors

---
 jsgf/expansions.py | 48 ++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 59ca64e..a158ebe 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -428,13 +428,19 @@ class _Repetition(pyparsing.OneOrMore):
     Repetition element that only runs parse actions for complete repetitions and
     stops when there is nothing left to match.
     """
-    def __init__(self, expr, required):
+    def __init__(self, expr, repeat):
         super(_Repetition, self).__init__(expr)
-        self.required = required
+        self.repeat = repeat
 
     def parseImpl(self, instring, loc, doActions=True):
+        # Don't repeat if the expansion is the only branch of another repetition
+        # because it makes no sense to repeat a repeat like this!
+        # Note: this is not done once because ancestors can change.
+        if self.repeat._is_only_branch:
+            return self.expr._parse(instring, loc, doActions)
+
         result = []
-        required = self.required
+        required = self.repeat._required
         while True:
             try:
                 end, tokens = self.expr._parse(instring, loc, doActions=False)
@@ -1662,6 +1668,21 @@ class Repeat(SingleChildExpansion):
                 x._restore_match_data(data)
         return tokens
 
+    @property
+    def _is_only_branch(self):
+        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
+        rep = self.repetition_ancestor
+        if rep is None or not self._required:
+            return False
+
+        # Check if there are no other branches.
+        c = rep.child
+        while c is not self:
+            if len(c.children) != 1:
+                return False
+            c = c.children[0]
+        return True
+
     def _make_matcher_element(self):
         # Define an extra parse action for the child's matcher element.
         def f(tokens):
@@ -1679,27 +1700,8 @@ class Repeat(SingleChildExpansion):
         child_element = pyparsing.And([self.child.matcher_element])
         child_element.setParseAction(f)
 
-        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
-        rep = self.repetition_ancestor
-        only_branch = rep is not None and self._required
-        if only_branch:
-            # Check if there are no other branches.
-            c = rep.child
-            while c is not self:
-                if len(c.children) != 1:
-                    only_branch = False
-                    break
-                c = c.children[0]
-
-        if only_branch:
-            # Don't repeat if self is the only branch because it makes no sense to
-            # repeat a repeat like this!
-            return self._set_matcher_element_attributes(
-                pyparsing.And([child_element])
-            )
-
         return self._set_matcher_element_attributes(
-            _Repetition(child_element, self._required)
+            _Repetition(child_element, self)
         )
 
     def reset_match_data(self):
-- 
2.43.0


From c35e491364feb32f155c3de57291b4ab648db920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 22/48] fix: Compare rules and grammars with other kinds of
 objects

The comparison raised an AttributeError.
---
 jsgf/grammars.py | 3 ++-
 jsgf/rules.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index cedd9ac..c9ca3cb 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -437,7 +437,8 @@ class Grammar(references.BaseRef):
         return self.__str__()
 
     def __eq__(self, other):
-        return (self.name == other.name and self.jsgf_header == other.jsgf_header
+        return (isinstance(other, Grammar) and self.name == other.name
+                and self.jsgf_header == other.jsgf_header
                 and self.rules == other.rules and self.imports == other.imports
                 and self.case_sensitive == other.case_sensitive)
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index c39af88..178b546 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -397,7 +397,8 @@ class Rule(references.BaseRef):
         return len(self.dependent_rules)
 
     def __eq__(self, other):
-        return (self.name == other.name and
+        return (isinstance(other, Rule) and
+                self.name == other.name and
                 self.expansion == other.expansion and
                 self.visible == other.visible and
                 self.case_sensitive == other.case_sensitive)
-- 
2.43.0


From 587f23bd705c702876f689cf2f42902241c6e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 23/48] fix: Compare sequence rules by their original
 expansions

Rules with different sequences compared as equal when their current
expansions were the same, so grammars silently dropped one of them.
---
 jsgf/ext/rules.py | 5 +++++
 jsgf/rules.py     | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d768af3..fe9df72 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -64,6 +64,11 @@ class SequenceRule(Rule):
         return hash("%s%s%s" % (hash(self.name), hash(self.visible),
                                 hash(self.original_expansion)))
 
+    @property
+    def _compared_expansion(self):
+        # Different rules can currently have the same expansion.
+        return self.original_expansion
+
     @property
     def expansion_sequence(self):
         """
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 178b546..0d810d3 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -396,10 +396,15 @@ class Rule(references.BaseRef):
         """
         return len(self.dependent_rules)
 
+    @property
+    def _compared_expansion(self):
+        # The expansion to use when comparing this rule.
+        return self.expansion
+
     def __eq__(self, other):
         return (isinstance(other, Rule) and
                 self.name == other.name and
-                self.expansion == other.expansion and
+                self._compared_expansion == other._compared_expansion and
                 self.visible == other.visible and
                 self.case_sensitive == other.case_sensitive)
 
-- 
2.43.0


From 5b496ab15a4a031e35a063ca1bac29a862e8ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 24/48] fix: Hash dictation independently of its ancestors

Comparable dictation expansions had different hashes in different places, so
sets of alternatives with dictation compared as different.
---
 jsgf/ext/expansions.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3c3ff15..22b1fe4 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -152,15 +152,9 @@ class Dictation(Literal):
         return self.__copy__()
 
     def __hash__(self):
-        # A Dictation hash is a hash of the class name and each ancestor's string
-        # representation.
-        ancestors = []
-        p = self.parent
-        while p:
-            ancestors.append("%s" % p)
-            p = p.parent
-        return hash("%s: %s" % (self.__class__.__name__,
-                                ",".join(ancestors)))
+        # Use the string representation, as for literals. Comparable expansions must
+        # have the same hash wherever they are.
+        return hash("%s" % self)
 
     def validate_compilable(self):
         pass
-- 
2.43.0


From 7192492211d2e2a81ad4141e4d21694f2323d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 25/48] fix: Support += for lists of children

It put raw items into the list without setting their parents and then failed.
---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a158ebe..6e7fabc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -286,7 +286,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
-- 
2.43.0


From 4367d3c4173cb0021fa900efe41e9fb38875054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 26/48] fix: Respect the step of slices of children that are
 set

---
 jsgf/expansions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6e7fabc..5a2ba6f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -347,13 +347,14 @@ class ChildList(object):
         self._list[self._list.index(value)].parent = None
         self._list.remove(value)
 
-    def __setslice__(self, i, j, sequence):
+    def __setslice__(self, i, j, sequence, step=None):
         """
         Method for setting a list slice compatible with Python 2 and 3.
 
         :param i: int
         :param j: int
         :param sequence: iterable
+        :param step: int
         """
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
@@ -362,10 +363,12 @@ class ChildList(object):
         def orphan(x):
             x.parent = None
 
-        [orphan(c) for c in self._list[i:j]]
+        # Set the slice. This raises an error if the sizes of an extended slice and
+        # the sequence differ.
+        old = self._list[slice(i, j, step)]
+        self._list[slice(i, j, step)] = sequence
 
-        # Set the slice.
-        self._list[slice(i, j)] = sequence
+        [orphan(c) for c in old]
 
         # Adopt the new children :-)
         def adopt(x):
@@ -379,7 +382,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self.__setslice__(i.start, i.stop, value, i.step)
             return
 
         # Convert value to Expansion appropriately.
-- 
2.43.0


From 5aa55e16c12c36e0958af15f1e88e9df3a15e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 27/48] fix: Keep the children of an expansion if new ones are
 not valid

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5a2ba6f..e5dde8d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -559,6 +559,9 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Check each item before changing anything.
+        value = [Expansion.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From ebe6ce7a108ba13aa356c1993a61c30786fe6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 28/48] fix: Invalidate stored calculations that involve an
 expansion

They are stored by IDs, which were compared with the expansion itself.
---
 jsgf/expansions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e5dde8d..b15dfa2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -969,14 +969,10 @@ class Expansion(object):
         if not root._lookup_dict:
             return  # nothing to invalidate
 
+        # Calculations are stored using the IDs of expansions.
         for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
+            for k in list(d):
+                if id(self) == k or isinstance(k, tuple) and id(self) in k:
                     d.pop(k)
 
     def __str__(self):
-- 
2.43.0


From ae23514db1b8ffdb9233ce96a023770de185290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 29/48] fix: Remove the rule that is in the grammar, not a
 comparable one

Comparable rules were removed without checking for dependent rules, the removed
rule still belonged to the grammar and removing imported rules raised a
ValueError.
---
 jsgf/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index c9ca3cb..988cc3a 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -681,9 +681,13 @@ class Grammar(references.BaseRef):
             # Assume 'rule' is the name of a rule
             # Get the rule object with the name
             rule = self.get_rule_from_name(rule)
-        elif rule not in self.rules:
+
+        if rule not in self.rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # Use the rule in this grammar rather than a comparable one.
+        rule = self._rules[self._rules.index(rule)]
+
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
         if not ignore_dependent and rule.dependent_rules:
-- 
2.43.0


From ed77e3b86f061c456a761192e840792bf4dc5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 30/48] fix: Keep rules visible if compiling a root grammar
 fails

---
 jsgf/grammars.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 988cc3a..891f1d7 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -342,20 +342,25 @@ class Grammar(references.BaseRef):
         if not visible_rules:
             return result
 
-        # Temporarily set each visible rule to not visible
-        for rule in visible_rules:
-            rule.visible = False
-
         # Compile each rule and add its name to the names list if it compiled to
         # something. Rules can compile to the empty string if they are disabled.
         names = []
         compiled_rules = ""
-        for rule in self.rules:
-            compiled = rule.compile()
-            if compiled:
-                compiled_rules += "%s\n" % compiled
-            if rule in visible_rules and compiled:
-                names.append(rule.name)
+        try:
+            # Temporarily set each visible rule to not visible
+            for rule in visible_rules:
+                rule.visible = False
+
+            for rule in self.rules:
+                compiled = rule.compile()
+                if compiled:
+                    compiled_rules += "%s\n" % compiled
+                if rule in visible_rules and compiled:
+                    names.append(rule.name)
+        finally:
+            # Set rule visibility back to normal
+            for rule in visible_rules:
+                rule.visible = True
 
         # If there are names, then build the root rule and add it and the compiled
         # rules to the result.
@@ -366,10 +371,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From 8cd268f61e5e57f64450f5d88b9a4fd1b4e53ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 31/48] fix: Only resolve names of rules to rules that have the
 name

---
 jsgf/grammars.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 891f1d7..a02e5d0 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -77,7 +77,7 @@ class Import(references.BaseRef):
     def _get_import_grammar(self, memo, file_exts):
         """ Internal method to get the grammar from a file if necessary. """
         grammar_name = self.grammar_name
-        if grammar_name in memo:
+        if isinstance(memo.get(grammar_name), Grammar):
             return memo[grammar_name]
 
         # Import the parser function locally to avoid import cycles; this module is
@@ -139,9 +139,10 @@ class Import(references.BaseRef):
         if file_exts is None:
             file_exts = self.grammar_file_exts
 
-        # Check if this import statement has already been resolved.
+        # Check if this import statement has already been resolved. A grammar can have
+        # the name of a rule.
         import_name = self.name
-        if import_name in memo:
+        if isinstance(memo.get(import_name), (Rule, list)):
             return memo[import_name]
 
         # Parse the grammar from its file, if it exists.
@@ -604,7 +605,7 @@ class Grammar(references.BaseRef):
         if not isinstance(name, string_types):
             raise TypeError("string expected, got %r instead" % name)
 
-        if not references.optionally_qualified_name.matches(name):
+        if not references.matches_name(references.optionally_qualified_name, name):
             raise GrammarError("%r is not a valid JSGF reference name" % name)
 
         for rule in self.rules:
@@ -627,11 +628,11 @@ class Grammar(references.BaseRef):
             elif isinstance(value, list):
                 imported_rules.extend(value)
 
-        # Check against imported rules.
+        # Check against imported rules. A rule may have been imported more than once.
         matching_rules = []
-        qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
         for rule in imported_rules:
-            if name == rule.name or qualified_name == rule.qualified_name:
+            names = (rule.name, rule.qualified_name, rule.fully_qualified_name)
+            if name in names and not any(r is rule for r in matching_rules):
                 matching_rules.append(rule)
 
         # Return the matching imported rule if there is only one.
-- 
2.43.0


From 542452819368d029b0c9945a5cb5ce54d1aab34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 32/48] fix: Match characters that are more than one character
 in another case

---
 jsgf/expansions.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b15dfa2..6313407 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -398,6 +398,36 @@ class ChildList(object):
         self._list[i].parent = self._expansion
 
 
+def _fold_case(text):
+    """ Internal function to get text without case differences. """
+    # The result can be longer than the text, e.g. for the German sharp s.
+    return "".join([c.lower().upper() for c in text])
+
+
+class _CaselessLiteral(pyparsing.CaselessLiteral):
+    """
+    Caseless literal that allows for characters that are more than one character in
+    another case.
+    """
+    def __init__(self, match_string):
+        super(_CaselessLiteral, self).__init__(match_string)
+        self.match = _fold_case(match_string)
+
+    def parseImpl(self, instring, loc, doActions=True):
+        end, folded = loc, ""
+        while len(folded) < len(self.match) and end < len(instring):
+            folded += _fold_case(instring[end])
+            end += 1
+        if folded != self.match:
+            raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+
+        # Use the text in the string if it has another length, as match data depend
+        # on the lengths of matches.
+        if end - loc != len(self.returnString):
+            return end, instring[loc:end]
+        return end, self.returnString
+
+
 class _WholeWords(object):
     """
     Mixin class for pyparsing literals that only match whole words.
@@ -413,7 +443,7 @@ class _WordsLiteral(_WholeWords, pyparsing.Literal):
     pass
 
 
-class _CaselessWordsLiteral(_WholeWords, pyparsing.CaselessLiteral):
+class _CaselessWordsLiteral(_WholeWords, _CaselessLiteral):
     pass
 
 
-- 
2.43.0


From eaa4ff5383277fed0eae86ebd16d5eb6ce2f5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 33/48] fix: Find parts that match case-sensitive literals of
 other rules

---
 jsgf/rules.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 0d810d3..1d67e0f 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -8,7 +8,7 @@ rules.
 from .errors import GrammarError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
-    map_expansion, TraversalOrder
+    find_expansion, map_expansion, TraversalOrder
 
 
 class Rule(references.BaseRef):
@@ -275,9 +275,11 @@ class Rule(references.BaseRef):
             return None
 
         # Ensure that there is only one space between words. Case only matters if the
-        # rule is case sensitive.
+        # rule or one of its literals is case sensitive.
         speech = " ".join(speech.split())
-        if not self.case_sensitive:
+        if not (self.case_sensitive or find_expansion(
+                self.expansion,
+                lambda e: isinstance(e, Literal) and e.case_sensitive)):
             speech = speech.lower()
 
         # Reset match data for this rule and referenced rules.
-- 
2.43.0


From c4fe6bf88df9c5f48277273b05956234f4d690a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 34/48] fix: Do not take apart referenced rules when
 calculating sequences

---
 jsgf/ext/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 22b1fe4..dd8c841 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -505,7 +505,10 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         elif len(e.children) == 0:
             if (isinstance(e, NamedRuleRef) and
                     dictation_in_expansion(e.referenced_rule.expansion)):
-                result.extend(calculate_sequence(e.referenced_rule.expansion))
+                # Use a copy because the children are removed below.
+                result.extend(
+                    calculate_sequence(e.referenced_rule.expansion.copy())
+                )
             else:
                 result.append(e)
         else:
-- 
2.43.0


From f950bfb3350c317b692640ede3d511b01a69d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 35/48] fix: Keep everything that can be spoken when expanding
 dictation

Alternatives that are nothing, what is around references and comparable
expansions were lost or replaced, and some expansions caused errors.
---
 jsgf/ext/expansions.py | 124 ++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 50 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index dd8c841..bdde1f9 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -12,11 +12,13 @@ from ..expansions import (
     KleeneStar,
     Literal,
     NamedRuleRef,
+    NullRef,
     OptionalGrouping,
     Repeat,
     Sequence,
     TraversalOrder,
     find_expansion,
+    flat_map_expansion,
 )
 
 # Define the regular expression used for dictation words.
@@ -342,7 +344,9 @@ def expand_dictation_expansion(expansion):
         :returns: Expansion | None
         """
         if isinstance(e, NamedRuleRef):
-            return first_unprocessed_expansion(e.referenced_rule.expansion)
+            # The reference is processed first.
+            if first_unprocessed_expansion(e.referenced_rule.expansion):
+                return e
         else:
             # Traverse in post order, i.e. children first, then e.
             for child in e.children:
@@ -352,8 +356,55 @@ def expand_dictation_expansion(expansion):
             if is_unprocessed(e):
                 return e
 
-    def find_goal(e, goal):
-        return find_expansion(e, lambda x: x == goal)
+    def copy_tree(e, goal):
+        """
+        Copy an expansion tree and return the copies of its root and of the goal
+        expansion.
+        """
+        # Use the position of the goal because comparable expansions can be
+        # elsewhere in the tree.
+        copy = e.copy()
+        for x, y in zip(flat_map_expansion(e, shallow=True),
+                        flat_map_expansion(copy, shallow=True)):
+            if x is goal:
+                return copy, y
+
+    def replace(e, replacement):
+        """
+        Replace an expansion in its tree.
+
+        :returns: root of the tree
+        """
+        parent = e.parent
+        if not parent:
+            return replacement
+        for i, child in enumerate(parent.children):
+            if child is e:
+                parent.children[i] = replacement
+                break
+        return parent.root_expansion
+
+    def remove(e):
+        """
+        Remove an expansion from its tree.
+
+        :returns: root of the tree | None
+        """
+        # Traverse up the tree and remove e or one of its ancestors where there is
+        # another child.
+        while e.parent:
+            parent = e.parent
+            if isinstance(parent, AlternativeSet):
+                # Nothing is one of the alternatives.
+                return replace(e, NullRef())
+            if len(parent.children) > 1:
+                for i, child in enumerate(parent.children):
+                    if child is e:
+                        parent.children.pop(i)
+                        break
+                return parent.root_expansion
+            e = parent
+        return None
 
     def process(e):
         """
@@ -390,61 +441,34 @@ def expand_dictation_expansion(expansion):
                 replacements = []
             replacements.extend(dictation_children)
 
-        elif isinstance(current, (OptionalGrouping, KleeneStar)):
-            # Handle not required - remove from a copy
-            copy = current.root_expansion.copy()
-            copy_x = find_goal(copy, current)
-            copy_parent = copy_x.parent
-            ancestor = copy_parent
-
-            # Traverse up the parent tree and remove copy_x or one of its ancestors
-            # where there is another child
-            while ancestor:
-                if len(ancestor.children) > 1:
-                    ancestor.children.remove(copy_x)
-                    break
-
-                copy_x = ancestor
-                ancestor = ancestor.parent
-
-            # copy_x or one of its ancestors was removed from the tree correctly
-            # If this isn't true, the expansion is an empty tree and shouldn't be
-            # added.
-            if ancestor:
-                copies.append(copy)
+        elif isinstance(current, OptionalGrouping):
+            replacements = [None, current.child.copy()]
+
+        elif isinstance(current, KleeneStar):
+            replacements = [None, Repeat(current.child.copy())]
 
-            # Let replacement loop handle required
-            if isinstance(current, OptionalGrouping):
-                replacements = [current.child.copy()]
-            else:
-                replacements = [Repeat(current.child.copy())]
         else:
-            replacements = []
+            # Use the expansion of the referenced rule.
+            replacements = [current.referenced_rule.expansion.copy()]
 
         for replacement in replacements:
             # Find the copy of the current expansion being processed
-            copy = current.root_expansion.copy()
-            copy_x = find_goal(copy, current)
-            copy_parent = copy_x.parent
-            if copy_parent:
-                index = copy_parent.children.index(copy_x)
-                copy_parent.children.remove(copy_x)
-                copy_parent.children.insert(index, replacement)
+            copy, copy_x = copy_tree(e, current)
+            if replacement is None:
+                copy = remove(copy_x)
             else:
-                # copy is the root expansion.
-                copy = replacement
-            copies.append(copy)
+                copy = replace(copy_x, replacement)
+
+            # Empty trees are not added.
+            if copy:
+                copies.append(copy)
 
         for copy in copies:
-            next_unprocessed = first_unprocessed_expansion(copy)
-            if not next_unprocessed and copy not in result:
-                result.append(copy)
-            else:
-                # Process the next unprocessed expansion and add the results.
-                # There are duplicates sometimes, so don't add them.
-                for r in process(next_unprocessed):
-                    if r not in result:
-                        result.append(r)
+            # Process the next unprocessed expansion and add the results.
+            # There are duplicates sometimes, so don't add them.
+            for r in process(copy):
+                if r not in result:
+                    result.append(r)
 
         return result
 
-- 
2.43.0


From ee3f3d9cf0e986376aae6ca8fd0803483696d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 36/48] fix: Look ahead for all literals that can be next after
 dictation

Only the first of several alternatives was looked for, in lower case, and also
as a part of longer words.
---
 jsgf/ext/expansions.py | 186 +++++++++++++++++------------------------
 1 file changed, 79 insertions(+), 107 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index bdde1f9..93ee97d 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -17,6 +17,7 @@ from ..expansions import (
     Repeat,
     Sequence,
     TraversalOrder,
+    VoidRef,
     find_expansion,
     flat_map_expansion,
 )
@@ -25,94 +26,81 @@ from ..expansions import (
 _word_regex_str = r"[\w\d?,\.\-_!;:']+"
 
 
-def _collect_from_leaves(e, backtrack):
+def _collect_first_leaves(e, rules=()):
+    """
+    Collect the literals and dictation expansions that can be matched first by an
+    expansion.
+
+    :param e: Expansion
+    :param rules: rules that are being searched already
+    :returns: tuple of leaves list and whether the expansion can match nothing
+    """
+    if isinstance(e, Dictation):
+        return [e], False
+    elif isinstance(e, Literal):
+        return ([e], False) if e.text.strip() else ([], True)
+    elif isinstance(e, (NullRef, VoidRef)):
+        return [], isinstance(e, NullRef)
+    elif isinstance(e, NamedRuleRef):
+        rule = e.referenced_rule
+        if rule in rules:
+            return [], False
+        return _collect_first_leaves(rule.expansion, rules + (rule,))
+
+    # Any alternative can be matched, but only children of other expansions that
+    # don't come after a required one.
+    alternatives = isinstance(e, AlternativeSet)
     result = []
-    look_further = True
-    for leaf in e.leaves:
-        if isinstance(leaf, Dictation):
-            # Add regex for a single dictation word.
-            result.append(_word_regex_str)
-        elif isinstance(leaf, Literal):
-            # Add first word of literal.
-            result.append(leaf.text.split()[0])
+    optional = not e.children
+    for child in e.children:
+        leaves, optional_child = _collect_first_leaves(child, rules)
+        result.extend(leaves)
+        if alternatives:
+            optional = optional or optional_child
         else:
-            # Skip references.
-            continue
-
-        # Break out of the loop if the leaf is required.
-        if not leaf.is_optional:
-            if not backtrack:
-                look_further = False
-            break
-    return result, look_further
+            optional = optional_child
+            if not optional:
+                break
+    if isinstance(e, (OptionalGrouping, KleeneStar)):
+        optional = True
+    return result, optional
 
 
-def _collect_next_literals(stack, i, look_further, backtrack):
-    """
-    Build a list of each next literal using a stack of expansions and their parents
-    as well as an index for which stack frame to use.
-
-    The stack has the following structure:
-    [(e, e.parent), (e.parent, e.parent.parent), ... (root.children[x], root)]
-    :param stack: list
-    :param i: int
-    :param look_further: bool
-    :param backtrack: bool
-    :returns: tuple of literals list and flags value
+def _collect_next_leaves(e):
     """
-    # Handle stop looking for literals or i being an invalid index.
-    if not look_further or i < 0 or i >= len(stack):
-        return [], look_further
+    Collect the literals and dictation expansions that can be matched after an
+    expansion.
 
-    # Get the current child and parent from the stack.
-    p1, p2 = stack[i]
+    :param e: Expansion
+    :returns: list
+    """
     result = []
+    p1, p2 = e, e.parent
+    while p2:
+        if isinstance(p2, Sequence):
+            # Get the index of p1 in p2.children using 'is'.
+            j = 0
+            for j, c in enumerate(p2.children):
+                if c is p1:
+                    break
+
+            # Collect from each next child until a required one is found.
+            for c in p2.children[j + 1:]:
+                leaves, optional = _collect_first_leaves(c)
+                result.extend(leaves)
+                if not optional:
+                    return result
 
-    if isinstance(p2, Sequence):
-        # Get the index of p1 in p2.children using 'is'.
-        j = 0
-        for j, c in enumerate(p2.children):
-            if c is p1:
-                break
-
-        # Collect the first word of each literal until a required one is found.
-        # This won't collect the same repeating dictation from backtracking.
-        child_slice = p2.children[:j] if backtrack else p2.children[j + 1:]
-        for c in child_slice:
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-            # Stop if a required literal has been collected.
-            if not look_further:
-                break
+        elif isinstance(p2, Repeat):
+            # Collect from the next repetition. This won't collect the same
+            # repeating expansion.
+            leaves, _ = _collect_first_leaves(p1)
+            result.extend([x for x in leaves if x is not e])
 
-    elif isinstance(p2, Repeat):
-        # If we get to a repeat, it means that there were no required literals below
-        # it *after* the dictation expansion. Backtrack to search before it instead.
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further, True)
-        result.extend(next_stack_result[0])
-        look_further = look_further or next_stack_result[1]
-
-    elif isinstance(p2, AlternativeSet) and backtrack:
-        # Handle backtracking through repeating alternatives. Non-repeating
-        # alternative sets in the stack won't have next literals.
-        for c in p2.children:
-            # Collect the next literals from each alternative; any of them could be
-            # matched after dictation.
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-    # Go to the next logical stack frame.
-    if backtrack:
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further,
-                                                   backtrack)
-    else:
-        next_stack_result = _collect_next_literals(stack, i + 1, look_further,
-                                                   backtrack)
+        # Move both pivots further up the tree.
+        p1, p2 = p2, p2.parent
 
-    result.extend(next_stack_result[0])
-    look_further = look_further or next_stack_result[1]
-    return result, look_further
+    return result
 
 
 class Dictation(Literal):
@@ -202,37 +190,21 @@ class Dictation(Literal):
             # Set the parse action and return the element.
             return result.setParseAction(self._parse_action)
 
-        # Otherwise build a list of next possible literals. Make the required stack
-        # of child-parent pairs.
-        stack = []
-        p1, p2 = self, self.parent
-        while p1 and p2:
-            stack.append((p1, p2))
-
-            # Move both pivots further up the tree.
-            p1 = p1.parent
-            p2 = p2.parent
-
-        # Build a list of next literals using the stack.
-        next_literals, _ = _collect_next_literals(stack, 0, True, False)
-
-        # De-duplicate the list.
-        next_literals = set(next_literals)
+        # Otherwise build a list of next possible leaves.
+        next_leaves = _collect_next_leaves(self)
 
         word = pyparsing.Regex(_word_regex_str, re.UNICODE)
-        if next_literals:
-            # Check if there is a next dictation literal. If there is, only match
-            # one word for this expansion.
-            if _word_regex_str in next_literals:
-                result = word
-
-            # Otherwise build an element to match one or more words stopping on
-            # any of the next literals so that they aren't matched as dictation.
-            else:
-                next_literals = list(map(pyparsing.Literal, next_literals))
-                result = pyparsing.OneOrMore(
-                    word, stopOn=pyparsing.Or(next_literals)
-                )
+        if any(isinstance(leaf, Dictation) for leaf in next_leaves):
+            # There is a next dictation expansion, so only match one word for this
+            # one.
+            result = word
+        elif next_leaves:
+            # Build an element to match one or more words stopping on the first word
+            # of any of the next literals so that they aren't matched as dictation.
+            result = pyparsing.OneOrMore(word, stopOn=pyparsing.MatchFirst([
+                Literal(leaf.text.split()[0], leaf.case_sensitive).matcher_element
+                for leaf in next_leaves
+            ]))
         else:
             # Handle the case of no literals ahead by allowing one or more Unicode
             # words without restrictions.
-- 
2.43.0


From 4baf248e3767903d53d7711a243eea159ad966ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 37/48] fix: Let dictation match any words again after grafting
 matches

---
 jsgf/ext/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index fe9df72..066d888 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -288,6 +288,10 @@ class SequenceRule(Rule):
         # Now match on expansion using the matches for the sequence.
         expansion.matches(" ".join([e.current_match for e in matching]))
 
+        # Let Dictation expansions in the given expansion match any words next time.
+        for _, e2 in zip(dictation_in_seq, dictation_in_exp):
+            e2.use_current_match = False
+
 
 class PublicSequenceRule(SequenceRule):
     """
-- 
2.43.0


From d27692a925901359a8dfa9d4ad675e4b10741561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 38/48] fix: Set the case sensitivity of all parts of sequence
 rules

---
 jsgf/ext/rules.py | 6 ++++++
 jsgf/rules.py     | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 066d888..632b85e 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -69,6 +69,12 @@ class SequenceRule(Rule):
         # Different rules can currently have the same expansion.
         return self.original_expansion
 
+    @property
+    def _all_expansions(self):
+        # Include the original expansion and the sequence, if they have been set.
+        return ([self.expansion] + list(getattr(self, "_sequence", ())) +
+                [getattr(self, "_original_expansion", self.expansion)])
+
     @property
     def expansion_sequence(self):
         """
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 1d67e0f..b9ebf90 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -193,7 +193,13 @@ class Rule(references.BaseRef):
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
         # referenced rules directly.
-        map_expansion(self.expansion, func, shallow=True)
+        for expansion in self._all_expansions:
+            map_expansion(expansion, func, shallow=True)
+
+    @property
+    def _all_expansions(self):
+        # The rule's expansion and any others the rule uses in its place.
+        return [self.expansion]
 
     def enable(self):
         """
-- 
2.43.0


From 44d7a64b596ef0bfdf2d6408513b866c31daacd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 39/48] fix: Apply what is done with dictation grammars to all
 of their rules

Private rules were not removed, unknown and referenced rules were removed in
silence, generated rules did not follow the case sensitivity and were not
disabled, headers and imports were not compiled, rules were lost if their
case sensitivity changed and half added if a name was taken, and sequence
rules lost their matches.
---
 jsgf/ext/grammars.py | 218 +++++++++++++++++++++++++++++--------------
 1 file changed, 150 insertions(+), 68 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..b97fd65 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -23,7 +23,9 @@ class DictationGrammar(Grammar):
         """
         super(DictationGrammar, self).__init__(name, case_sensitive=case_sensitive)
         self._dictation_rules = []
-        self._original_rule_map = {}
+        # Pairs of rules used for matching and their original rules. This isn't a
+        # dictionary because the hashes of rules change if their expansions do.
+        self._original_rules = []
         self._init_jsgf_only_grammar()
 
         if rules:
@@ -48,10 +50,29 @@ class DictationGrammar(Grammar):
 
         :returns: list
         """
-        return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.match_rules +
-                list(self._original_rule_map.values())
-        ))
+        result = []
+        for rule in self._all_rules:
+            if rule not in result:
+                result.append(rule)
+        return result
+
+    @property
+    def _all_rules(self):
+        # Generated rules can be comparable to original rules.
+        return (self._dictation_rules + self._jsgf_only_grammar.rules +
+                [original for _, original in self._original_rules])
+
+    @property
+    def case_sensitive(self):
+        return super(DictationGrammar, self).case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        value = bool(value)
+        self._case_sensitive = value
+        self._jsgf_only_grammar.case_sensitive = value
+        for rule in self._all_rules:
+            rule.case_sensitive = value
 
     @property
     def match_rules(self):
@@ -81,54 +102,67 @@ class DictationGrammar(Grammar):
                 raise GrammarError("JSGF grammars cannot have multiple rules with "
                                    "the same name")
 
-        # If the rule is not a dictation rule, add it to the JSGF only grammar and
-        # the original rule map.
-        if not dictation_in_expansion(rule.expansion):
-            self._jsgf_only_grammar.add_rule(rule)
-            self._original_rule_map[rule] = rule
-            return
-
-        # Check if the rule is a SequenceRule already and do a few things with it.
-        if isinstance(rule, SequenceRule):
-            if not rule.current_is_dictation_only:
-                # The sequence starts with a JSGF only rule and can be
-                # spoken like a normal rule
-                self._jsgf_only_grammar.add_rule(rule)
-            else:
-                self._dictation_rules.append(rule)
-            self._original_rule_map[rule] = rule
-            return
-
-        # Expand the rule's expansion into a list of 1 or more expansions.
+        # Generate the rules used for this rule.
+        generated = self._generate_rules(rule)
+        names = self.rule_names
+        for r in generated:
+            if r.name in names:
+                raise GrammarError("rule '%s' generated from '%s' has the same name "
+                                   "as another rule" % (r.name, rule))
+
+        # Set case sensitivity for the rule and for its generated rules, add each to
+        # either dictation_rules or _jsgf_only_grammar and keep track of the
+        # relationship between the original rule and its generated rules.
+        rule.case_sensitive = self.case_sensitive
+        rule.grammar = self
+        for r in generated:
+            r.case_sensitive = self.case_sensitive
+            self._original_rules.append((r, rule))
+            self._place_rule(r)
+
+    @staticmethod
+    def _generate_rules(rule):
+        # Rules without dictation and sequence rules can be used as they are.
+        if (not dictation_in_expansion(rule.expansion) or
+                isinstance(rule, SequenceRule)):
+            return [rule]
+
+        # Otherwise expand the rule's expansion into a list of 1 or more expansions
+        # and create new rules from the resulting expansions.
         expanded = expand_dictation_expansion(rule.expansion)
-
-        # Otherwise create new rules from the resulting expansions and add each to
-        # either dictation_rules or _jsgf_only_grammar
+        result = []
         for i, x in enumerate(expanded):
             if len(expanded) == 1:
                 # No need to use different names in this case
                 new_name = rule.name
             else:
                 new_name = "%s_%d" % (rule.name, i)
-            if not dictation_in_expansion(x):
+            if dictation_in_expansion(x):
+                r = SequenceRule(new_name, rule.visible, x)
+            else:
                 r = Rule(new_name, rule.visible, x)
+            if not rule.active:
+                r.disable()
+            result.append(r)
+        return result
 
-                # Add this rule to the JSGF only grammar
-                self._jsgf_only_grammar.add_rule(r)
-
-                # Keep track of the relationship between the original rule and its
-                # expanded rules
-                self._original_rule_map[r] = rule
-            else:
-                seq_rule = SequenceRule(new_name, rule.visible, x)
-                self._original_rule_map[seq_rule] = rule
+    def _place_rule(self, rule):
+        if isinstance(rule, SequenceRule) and rule.current_is_dictation_only:
+            self._dictation_rules.append(rule)
+        else:
+            # The rule is either a JSGF only rule or starts with one and can be
+            # spoken like a normal rule
+            self._jsgf_only_grammar.add_rule(rule)
+        rule.grammar = self
 
-                if not seq_rule.current_is_dictation_only:
-                    # The sequence starts with a JSGF only rule and can be
-                    # spoken like a normal rule
-                    self._jsgf_only_grammar.add_rule(seq_rule)
-                else:
-                    self._dictation_rules.append(seq_rule)
+    def _take_rule(self, rule):
+        # Use the rule itself rather than a comparable one.
+        if any(r is rule for r in self._dictation_rules):
+            self._dictation_rules = [r for r in self._dictation_rules
+                                     if r is not rule]
+        else:
+            self._jsgf_only_grammar.remove_rule(rule, True)
+        rule.grammar = None
 
     def get_original_rule(self, rule):
         """
@@ -137,7 +171,13 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: Rule
         """
-        return self._original_rule_map[rule]
+        for generated, original in self._original_rules:
+            if generated is rule:
+                return original
+        for generated, original in self._original_rules:
+            if generated == rule:
+                return original
+        raise KeyError(rule)
 
     def get_generated_rules(self, rule):
         """
@@ -146,9 +186,9 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: generator
         """
-        for k, v in list(self._original_rule_map.items()):
-            if v is rule:
-                yield k
+        for generated, original in list(self._original_rules):
+            if original is rule:
+                yield generated
 
     def remove_rule(self, rule, ignore_dependent=False):
         # Find the rules generated from this rule and remove them wherever they are
@@ -158,15 +198,49 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rule_map.items()):
-            if v.name == rule_name:
-                self._original_rule_map.pop(k)
-
-                if k in self._dictation_rules:
-                    self._dictation_rules.remove(k)
-
-                elif k in self._jsgf_only_grammar.match_rules:
-                    self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
+        removed = [(generated, original)
+                   for generated, original in self._original_rules
+                   if original.name == rule_name]
+        if not removed or rule is not rule_name and rule not in self.rules:
+            raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
+
+        # Check if the rule is a dependency of another rule in this grammar.
+        if not ignore_dependent:
+            _, removed_rule = removed[0]
+            for _, original in self._original_rules:
+                if (original is not removed_rule and
+                        removed_rule in original.dependencies):
+                    raise GrammarError("Cannot remove rule '%s' as it is referenced "
+                                       "by another rule." % removed_rule)
+
+        self._original_rules = [(generated, original)
+                                for generated, original in self._original_rules
+                                if original.name != rule_name]
+        for generated, original in removed:
+            self._take_rule(generated)
+            original.grammar = None
+
+    def enable_rule(self, rule):
+        super(DictationGrammar, self).enable_rule(rule)
+        for r in self._get_rules_to_change(rule):
+            r.enable()
+
+    def disable_rule(self, rule):
+        super(DictationGrammar, self).disable_rule(rule)
+        for r in self._get_rules_to_change(rule):
+            r.disable()
+
+    def _get_rules_to_change(self, rule):
+        # Get the original rule and its generated rules. If this is a generated
+        # rule, then it is the only one.
+        rule_name = rule if isinstance(rule, string_types) else rule.name
+        result = []
+        for generated, original in self._original_rules:
+            if original.name == rule_name:
+                result.extend([original, generated])
+            elif generated.name == rule_name:
+                result.append(generated)
+        return result
 
     def _compile(self, compile_as_root_grammar):
         """
@@ -177,12 +251,20 @@ class DictationGrammar(Grammar):
         """
         self.rearrange_rules()
 
+        # Use the header and imports of this grammar.
+        grammar = self._jsgf_only_grammar
+        grammar.name = self.name
+        grammar.jsgf_version = self.jsgf_version
+        grammar.charset_name = self.charset_name
+        grammar.language_name = self.language_name
+        grammar._imports = list(self._imports)
+
         try:
             # Compile the grammar
             if compile_as_root_grammar:
-                result = self._jsgf_only_grammar.compile_as_root_grammar()
+                result = grammar.compile_as_root_grammar()
             else:
-                result = self._jsgf_only_grammar.compile()
+                result = grammar.compile()
 
             # Check for compiled rules
             rule_pattern = re.compile("(public )?<.+> = .+;")
@@ -211,24 +293,22 @@ class DictationGrammar(Grammar):
         and the internal grammar used for JSGF only rules depending on whether a
         ``SequenceRule``'s current expansion is dictation-only or not.
         """
-        for rule in tuple(self._jsgf_only_grammar.match_rules):
-            if not isinstance(rule, SequenceRule):
-                continue
-            if rule.current_is_dictation_only:
-                self._jsgf_only_grammar.remove_rule(rule)
-                self._dictation_rules.append(rule)
+        for rule in self._jsgf_only_grammar.rules:
+            if isinstance(rule, SequenceRule) and rule.current_is_dictation_only:
+                self._take_rule(rule)
+                self._place_rule(rule)
 
         for rule in tuple(self._dictation_rules):
             if not rule.current_is_dictation_only:
-                self._jsgf_only_grammar.add_rule(rule)
-                self._dictation_rules.remove(rule)
+                self._take_rule(rule)
+                self._place_rule(rule)
 
     def reset_sequence_rules(self):
         """
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        for r, _ in self._original_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
@@ -255,7 +335,9 @@ class DictationGrammar(Grammar):
         for rule in result:
             original = self.get_original_rule(rule)
             if isinstance(rule, SequenceRule):
-                SequenceRule.graft_sequence_matches(rule, original.expansion)
+                # Sequence rules do this for their own original expansions.
+                if original is not rule:
+                    SequenceRule.graft_sequence_matches(rule, original.expansion)
 
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
-- 
2.43.0


From dc6c3512a6294aa102090c1a5755ca11a13e9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 40/48] fix: Keep the weights of alternatives that are changed

Weights are kept by hash, so changing the text, case sensitivity, tag or
children of an alternative lost its weight. Compiling, matching or
generating from the set then raised a GrammarError.
---
 jsgf/expansions.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6313407..f5839a8 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1833,6 +1833,7 @@ class AlternativeSet(VariableChildExpansion):
     """
     def __init__(self, *expansions):
         self._weights = {}
+        self._weight_hashes = []
         super(AlternativeSet, self).__init__(*expansions)
 
     @property
@@ -1842,7 +1843,16 @@ class AlternativeSet(VariableChildExpansion):
 
         :rtype: dict
         """
-        return self._weights
+        # Alternatives have other hashes if they are changed, so update the dictionary
+        # in place if any of the hashes differ from those it was made with.
+        weights = self._weights
+        hashes = [hash(e) for e in weights]
+        if hashes != self._weight_hashes:
+            items = list(weights.items())
+            weights.clear()
+            weights.update(items)
+            self._weight_hashes = [hash(e) for e in weights]
+        return weights
 
     @weights.setter
     def weights(self, value):
@@ -1884,7 +1894,7 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
-        self._weights[child] = weight
+        self.weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
         # element hasn't been initialised.
@@ -1919,21 +1929,22 @@ class AlternativeSet(VariableChildExpansion):
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
+        weights = self.weights
         for e in self.children:
-            if e not in self._weights:
+            if e not in weights:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self._weights and self.children:
+        if self.weights and self.children:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
             # such that:
             # /<w 0>/ <e 0> | ... | /<w n-1>/ <e n-1>
             alt_set = "|".join([
-                "/%.4f/ %s" % (float(self._weights[e]), e.compile(ignore_tags))
+                "/%.4f/ %s" % (float(self.weights[e]), e.compile(ignore_tags))
                 for e in self.children
             ])
         else:
@@ -1961,11 +1972,11 @@ class AlternativeSet(VariableChildExpansion):
         """
         if not self.children:
             return ""
-        if self._weights:
+        if self.weights:
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            weights = [self._weights[child] for child in self.children]
+            weights = [self.weights[child] for child in self.children]
             w_sum = sum(weights)
             rand = random.random()
             # print("rand = %s" % rand)
@@ -1988,13 +1999,13 @@ class AlternativeSet(VariableChildExpansion):
             return self._set_matcher_element_attributes(pyparsing.Empty())
 
         # Return an element that can match the alternatives.
-        if self._weights:
+        if self.weights:
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0.
             children = []
             for e in self.children:
-                w = self._weights[e]
+                w = self.weights[e]
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From 13e64fec6a2ef5111d15b244c013c395a43fa30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 41/48] fix: Let deep copies of rules and pickles of weighted
 alternatives work

Expansions of deep-copied rules did not belong to the copies, so references
by name in copied grammars could not be resolved. A part of an alternative
with a weight could not be loaded because dictionaries are loaded with the
hashes of their keys, and calculations stored by object ID were kept.
---
 jsgf/expansions.py | 13 +++++++++++++
 jsgf/rules.py      | 15 +++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f5839a8..809bc1c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1030,6 +1030,9 @@ class Expansion(object):
     def __getstate__(self):
         state = self.__dict__.copy()
         state['_matcher_element'] = None
+
+        # Stored calculations use the IDs of expansions.
+        state['_lookup_dict'] = None
         return state
 
     @property
@@ -1845,6 +1848,8 @@ class AlternativeSet(VariableChildExpansion):
         """
         # Alternatives have other hashes if they are changed, so update the dictionary
         # in place if any of the hashes differ from those it was made with.
+        if isinstance(self._weights, list):
+            self._weights = dict(self._weights)
         weights = self._weights
         hashes = [hash(e) for e in weights]
         if hashes != self._weight_hashes:
@@ -1926,6 +1931,14 @@ class AlternativeSet(VariableChildExpansion):
         result.weights = {copies.get(e, e): w for e, w in self.weights.items()}
         return result
 
+    def __getstate__(self):
+        # Alternatives may not be hashable yet while they are being loaded, so keep
+        # the weights as a list until they are used.
+        state = super(AlternativeSet, self).__getstate__()
+        state['_weights'] = list(self.weights.items())
+        state['_weight_hashes'] = []
+        return state
+
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
diff --git a/jsgf/rules.py b/jsgf/rules.py
index b9ebf90..ef0cb41 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,6 +5,8 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
+from copy import deepcopy
+
 from .errors import GrammarError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
@@ -101,12 +103,25 @@ class Rule(references.BaseRef):
         # Handle the object passed in as an expansion
         self._expansion = Expansion.make_expansion(value)
 
+        self._set_rule_attributes()
+
+    def _set_rule_attributes(self):
         # Set the rule attribute for the rule's expansions
         def set_rule(x):
             x.rule = self
 
         map_expansion(self._expansion, set_rule, shallow=True)
 
+    def __deepcopy__(self, memo):
+        result = type(self).__new__(type(self))
+        memo[id(self)] = result
+        for name, value in self.__dict__.items():
+            result.__dict__[name] = deepcopy(value, memo)
+
+        # Copies of expansions don't belong to a rule.
+        result._set_rule_attributes()
+        return result
+
     def compile(self, ignore_tags=False):
         """
         Compile this rule's expansion tree and return the result.
-- 
2.43.0


From 31dd99d0e905a752a18d7933a43ac4b894d29457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 42/48] fix: Let moved expansions and references belong to
 where they are now

The expansion set for a rule kept its old parent if it was part of a tree, so
it could still be optional, and moved references by name were resolved with
the grammar of the rule that they were in when it was created.
---
 jsgf/expansions.py | 8 ++++++--
 jsgf/rules.py      | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 809bc1c..46ed269 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1269,8 +1269,12 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        # Use the rule of the root expansion if this was added to its tree later on.
-        rule = self.rule or self.root_expansion.rule
+        # Use the rule of this tree's root expansion, as this could have been added to
+        # the tree later on or moved from another one. Ignore joined trees.
+        root = self
+        while root.parent and not isinstance(root.parent, NamedRuleRef):
+            root = root.parent
+        rule = root.rule or self.rule
         if rule and rule.grammar:
             return rule.grammar.get_rule_from_name(self.name)
         else:
diff --git a/jsgf/rules.py b/jsgf/rules.py
index ef0cb41..2c0ddf9 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -103,6 +103,10 @@ class Rule(references.BaseRef):
         # Handle the object passed in as an expansion
         self._expansion = Expansion.make_expansion(value)
 
+        # The expansion is a root expansion now, even if it was a child before.
+        if self._expansion.parent:
+            self._expansion.parent = None
+
         self._set_rule_attributes()
 
     def _set_rule_attributes(self):
-- 
2.43.0


From 5c7b3402d04f573a214a0d27fb29a913ab2db513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 43/48] fix: Let references to rules have the names of the
 rules

---
 jsgf/expansions.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 46ed269..7f31288 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1592,8 +1592,25 @@ class RuleRef(NamedRuleRef):
         """
         :param referenced_rule:
         """
-        super(RuleRef, self).__init__(referenced_rule.name)
         self._referenced_rule = referenced_rule
+        super(RuleRef, self).__init__(referenced_rule.name)
+
+    @property
+    def name(self):
+        """
+        The name of the referenced rule.
+
+        :returns: str
+        """
+        # The rule may have been renamed since this reference was made.
+        return self._referenced_rule.name
+
+    @name.setter
+    def name(self, value):
+        if value != self.name:
+            raise GrammarError("cannot set the name of a reference to %r; it is always "
+                               "the name of the rule" % self.name)
+        BaseExpansionRef.name.fset(self, value)
 
     @property
     def referenced_rule(self):
-- 
2.43.0


From 1280665a3760faca8f03470a5d2860ed5edb6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 44/48] fix: Compare how often sets of alternatives have each
 alternative

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7f31288..f554e06 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -7,6 +7,7 @@ import functools
 import math
 import random
 import re
+from collections import Counter
 from copy import deepcopy
 
 import pyparsing
@@ -2060,7 +2061,7 @@ class AlternativeSet(VariableChildExpansion):
 
             # Check that the children lists have the same contents, but the
             # ordering can be different. Also check the weights dictionaries.
-            set(self.children) == set(other.children) and
+            Counter(self.children) == Counter(other.children) and
             self.weights == other.weights
         )
 
-- 
2.43.0


From 1469828e34f16e4c65d7e2340718a04dbe63d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 45/48] fix: Keep the match data of an expansion matched inside
 its tree

---
 jsgf/expansions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f554e06..92384fb 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -804,9 +804,10 @@ class Expansion(object):
 
         # Do a second pass of the expansion tree for post-processing.
         def process(x):
-            # Remove partial matches.
-            if (x.parent and not isinstance(x, NamedRuleRef) and not
-                    x.parent.current_match):
+            # Remove partial matches. The ancestors of this expansion, if it has
+            # any, don't take part in the match.
+            if (x is not self and x.parent and not isinstance(x, NamedRuleRef)
+                    and not x.parent.current_match):
                 x.current_match = None
                 x.matching_slice = None
 
-- 
2.43.0


From b15f4e1b3b73ff2fd5e7e56f5d2c90045a6e5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 46/48] fix: Reset data of earlier matches when matching an
 expansion

---
 jsgf/expansions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 92384fb..85534c6 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -789,10 +789,13 @@ class Expansion(object):
         # Match the string using this expansion's parser element. Ensure that there
         # is only one space between words.
         speech = " ".join(speech.split())
+
+        # Get the matcher element before resetting data set by earlier matches, as
+        # it can be made from these.
+        element = self.matcher_element
+        self.reset_for_new_match()
         try:
-            result = " ".join(
-                self.matcher_element.parseString(speech).asList()
-            )
+            result = " ".join(element.parseString(speech).asList())
         except pyparsing.ParseException:
             # Reset data set by parts of the tree that did match.
             self.reset_for_new_match()
-- 
2.43.0


From e819caccbeebf9f2fe7d55b5e681d8128864a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 47/48] fix: Escape the text of literals in their regex
 patterns

---
 jsgf/expansions.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 85534c6..b3e4bd6 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1562,12 +1562,9 @@ class Literal(Expansion):
 
         :returns: regex pattern object
         """
-        # Selectively escape certain characters because this text will
-        # be used in a regular expression pattern string.
-        escaped = self.text.replace(".", r"\.")
-
-        # Create a list of words from text.
-        words = escaped.split()
+        # Create a list of words from text. Escape special characters because the
+        # words will be used in a regular expression pattern string.
+        words = [re.escape(word) for word in self.text.split()]
 
         # Return a regex pattern to use.
         return re.compile(r"\s+".join(words))
-- 
2.43.0


From f427cf00baa0cf50e842d5040ff2066756374998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 48/48] fix: Find parts of speech that have words, without
 white space around them

---
 jsgf/rules.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 2c0ddf9..463f3db 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -310,13 +310,15 @@ class Rule(references.BaseRef):
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
 
-        # Use the first match (if any) and break. The loop is required because
-        # scanString returns a generator.
+        # Use the first match with any words (if any) and break. The loop is required
+        # because scanString returns a generator.
         result = None
         for match in self.expansion.matcher_element.scanString(speech):
             _, start, end = match
-            result = speech[start:end]
-            break
+            part = speech[start:end].strip()
+            if part:
+                result = part
+                break
 
         return result
 
-- 
2.43.0

