From f5cc1d2135b866593ddb1f710a1d412cebb68781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 01/61] fix: reading text that is only white space no longer
 raises an IndexError

---
 mygrations/formats/mysql/file_reader/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 92d8291..250a88d 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -163,6 +163,8 @@ class Reader:
 
             # never hurts
             data = data.strip()
+            if not data:
+                break
 
             # now we are looking for one of three things:
             # comment, create, insert
-- 
2.43.0


From 6380d4219b944fdf256b4e5e77424035735dbc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 02/61] fix: comments and white space inside quoted text are
 kept, comments between commands no longer swallow what follows

---
 mygrations/core/parse/parser.py                  |  5 +++--
 mygrations/core/parse/text.py                    | 16 ++++++++++++++++
 .../formats/mysql/file_reader/create_parser.py   |  3 ++-
 mygrations/formats/mysql/file_reader/reader.py   |  5 ++++-
 4 files changed, 25 insertions(+), 4 deletions(-)
 create mode 100644 mygrations/core/parse/text.py

diff --git a/mygrations/core/parse/parser.py b/mygrations/core/parse/parser.py
index 8ebab47..87185ae 100644
--- a/mygrations/core/parse/parser.py
+++ b/mygrations/core/parse/parser.py
@@ -1,8 +1,8 @@
-import re
 from .rule_children import RuleChildren
 from .rule_delimited import RuleDelimited
 from .rule_literal import RuleLiteral
 from .rule_regexp import RuleRegexp
+from .text import collapse_whitespace
 
 
 class Parser:
@@ -67,7 +67,8 @@ class Parser:
 
         # first thing first, some initial string cleaning.  Clean spaces
         # from start and end and replace any multi-spaces with a single space.
-        string = re.sub("\s+", " ", string).strip()
+        # Quoted text is left exactly as it is.
+        string = collapse_whitespace(string).strip()
         number_rules = len(self.rules)
         self._values = {}
 
diff --git a/mygrations/core/parse/text.py b/mygrations/core/parse/text.py
new file mode 100644
index 0000000..326e3ae
--- /dev/null
+++ b/mygrations/core/parse/text.py
@@ -0,0 +1,16 @@
+import re
+
+# quoted text: backslashes escape the next character and a doubled quote is one quote
+QUOTED = r"""'(?:\\.|''|[^'\\])*'|"(?:\\.|""|[^"\\])*"|`[^`]*`"""
+_whitespace = re.compile(QUOTED + r"|\s+", re.DOTALL)
+_comments = re.compile(QUOTED + r"|--[^\n]*|#[^\n]*|/\*.*?\*/", re.DOTALL)
+
+
+def collapse_whitespace(string):
+    """ Replaces any white space by a single space, except inside quoted text """
+    return _whitespace.sub(lambda match: match.group(0) if match.group(0)[0] in "'\"`" else " ", string)
+
+
+def strip_comments(string):
+    """ Removes the comments from an SQL string, leaving anything inside quoted text alone """
+    return _comments.sub(lambda match: match.group(0) if match.group(0)[0] in "'\"`" else " ", string)
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 47d578c..5ad2319 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -2,6 +2,7 @@ import re
 from collections import OrderedDict
 
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.text import strip_comments
 from mygrations.formats.mysql.definitions.constraint import Constraint
 from mygrations.formats.mysql.definitions.index import Index
 from mygrations.formats.mysql.definitions.table import Table
@@ -70,7 +71,7 @@ class CreateParser(Table, Parser):
         # parser.py:68 does re.sub('\s+', ' ', string) which turns newlines into
         # spaces, so '-- comment\ncolumn' becomes '-- comment column' and the
         # comment eats the next line. Stripping here prevents that.
-        string = re.sub(r"--[^\n]*", "", string)
+        string = strip_comments(string)
         # Strip index prefix-lengths like full_path(255) → full_path.
         # The delimited parser splits column lists on ')' which conflicts with
         # the inner ')' of prefix-lengths. We match word(digits) preceded by
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 250a88d..294c542 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -1,4 +1,5 @@
 import io, os
+from mygrations.core.parse.text import strip_comments
 from .comment_parser import CommentParser
 from .create_parser import CreateParser
 from .insert_parser import InsertParser
@@ -152,7 +153,9 @@ class Reader:
 
     def parse(self, filename):
 
-        data = self._unpack(filename)
+        # comments go first: the parsers replace line breaks with spaces, after which
+        # it isn't possible to tell where a comment ends
+        data = strip_comments(self._unpack(filename))
 
         # okay then!  This is our main parsing loop.
         c = 0
-- 
2.43.0


From c86aafc25a61e7526cfd38c59f85da9cc4e5e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 03/61] fix: escaped quotes in INSERT values are read, and
 quoted NULL is text while unquoted null in any case is a missing value

---
 mygrations/core/parse/rule_delimited.py       | 29 ++++++++++++++++++-
 .../file_reader/parsers/insert_values.py      | 12 +++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 71888d0..621f688 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -1,4 +1,11 @@
+import re
 from .rule_base import RuleBase
+class Quoted(str):
+    """ A value that was written in quotes.  Escape sequences are still in there: see unescape() """
+    def unescape(self):
+        return str(re.sub(r"\\([\\'\"])", r"\1", self))
+
+
 class RuleDelimited(RuleBase):
     """ rule = rule_delimited( parser, rule, next_rule )
 
@@ -82,8 +89,28 @@ class RuleDelimited(RuleBase):
         vals = []
         current = ''
         in_quote = False
+        skip = 0
         for (index, char) in enumerate(string):
 
+            # already taken care of
+            if skip:
+                skip -= 1
+                continue
+
+            # inside of quotes a backslash belongs to the next character, and two
+            # quotes in a row are one quote that is part of the value.
+            if in_quote and self.quote != '`':
+                pair = string[index:index + 2]
+                if pair[0] == '\\' and len(pair) == 2:
+                    current += pair
+                    skip = 1
+                    continue
+
+                if pair == self.quote * 2:
+                    current += '\\%s' % self.quote
+                    skip = 1
+                    continue
+
             # if we hit a quote then we need to start/finish a word
             if self.quote and char == self.quote:
 
@@ -95,7 +122,7 @@ class RuleDelimited(RuleBase):
 
                 # close word
                 else:
-                    vals.append(current)
+                    vals.append(current if self.quote == '`' else Quoted(current))
                     has_word = False
                     in_quote = False
 
diff --git a/mygrations/formats/mysql/file_reader/parsers/insert_values.py b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
index 4aed6f1..9af86f4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/insert_values.py
+++ b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.rule_delimited import Quoted
 
 
 class InsertValues(Parser):
@@ -14,7 +15,10 @@ class InsertValues(Parser):
 
     def process(self):
 
-        self.values = [
-            str(val).replace("\\\\", "\\").replace("\\'", "'") if val != "NULL" else None
-            for val in self._values["values"]
-        ]
+        self.values = [self._value(val) for val in self._values["values"]]
+
+    def _value(self, val):
+        # only a bare NULL is a missing value: in quotes it is text like any other
+        if isinstance(val, Quoted):
+            return val.unescape()
+        return None if val.upper() == "NULL" else str(val)
-- 
2.43.0


From 67ee4767146d4dbb5e2aaf0f447fb63eb575c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 04/61] fix: column defaults with spaces, commas, parentheses
 or escaped quotes are read

---
 .../formats/mysql/file_reader/parsers/type.py    | 16 +++++++++++++---
 .../mysql/file_reader/parsers/type_character.py  |  8 ++++----
 .../mysql/file_reader/parsers/type_decimal.py    |  8 ++++----
 .../mysql/file_reader/parsers/type_enum.py       |  8 ++++----
 .../mysql/file_reader/parsers/type_numeric.py    |  8 ++++----
 .../mysql/file_reader/parsers/type_plain.py      |  8 +++++---
 .../mysql/file_reader/parsers/type_text.py       |  8 ++++----
 7 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c66554b..3123ab5 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -1,17 +1,27 @@
+import re
 from mygrations.formats.mysql.definitions import columns
 from mygrations.core.definitions.columns.column import Column
 
 
+# a default is either a quoted string (which may have anything inside) or a single word
+DEFAULT = r"""DEFAULT ('(?:\\.|''|[^'\\])*'|"(?:\\.|""|[^"\\])*"|[^\(\s\),'"]+)"""
+
+
 class Type:
+    @staticmethod
+    def _is_quoted(value):
+        return bool(value) and len(value) >= 2 and value[0] in "'\"" and value[-1] == value[0]
+
     @staticmethod
     def _unquote(value):
-        """Strip surrounding single quotes from *value* if present.
+        """Strip surrounding quotes from *value* if present, and resolve escaped quotes and backslashes.
 
         Returns the stripped string, or the original value unchanged if
         it is not quoted.
         """
-        if value and len(value) >= 2 and value[0] == "'" and value[-1] == "'":
-            return value.strip("'")
+        if Type._is_quoted(value):
+            quote = value[0]
+            return re.sub(r"\\([\\'\"])|%s%s" % (quote, quote), lambda m: m.group(1) or quote, value[1:-1])
         return value
 
     def _init_errors(self):
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index e60381f..d2315eb 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -1,5 +1,5 @@
 from mygrations.core.parse.parser import Parser
-from .type import Type
+from .type import DEFAULT, Type
 
 
 class TypeCharacter(Parser, Type):
@@ -37,7 +37,7 @@ class TypeCharacter(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -57,8 +57,8 @@ class TypeCharacter(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 0a095a1..5d336cb 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -1,5 +1,5 @@
 from mygrations.core.parse.parser import Parser
-from .type import Type
+from .type import DEFAULT, Type
 
 
 class TypeDecimal(Parser, Type):
@@ -19,7 +19,7 @@ class TypeDecimal(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": DEFAULT, "optional": True, "name": "default"},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
@@ -36,8 +36,8 @@ class TypeDecimal(Parser, Type):
         self._default = self._values.get("default")
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
             self._parsing_warnings.append(
                 "Column '%s' has a numeric type but its default value is a string" % self._name
             )
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index ec86893..7d98b70 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -1,5 +1,5 @@
 from mygrations.core.parse.parser import Parser
-from .type import Type
+from .type import DEFAULT, Type
 
 
 class TypeEnum(Parser, Type):
@@ -16,7 +16,7 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
@@ -36,8 +36,8 @@ class TypeEnum(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index e4afca8..9c9c7f5 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -1,5 +1,5 @@
 from mygrations.core.parse.parser import Parser
-from .type import Type
+from .type import DEFAULT, Type
 
 
 class TypeNumeric(Parser, Type):
@@ -29,7 +29,7 @@ class TypeNumeric(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "name": "default", "optional": True},
+        {"type": "regexp", "value": DEFAULT, "name": "default", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
@@ -48,8 +48,8 @@ class TypeNumeric(Parser, Type):
         self.is_char = self._column_type in ["char", "varchar"]
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index b40e14a..5596a43 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -1,5 +1,5 @@
 from mygrations.core.parse.parser import Parser
-from .type import Type
+from .type import DEFAULT, Type
 
 
 class TypePlain(Parser, Type):
@@ -21,7 +21,7 @@ class TypePlain(Parser, Type):
         {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {
             "type": "regexp",
-            "value": "DEFAULT ([^\(\s\),]+)",
+            "value": DEFAULT,
             "optional": True,
             "name": "default",
         },
@@ -41,7 +41,7 @@ class TypePlain(Parser, Type):
         self._column_type = self._normalize_type(self._values["type"])
         self._unsigned = "UNSIGNED" in self._values
         self._has_default = "default" in self._values
-        self._default = self._unquote(self._values.get("default"))
+        self._default = self._values.get("default")
         self._auto_increment = "AUTO_INCREMENT" in self._values
         self._is_primary_key = "PRIMARY KEY" in self._values
 
@@ -67,3 +67,5 @@ class TypePlain(Parser, Type):
         # make sense of the default
         if self._default and self._default.lower() == "null":
             self._default = None
+        else:
+            self._default = self._unquote(self._default)
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index 1f44ae4..fbaeded 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -1,5 +1,5 @@
 from mygrations.core.parse.parser import Parser
-from .type import Type
+from .type import DEFAULT, Type
 
 
 class TypeText(Parser, Type):
@@ -29,7 +29,7 @@ class TypeText(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": DEFAULT, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -49,8 +49,8 @@ class TypeText(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # slightly more work on the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
-- 
2.43.0


From b6b66384f3f819d02018e40549bfe2f019634324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 05/61] fix: the values of ENUM and SET columns are read

---
 mygrations/formats/mysql/file_reader/parsers/type.py   |  2 +-
 .../formats/mysql/file_reader/parsers/type_enum.py     | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 3123ab5..7b56fe4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -120,7 +120,7 @@ class Type:
             character_set=getattr(self, "_character_set", None),
             collate=getattr(self, "_collate", None),
             auto_increment=getattr(self, "_auto_increment", None),
-            enum_values=getattr(self, "enum_values", None),
+            enum_values=getattr(self, "_enum_values", None),
             parsing_errors=getattr(self, "_parsing_errors", None),
             parsing_warnings=getattr(self, "_parsing_warnings", None),
         )
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 7d98b70..156f341 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -14,9 +14,16 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
         {"type": "literal", "value": ")"},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
+        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": DEFAULT, "optional": True, "name": "default"},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
@@ -27,8 +34,7 @@ class TypeEnum(Parser, Type):
         self._init_errors()
         self._name = self._extract_name()
         self._column_type = self._values["type"]
-        self._enum_values = self._values["enum_values"]
-        self._length = self._enum_values
+        self._enum_values = [getattr(value, "unescape", value.strip)() for value in self._values["enum_values"]]
         self._null = self._extract_null()
         self._has_default = "default" in self._values
         self._default = self._values.get("default")
-- 
2.43.0


From bac7e2468997f88575187ff91cf20066660d9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 06/61] fix: columns of type DATE, ENUM and SET can be checked
 for errors

---
 mygrations/core/definitions/columns/date.py |  4 ++--
 mygrations/core/definitions/columns/enum.py | 10 +++-------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 720ee2f..1b44776 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -52,10 +52,10 @@ class Date(Column):
         if self.collate is not None:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a collate")
 
-        if self.auto_increment and self.column_type in no_auto_increment:
+        if self.auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
-        if self.values:
+        if self.enum_values:
             self._schema_errors.append(
                 "Column '%s' of type %s is not allowed to have a list of values for its length" %
                 (self.name, self.column_type)
diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index abc049f..62567ab 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -46,13 +46,9 @@ class Enum(String):
         if not self.enum_values or type(self.enum_values) != list:
             self._schema_errors.append(f"column '{self.name}' of type '{self.column_type}' must have a list of values")
 
-        if self.default and self.default not in self.enum_values:
+        # the default of a SET column can have any number of the values, separated by commas
+        defaults = (self.default or '').split(',') if self.column_type == 'SET' else [self.default]
+        if self.default and any(default not in (self.enum_values or []) for default in defaults):
             self._schema_errors.append(
                 f"Default value for '{self.column_type}' column '{self.name}' is not in the list of allowed values"
             )
-
-        if self.auto_increment and self.column_type in no_auto_increment:
-            self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
-
-        if self.unsigned:
-            self._schema_errors.append("Column %s cannot be unsigned" % self._name)
-- 
2.43.0


From 9b6e4cf06b6d9da138b44c397d01ebbcfb4470e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 07/61] fix: quotes and backslashes in column defaults and enum
 values are escaped, CURRENT_TIMESTAMP is not quoted

---
 mygrations/core/definitions/columns/column.py | 21 ++++++++++++-------
 mygrations/core/definitions/columns/date.py   |  6 ++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 95a6c4e..b4fa791 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -211,7 +211,7 @@ class Column(Base):
 
         type_string = self.column_type
         if self.enum_values:
-            type_string += "('%s')" % ("', '".join(self.enum_values))
+            type_string += "(%s)" % (", ".join(self._quote(value) for value in self.enum_values))
         elif self.length is not None and self.length != "":
             type_string += "(%s)" % self.length
         parts.append(type_string)
@@ -223,18 +223,25 @@ class Column(Base):
             parts.append("NOT NULL")
 
         if self.default is not None:
-            if self.default == "":
-                parts.append("DEFAULT ''")
-            elif type(self.default) != str or self.default.isnumeric():
-                parts.append("DEFAULT %s" % self.default)
-            else:
-                parts.append("DEFAULT '%s'" % self.default)
+            parts.append("DEFAULT %s" % self._default_as_sql())
 
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
 
         return " ".join(parts)
 
+    @staticmethod
+    def _quote(value: str) -> str:
+        """Returns the value as a quoted string for use in an SQL command"""
+        return "'%s'" % value.replace("\\", "\\\\").replace("'", "''")
+
+    def _default_as_sql(self) -> str:
+        """Returns the default value as it should show up in an SQL command"""
+        # numbers don't need quotes, but text like 007 does because it would otherwise turn into 7
+        if type(self.default) != str or (self.default.isdecimal() and self.default == str(int(self.default))):
+            return str(self.default)
+        return self._quote(self.default)
+
     def is_really_the_same_as(self, column: Column) -> bool:
         """Takes care of a pesky false-positive when checking columns
 
diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 1b44776..9756096 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -41,6 +41,12 @@ class Date(Column):
             parsing_warnings=parsing_warnings,
         )
 
+    def _default_as_sql(self) -> str:
+        # CURRENT_TIMESTAMP is a keyword, and not text
+        if str(self.default).upper() == 'CURRENT_TIMESTAMP':
+            return self.default
+        return super()._default_as_sql()
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-- 
2.43.0


From 48075dc2d20dccadfde8b651a313e1726be85719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 08/61] fix: changes of auto increment, enum values and large
 or decimal defaults are found, implied lengths are no difference

---
 mygrations/core/definitions/columns/column.py | 16 ++++++---
 mygrations/core/definitions/columns/date.py   |  4 ++-
 .../core/definitions/columns/numeric.py       | 34 ++++++++++++-------
 mygrations/core/definitions/columns/string.py |  5 +++
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index b4fa791..62aef2f 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -15,6 +15,7 @@ class Column(Base):
     _null: bool = None
     _unsigned: bool = None
     _allowed_column_types = []
+    _implied_lengths = {}
     _enum_values: List[str] = None  # enum/set only
     _parsing_errors: List[str] = None
     _parsing_warnings: List[str] = None
@@ -249,15 +250,16 @@ class Column(Base):
         :returns: True if the column really is the same, even for apparent differences
         """
         # if any of these attributes change then it really isn't the same
-        for attr in ["name", "length", "null", "column_type"]:
+        for attr in ["name", "_normalized_length", "null", "column_type"]:
             if getattr(self, attr) != getattr(column, attr):
                 return False
 
-        # unsigned needs a looser comparison: None (not applicable) and False (not unsigned)
+        # unsigned and auto_increment needs a looser comparison: None (not applicable) and False (not unsigned)
         # are functionally equivalent.  Different parsers may produce different falsy values
         # for the same column (e.g. TypePlain sets False, TypeText leaves None).
-        if bool(self.unsigned) != bool(column.unsigned):
-            return False
+        for attr in ["unsigned", "auto_increment"]:
+            if bool(getattr(self, attr)) != bool(getattr(column, attr)):
+                return False
 
         if self._default_none_mismatch(column):
             return False
@@ -270,6 +272,12 @@ class Column(Base):
         # (see tests.formats.mysql.definitions.test_table_text_false_positives)
         return True
 
+    @property
+    def _normalized_length(self) -> str:
+        """Returns the length as MySQL would print it: it fills in the length of columns declared without one"""
+        length = "" if self.length is None else str(self.length)
+        return length if length else self._implied_lengths.get(self.column_type, "")
+
     def _default_none_mismatch(self, column: Column) -> bool:
         if self.default is not None and column.default is None:
             return True
diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 9756096..aafea6a 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -7,6 +7,8 @@ class Date(Column):
         'TIMESTAMP',
     ]
 
+    _implied_lengths = {'YEAR': '4'}
+
     def __init__(
         self,
         name: str = '',
@@ -50,7 +52,7 @@ class Date(Column):
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-        if self.length:
+        if self.length and self._normalized_length != self._implied_lengths.get(self.column_type):
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a length")
 
         if self.character_set is not None:
diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index a59ddfa..5a9dde7 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -1,3 +1,4 @@
+from decimal import Decimal, InvalidOperation, ROUND_HALF_UP, localcontext
 from .column import Column
 from typing import List, Union
 
@@ -17,6 +18,8 @@ class Numeric(Column):
         "BIT",
     ]
 
+    _implied_lengths = {"DECIMAL": "10,0"}
+
     def __init__(
         self,
         name: str = "",
@@ -86,7 +89,7 @@ class Numeric(Column):
                 self._schema_errors.append(
                     f"Column '{self.name}' of type '{self.column_type}' must have an integer value as a default"
                 )
-            if self.column_type == "BIT" and int(self.default) != 0 and int(self.default) != 1:
+            if self.column_type == "BIT" and self.default is not None and int(self.default) != 0 and int(self.default) != 1:
                 self._schema_errors.append(f"Column '{self.name}' of type 'BIT' must have a default of 1 or 0")
 
         if self.length:
@@ -127,8 +130,9 @@ class Numeric(Column):
             for attr in ["name", "null", "column_type"]:
                 if getattr(self, attr) != getattr(column, attr):
                     return False
-            if bool(self.unsigned) != bool(column.unsigned):
-                return False
+            for attr in ["unsigned", "auto_increment"]:
+                if bool(getattr(self, attr)) != bool(getattr(column, attr)):
+                    return False
             if self._default_none_mismatch(column):
                 return False
             if not self._is_really_the_same_default(column):
@@ -136,22 +140,26 @@ class Numeric(Column):
             return True
         return super().is_really_the_same_as(column)
 
+    @property
+    def _normalized_length(self) -> str:
+        length = super()._normalized_length
+        return f"{length},0" if self.column_type == "DECIMAL" and "," not in length else length
+
     def _is_really_the_same_default(self, column: Column) -> bool:
         if self.default is None and column.default is None:
             return True
         if self.default is None or column.default is None:
             return False
-        if self.column_type != "DECIMAL":
-            return float(self.default) == float(column.default)
-
         # Default equality is mildly tricky for decimals because 0 and 0.000 are the same,
         # and if there are 4 digits after the decimal than 0.0000 and 0.00001 are the same too
         # This will come up if someone sets a default in an SQL file with too many (or too few) decimals,
         # while MySQL will report it properly rounded to the exact number of decimal places
-        split = self.length.split(",")
-        if len(split) == 2:
-            ndecimals = int(split[1])
-            if round(float(self.default), ndecimals) == round(float(column.default), ndecimals):
-                return True
-
-        return self.default == column.default
+        try:
+            mine, theirs = Decimal(str(self.default)), Decimal(str(column.default))
+            if self.column_type == "DECIMAL":
+                digits = Decimal(1).scaleb(-int(self._normalized_length.split(",")[1]))
+                with localcontext(prec=100):
+                    mine, theirs = mine.quantize(digits, ROUND_HALF_UP), theirs.quantize(digits, ROUND_HALF_UP)
+        except InvalidOperation:
+            return self.default == column.default
+        return mine == theirs
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index 0ff74d1..bb9982a 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -49,6 +49,8 @@ class String(Column):
         "SET",
     ]
 
+    _implied_lengths = {"CHAR": "1", "BINARY": "1"}
+
     def __init__(
         self,
         name: str = "",
@@ -156,6 +158,9 @@ class String(Column):
         if not super().is_really_the_same_as(column):
             return False
 
+        if (self.enum_values or []) != (column.enum_values or []):
+            return False
+
         # if collate or character_set are different and *both* have a value,
         # then these aren't really the same
         for attr in ["collate", "character_set"]:
-- 
2.43.0


From 4b25f2ef7d9d79a9d0bd18aaac1a7e13f1c4276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 09/61] fix: lists with missing values or separators are
 refused instead of misread, double quoted text is supported

---
 mygrations/core/parse/rule_delimited.py | 60 +++++++++++++++----------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 621f688..e355f50 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -84,11 +84,15 @@ class RuleDelimited(RuleBase):
         end = self.next_rule['value'].lower()
         end_len = len(end)
 
+        # text can be in single or double quotes
+        quotes = '\'"' if self.quote == "'" else self.quote
+
         # it's ugly, but we will do this one character at a time
         has_word = False
+        finished = False
         vals = []
         current = ''
-        in_quote = False
+        in_quote = ''
         skip = 0
         for (index, char) in enumerate(string):
 
@@ -106,36 +110,27 @@ class RuleDelimited(RuleBase):
                     skip = 1
                     continue
 
-                if pair == self.quote * 2:
-                    current += '\\%s' % self.quote
+                if pair == in_quote * 2:
+                    current += '\\%s' % in_quote
                     skip = 1
                     continue
 
-            # if we hit a quote then we need to start/finish a word
-            if self.quote and char == self.quote:
-
-                # open word
-                if not in_quote:
-                    in_quote = True
-                    has_word = True
-                    current = ''
-
-                # close word
-                else:
-                    vals.append(current if self.quote == '`' else Quoted(current))
-                    has_word = False
-                    in_quote = False
-
+            # close word
+            if in_quote and char == in_quote:
+                vals.append(current if self.quote == '`' else Quoted(current))
+                in_quote = ''
+                finished = True
                 continue
 
             # next deal with other characters outside of quotes
             if not in_quote:
 
                 # are we done parsing?
-
                 if string[index:index + end_len].lower() == end:
                     if has_word:
                         vals.append(current)
+                    elif not finished:
+                        return self._no_match(string)
                     break
 
                 # if we hit a separator then we need to start a new word
@@ -143,7 +138,10 @@ class RuleDelimited(RuleBase):
 
                     if has_word:
                         vals.append(current)
-                        has_word = False
+                    elif not finished:
+                        return self._no_match(string)
+                    has_word = False
+                    finished = False
                     current = ''
 
                     continue
@@ -153,10 +151,23 @@ class RuleDelimited(RuleBase):
                     if has_word:
                         vals.append(current)
                         has_word = False
+                        finished = True
 
                     current = ''
                     continue
 
+                # there has to be a separator between values
+                if finished:
+                    return self._no_match(string)
+
+                # if we hit a quote then we need to start a word
+                if quotes and char in quotes:
+                    if has_word:
+                        return self._no_match(string)
+                    in_quote = char
+                    current = ''
+                    continue
+
                 # otherwise we have a character for a word
                 has_word = True
                 current += char
@@ -173,12 +184,15 @@ class RuleDelimited(RuleBase):
 
         # did we match anything?
         if not vals:
-            self.leftovers = string
-            self.result = ''
-            return False
+            return self._no_match(string)
 
         # almost done: one last step.  Remove everything that we parsed from string.
         # we know what index we stopped at, so it is easy.
         self.leftovers = string[index:]
         self.result = vals
         return True
+
+    def _no_match(self, string):
+        self.leftovers = string
+        self.result = ''
+        return False
-- 
2.43.0


From 3f6859fd9bd0cfabe6905c2759d3642cef26cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 10/61] fix: unquoted words and missing values in an INSERT are
 reported

---
 mygrations/formats/mysql/file_reader/insert_parser.py    | 4 ++++
 .../formats/mysql/file_reader/parsers/insert_values.py   | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 1f407fa..310510d 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -57,5 +57,9 @@ class InsertParser(Parser, Rows):
                 self._parsing_errors.append('Insert values has different number of columns and values for %s' % (row))
                 continue
 
+            self._parsing_errors.extend(row.errors)
             self._raw_rows.append(row.values)
             had_comma = True if row.has_comma else False
+
+        if had_comma:
+            self._parsing_errors.append('Missing values after the last comma of the insert for table %s' % self._table)
diff --git a/mygrations/formats/mysql/file_reader/parsers/insert_values.py b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
index 9af86f4..3d16776 100644
--- a/mygrations/formats/mysql/file_reader/parsers/insert_values.py
+++ b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
@@ -1,3 +1,5 @@
+import re
+
 from mygrations.core.parse.parser import Parser
 from mygrations.core.parse.rule_delimited import Quoted
 
@@ -15,10 +17,15 @@ class InsertValues(Parser):
 
     def process(self):
 
+        self.errors = []
         self.values = [self._value(val) for val in self._values["values"]]
 
     def _value(self, val):
         # only a bare NULL is a missing value: in quotes it is text like any other
         if isinstance(val, Quoted):
             return val.unescape()
-        return None if val.upper() == "NULL" else str(val)
+        if val.upper() == "NULL":
+            return None
+        if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?", val, re.IGNORECASE):
+            self.errors.append("Insert value should have quotes: %s" % val)
+        return str(val)
-- 
2.43.0


From b302ecadc318d17a8de3839ae7e911c6ef72312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 11/61] fix: commands, rows and duplicate tables which cannot
 be used are reported instead of lost or crashing, large files are no longer
 cut off

---
 mygrations/core/definitions/database.py       | 28 ++++++++++++----
 mygrations/core/definitions/table.py          |  2 +-
 mygrations/core/parse/rule_children.py        |  7 +---
 .../mysql/file_reader/create_parser.py        |  2 +-
 .../formats/mysql/file_reader/database.py     | 15 ++++-----
 .../mysql/file_reader/insert_parser.py        |  2 +-
 .../formats/mysql/file_reader/reader.py       | 33 ++++++++++++-------
 7 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 32aee1b..50f2228 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -99,8 +99,10 @@ class Database:
                         f"Insert error: found an insert for table '{table_name}' but this table does not exist"
                     )
 
-                elif row.num_explicit_columns:
-                    table = self.tables[table_name]
+                    continue
+
+                table = self.tables[table_name]
+                if row.num_explicit_columns:
                     for column_name in row.columns:
                         if column_name not in table.columns:
                             errors.append(
@@ -186,10 +188,14 @@ class Database:
         if self._parsing_errors is not None:
             return self._parsing_errors
 
-        self._parsing_errors = [
-            *self.find_all_table_parsing_errors(),
-            *self.find_all_row_parsing_errors(),
-        ]
+        # a table also reports the errors of the rows that were added to it, so don't list those twice
+        self._parsing_errors = list(
+            dict.fromkeys([
+                *self.find_all_table_parsing_errors(),
+                *self.find_all_table_global_errors(),
+                *self.find_all_row_parsing_errors(),
+            ])
+        )
 
         return self._parsing_errors
 
@@ -219,6 +225,16 @@ class Database:
                 errors.extend(table.parsing_errors)
         return errors
 
+    def find_all_table_global_errors(self):
+        """ Returns a list of human-readable error messages (strings) about the tables and the rows added to them
+        :return: List of error messages
+        :rtype: list
+        """
+        errors = []
+        for table in self.tables.values():
+            errors.extend(getattr(table, 'global_errors', None) or [])
+        return errors
+
     def find_all_row_parsing_errors(self):
         """ Returns a list of human-readable error messages (strings) from the row parsing process
         :return: List of error messages
diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 40708e3..59329e8 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -325,7 +325,7 @@ class Table:
                 continue
 
             # we need to know the id of this record
-            row_id = str(values[id_index])
+            row_id = "" if values[id_index] is None else str(values[id_index])
             if not row_id:
                 self._global_errors.append(
                     "Row is missing a value for the id column for table %s and row %s" % (self._name, values)
diff --git a/mygrations/core/parse/rule_children.py b/mygrations/core/parse/rule_children.py
index 2ebf7f9..2c2a13e 100644
--- a/mygrations/core/parse/rule_children.py
+++ b/mygrations/core/parse/rule_children.py
@@ -52,13 +52,8 @@ class RuleChildren(RuleBase):
 
         # we need to keep looping through the children looking for matches
         # to the string until we no longer get any matches.  Then return.
-        c = 0
         while string:
 
-            c += 1
-            if c > 1000:
-                raise ValueError('Max depth reached')
-
             shortest_leftover = False
             best_match = False
             best_leftover = ''
@@ -88,7 +83,7 @@ class RuleChildren(RuleBase):
                     best_leftover = leftover
 
             # we have a match!
-            if best_match:
+            if best_match and len(best_leftover) < len(string):
                 string = best_leftover
                 matches.append(best_match)
 
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 5ad2319..74d4a3a 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -137,4 +137,4 @@ class CreateParser(Table, Parser):
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
 
         if not self.semicolon:
-            self._global_errors.append("Missing ending semicolon for table %s" % self._name)
+            self._global_warnings.append("Missing ending semicolon for table %s" % self._name)
diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 58fa0ed..98b1605 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -64,7 +64,7 @@ class Database(BaseDatabase):
         if directory[-1] != os.sep:
             directory += os.sep
 
-        for filename in glob.glob('%s*.sql' % directory):
+        for filename in glob.glob('%s*.sql' % glob.escape(directory)):
             self._read(filename)
 
     def _read(self, contents):
@@ -78,17 +78,17 @@ class Database(BaseDatabase):
         :type contents: string
         """
 
+        reader = Reader()
         try:
-            reader = Reader()
             reader.parse(contents)
 
-        except ValueError as e:
-            print("Error in file %s: %s" % (contents, e))
+        except (ValueError, SyntaxError) as e:
+            self._global_errors.append("Error in file %s: %s" % (contents, e))
 
         # keep rows and tables separate while we are reading
         for (table_name, table) in reader.tables.items():
             if table.name in self._tables:
-                self.errors.append('Found two definitions for table %s' % table.name)
+                self._global_errors.append('Found two definitions for table %s' % table.name)
             self._tables[table.name] = table
 
         self._global_errors.extend(reader._global_errors)
@@ -103,8 +103,7 @@ class Database(BaseDatabase):
     def _combine_tables_and_rows(self):
         for (table_name, rows_list) in self._rows.items():
             if table_name not in self._tables:
-                self._global_errors.extend(
-                    f"Found rows for table {table_name}, but this table does not exist in the database"
-                )
+                # find_all_row_schema_errors() reports this
+                continue
             for rows in rows_list:
                 self._tables[table_name].add_rows(rows)
diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 310510d..26f787d 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -54,7 +54,7 @@ class InsertParser(Parser, Rows):
                 self._parsing_warnings.append('Missing comma between insert value groups')
 
             if self._num_explicit_columns and len(row.values) != self._num_explicit_columns:
-                self._parsing_errors.append('Insert values has different number of columns and values for %s' % (row))
+                self._parsing_errors.append('Insert values has different number of columns and values for %s' % (row.values))
                 continue
 
             self._parsing_errors.extend(row.errors)
diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 294c542..a98e176 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -158,12 +158,7 @@ class Reader:
         data = strip_comments(self._unpack(filename))
 
         # okay then!  This is our main parsing loop.
-        c = 0
         while data:
-            c += 1
-            if c > 10000:
-                raise ValueError("Exceeded max parse depth")
-
             # never hurts
             data = data.strip()
             if not data:
@@ -174,25 +169,41 @@ class Reader:
             if data[:2] == '--' or data[:2] == '/*' or data[0] == '#':
                 parser = CommentParser()
                 data = parser.parse(data)
+                if not parser.matched:
+                    self._global_errors.extend(parser._parsing_errors)
+                    break
 
             elif data[:6].lower() == 'create':
                 parser = CreateParser()
-                data = parser.parse(data)
+                leftovers = parser.parse(data)
+                if not parser.matched:
+                    break
+                data = leftovers
+
+                if parser.name in self._tables:
+                    self._global_errors.append(
+                        "Found two definitions for table %s%s" % (parser.name, self._filename_notice())
+                    )
                 self._tables[parser.name] = parser
 
             elif data[:6].lower() == 'insert':
                 parser = InsertParser()
-                data = parser.parse(data)
+                leftovers = parser.parse(data)
+                if not parser.matched:
+                    break
+                data = leftovers
+
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
                 self._rows[parser.table].append(parser)
 
             else:
-                if self._global_errors is None:
-                    self._global_errors = []
-                self._global_errors.append("Unrecognized MySQL command: %s%s" % (data, self._filename_notice()))
-                return data
+                break
+
+        if data:
+            self._global_errors.append("Unrecognized MySQL command: %s%s" % (data, self._filename_notice()))
+            return data
 
         self._matched = True
         return data
-- 
2.43.0


From 63b7005fd86952905aae87f66eb19b133969a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 12/61] fix: missing commas between definitions are reported,
 quoted table options are read

---
 mygrations/formats/mysql/file_reader/create_parser.py       | 6 +++++-
 .../formats/mysql/file_reader/parsers/table_option.py       | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 74d4a3a..692f63c 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -92,7 +92,11 @@ class CreateParser(Table, Parser):
         self._primary = ""
 
         # ignore the AUTO_INCREMENT option: there is no reason for us to ever manage that
-        self._options = [opt for opt in self._options if opt.name != "AUTO_INCREMENT"]
+        self._options = [opt for opt in self._options if opt.name.upper() != "AUTO_INCREMENT"]
+
+        for definition in self._definitions[:-1]:
+            if not definition.has_comma:
+                self._global_errors.append(f"Missing comma after '{definition._name}' in table '{self._name}'")
 
         for definition in self._definitions:
             if hasattr(definition, "as_definition"):
diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index 4e45a14..af5a346 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -1,4 +1,5 @@
 from mygrations.core.parse.parser import Parser
+from mygrations.core.parse.text import QUOTED
 class TableOption(Parser):
 
     name = ''
@@ -14,7 +15,7 @@ class TableOption(Parser):
         'value': '='
     }, {
         'type': 'regexp',
-        'value': '[^\s;]+',
+        'value': QUOTED + r'|[^\s;]+',
         'name': 'value'
     }]
 
-- 
2.43.0


From 0ae5daa6a9cde138a7cb39ae9ff55b28f472a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 13/61] fix: unquoted column names that start with unique, key
 or index are read as columns

---
 mygrations/core/parse/text.py                            | 3 ++-
 mygrations/formats/mysql/file_reader/create_parser.py    | 9 +++++++--
 .../formats/mysql/file_reader/parsers/index_key.py       | 2 +-
 .../formats/mysql/file_reader/parsers/index_unique.py    | 4 ++--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/parse/text.py b/mygrations/core/parse/text.py
index 326e3ae..b641fc5 100644
--- a/mygrations/core/parse/text.py
+++ b/mygrations/core/parse/text.py
@@ -1,7 +1,8 @@
 import re
 
 # quoted text: backslashes escape the next character and a doubled quote is one quote
-QUOTED = r"""'(?:\\.|''|[^'\\])*'|"(?:\\.|""|[^"\\])*"|`[^`]*`"""
+QUOTED_TEXT = r"""'(?:\\.|''|[^'\\])*'|"(?:\\.|""|[^"\\])*\""""
+QUOTED = QUOTED_TEXT + r"|`[^`]*`"
 _whitespace = re.compile(QUOTED + r"|\s+", re.DOTALL)
 _comments = re.compile(QUOTED + r"|--[^\n]*|#[^\n]*|/\*.*?\*/", re.DOTALL)
 
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 692f63c..063d291 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -2,7 +2,7 @@ import re
 from collections import OrderedDict
 
 from mygrations.core.parse.parser import Parser
-from mygrations.core.parse.text import strip_comments
+from mygrations.core.parse.text import QUOTED_TEXT, strip_comments
 from mygrations.formats.mysql.definitions.constraint import Constraint
 from mygrations.formats.mysql.definitions.index import Index
 from mygrations.formats.mysql.definitions.table import Table
@@ -77,7 +77,12 @@ class CreateParser(Table, Parser):
         # the inner ')' of prefix-lengths. We match word(digits) preceded by
         # '(' or ',' (index column-list context) which avoids type lengths like
         # INT(11) or VARCHAR(255) that are preceded by the type keyword.
-        string = re.sub(r"(\(|\,)(\s*`?\w+`?)\(\d+\)", r"\1\2", string)
+        # Quoted text is left alone.
+        string = re.sub(
+            QUOTED_TEXT + r"|(\(|\,)(\s*`?\w+`?)\(\d+\)",
+            lambda match: match.group(1) + match.group(2) if match.group(1) else match.group(0),
+            string,
+        )
         return super().parse(string)
 
     def process(self):
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 9d6234c..75eefc8 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -7,7 +7,7 @@ class IndexKey(Parser, Index):
 
     # KEY account_id (account_id,name)
     rules = [
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
         {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index becdf76..8de2756 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -7,8 +7,8 @@ class IndexUnique(Parser, Index):
 
     # UNIQUE account_id (account_id)
     rules = [
-        {"type": "literal", "value": "UNIQUE"},
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)", "optional": True},
+        {"type": "regexp", "name": "unique", "value": r"UNIQUE\b"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
         {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
-- 
2.43.0


From beba86da98c3b0fff80ac8b83ceca0c712a9a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 14/61] fix: columns of the primary key do not allow null, as
 in MySQL

---
 mygrations/formats/mysql/file_reader/create_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 063d291..6ecddec 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -145,5 +145,11 @@ class CreateParser(Table, Parser):
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
 
+        # the columns of the primary key never allow null in MySQL, whether or not that was written
+        for index in self._indexes.values():
+            for column_name in index.columns if index.is_primary() else []:
+                if column_name in self._columns:
+                    self._columns[column_name]._null = False
+
         if not self.semicolon:
             self._global_warnings.append("Missing ending semicolon for table %s" % self._name)
-- 
2.43.0


From d719f6ad6bed9e687cb9d7bfabc6f4f42052c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 15/61] fix: plans drop foreign keys and tables first, add
 foreign keys after the columns they need, and only cycle foreign keys of
 columns that change

---
 mygrations/core/definitions/columns/column.py |  4 +-
 mygrations/core/definitions/columns/date.py   |  2 +-
 .../core/definitions/columns/numeric.py       |  9 +-
 .../formats/mysql/mygrations/mygration.py     | 86 ++++++++++++++-----
 4 files changed, 73 insertions(+), 28 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 62aef2f..ad8d68e 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -250,7 +250,7 @@ class Column(Base):
         :returns: True if the column really is the same, even for apparent differences
         """
         # if any of these attributes change then it really isn't the same
-        for attr in ["name", "_normalized_length", "null", "column_type"]:
+        for attr in ["name", "normalized_length", "null", "column_type"]:
             if getattr(self, attr) != getattr(column, attr):
                 return False
 
@@ -273,7 +273,7 @@ class Column(Base):
         return True
 
     @property
-    def _normalized_length(self) -> str:
+    def normalized_length(self) -> str:
         """Returns the length as MySQL would print it: it fills in the length of columns declared without one"""
         length = "" if self.length is None else str(self.length)
         return length if length else self._implied_lengths.get(self.column_type, "")
diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index aafea6a..be6ce9a 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -52,7 +52,7 @@ class Date(Column):
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-        if self.length and self._normalized_length != self._implied_lengths.get(self.column_type):
+        if self.length and self.normalized_length != self._implied_lengths.get(self.column_type):
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a length")
 
         if self.character_set is not None:
diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 5a9dde7..7bcdd21 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -141,8 +141,11 @@ class Numeric(Column):
         return super().is_really_the_same_as(column)
 
     @property
-    def _normalized_length(self) -> str:
-        length = super()._normalized_length
+    def normalized_length(self) -> str:
+        # the width of an integer is only about how to display it
+        if self.column_type in self._integer_types_with_deprecated_width:
+            return ""
+        length = super().normalized_length
         return f"{length},0" if self.column_type == "DECIMAL" and "," not in length else length
 
     def _is_really_the_same_default(self, column: Column) -> bool:
@@ -157,7 +160,7 @@ class Numeric(Column):
         try:
             mine, theirs = Decimal(str(self.default)), Decimal(str(column.default))
             if self.column_type == "DECIMAL":
-                digits = Decimal(1).scaleb(-int(self._normalized_length.split(",")[1]))
+                digits = Decimal(1).scaleb(-int(self.normalized_length.split(",")[1]))
                 with localcontext(prec=100):
                     mine, theirs = mine.quantize(digits, ROUND_HALF_UP), theirs.quantize(digits, ROUND_HALF_UP)
         except InvalidOperation:
diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 7cc1bfe..4964528 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -1,3 +1,5 @@
+import copy
+
 from mygrations.formats.mysql.mygrations.operations.alter_table import AlterTable
 from mygrations.formats.mysql.mygrations.operations.add_constraint import AddConstraint
 from mygrations.formats.mysql.mygrations.operations.remove_constraint import RemoveConstraint
@@ -137,10 +139,7 @@ class Mygration:
         db_from_tables = self.db_from.tables if self.db_from else {}
         (tables_to_add, tables_to_remove, tables_to_update) = self._differences(db_from_tables, self.db_to.tables)
 
-        for table_name in tables_to_add:
-            operations.append(self.db_to.tables[table_name].create())
-
-        fk_drop_ops, fk_add_ops, cycled_fks = self._find_fk_ops_for_column_type_changes(tables_to_update)
+        fk_drop_ops, fk_add_ops, dropped_fks, added_fks = self._find_fk_ops_for_column_type_changes(tables_to_update)
 
         operations.extend(fk_drop_ops)
 
@@ -149,6 +148,10 @@ class Mygration:
         # new FK constraints are added — preventing MySQL error 3780 when a child table
         # (e.g. company_domains) is processed before its parent (e.g. businesses)
         # alphabetically and tries to ADD FK before the parent column type is updated.
+        #
+        # Foreign keys that are going away have to go first, no matter which table they are on: otherwise
+        # their names, columns, and indexes are still in use.  The same goes for tables that are going away.
+        alter_ops = []
         deferred_fk_ops = []
         for table_name in tables_to_update:
             target_table = self.db_to.tables[table_name]
@@ -156,27 +159,67 @@ class Mygration:
             split_ops = source_table.to(target_table, True)
 
             if "removed_fks" in split_ops:
-                filtered = self._strip_cycled_fk_ops(split_ops["removed_fks"], cycled_fks)
+                filtered = self._strip_cycled_fk_ops(split_ops["removed_fks"], dropped_fks)
                 if filtered:
                     operations.append(filtered)
             if "kitchen_sink" in split_ops:
-                operations.append(split_ops["kitchen_sink"])
+                alter_ops.append(split_ops["kitchen_sink"])
             if "fks" in split_ops:
-                filtered = self._strip_cycled_fk_ops(split_ops["fks"], cycled_fks)
+                filtered = self._strip_cycled_fk_ops(split_ops["fks"], added_fks)
                 if filtered:
                     deferred_fk_ops.append(filtered)
 
-        operations.extend(deferred_fk_ops)
-        operations.extend(fk_add_ops)
-
         for table_name in tables_to_remove:
             operations.append(RemoveTable(table_name))
 
+        for table_name in tables_to_add:
+            create_op, fk_op = self._create_table(self.db_to.tables[table_name])
+            operations.append(create_op)
+            if fk_op:
+                deferred_fk_ops.append(fk_op)
+
+        operations.extend(alter_ops)
+        operations.extend(deferred_fk_ops)
+        operations.extend(fk_add_ops)
+
         if self._disable_fk_checks:
             operations.append(EnableChecks())
 
         return operations
 
+    def _create_table(self, table):
+        """Returns the operations to create a table
+
+        Some of the foreign keys of the table may point at a table which first has to be altered: these can't
+        be part of the CREATE TABLE command, and come back as a separate operation for after those alters.
+
+        :param table: The table to create
+        :returns: The CREATE TABLE operation and an ALTER TABLE operation (which may be empty)
+        :rtype: tuple(CreateTable, AlterTable)
+        """
+        fks = AlterTable(table.name)
+        for constraint in table.constraints.values():
+            live_table = self.db_from.tables.get(constraint.foreign_table_name) if self.db_from else None
+            if not live_table or constraint.foreign_table_name not in self.db_to.tables:
+                continue
+            column_name = constraint.foreign_column_name
+            live_column = live_table.columns.get(column_name)
+            target_column = self.db_to.tables[constraint.foreign_table_name].columns.get(column_name)
+            if (
+                live_column
+                and target_column
+                and live_table.column_is_indexed(live_column)
+                and not self._column_type_differs(live_column, target_column)
+            ):
+                continue
+            fks.add_operation(AddConstraint(constraint))
+
+        if fks:
+            table = copy.copy(table)
+            postponed = [operation.constraint.name for operation in fks]
+            table._constraints = {name: fk for (name, fk) in table.constraints.items() if name not in postponed}
+        return (table.create(), fks)
+
     def _find_fk_ops_for_column_type_changes(self, tables_to_update):
         """Finds FK constraints that must be temporarily dropped due to column type changes.
 
@@ -189,13 +232,12 @@ class Mygration:
         to matching by column/reference (column_name, foreign_table_name, foreign_column_name).
 
         :param tables_to_update: List of table names being updated
-        :returns: (drop_ops, add_ops, cycled_fk_names) where cycled_fk_names is a set of
+        :returns: (drop_ops, add_ops, dropped_fks, added_fks) where the last two are sets of
             (table_name, constraint_name) tuples for deduplication with table.to().
-            When source and target FK names differ, BOTH names are included in cycled_fk_names.
-        :rtype: tuple(list, list, set)
+        :rtype: tuple(list, list, set, set)
         """
         if not self.db_from:
-            return ([], [], set())
+            return ([], [], set(), set())
 
         changing_columns = {}
         for table_name in tables_to_update:
@@ -211,7 +253,7 @@ class Mygration:
                     changing_columns[(table_name, col_name)] = True
 
         if not changing_columns:
-            return ([], [], set())
+            return ([], [], set(), set())
 
         fks_to_cycle = {}
 
@@ -252,11 +294,11 @@ class Mygration:
                     fks_to_cycle[fk_key] = (constraint, target_constraint, target_constraint_name)
 
         if not fks_to_cycle:
-            return ([], [], set())
+            return ([], [], set(), set())
 
         drop_by_table = {}
         add_by_table = {}
-        cycled_fk_names = set()
+        dropped_fks = set()
         # Track which target constraints have already been scheduled for ADD.
         # When the live DB has duplicate FKs (e.g. ibfk_1 through ibfk_18 all
         # referencing the same column/table), each maps to the SAME target
@@ -275,9 +317,7 @@ class Mygration:
                 if add_key not in added_targets:
                     add_by_table.setdefault(table_name, []).append(AddConstraint(target_constraint))
                     added_targets.add(add_key)
-            cycled_fk_names.add((table_name, constraint_name))
-            if target_constraint_name and target_constraint_name != constraint_name:
-                cycled_fk_names.add((table_name, target_constraint_name))
+            dropped_fks.add((table_name, constraint_name))
 
         drop_ops = []
         for table_name, ops in drop_by_table.items():
@@ -293,7 +333,7 @@ class Mygration:
                 alter.add_operation(op)
             add_ops.append(alter)
 
-        return (drop_ops, add_ops, cycled_fk_names)
+        return (drop_ops, add_ops, dropped_fks, added_targets)
 
     def _strip_cycled_fk_ops(self, alter, cycled_fks):
         """Removes FK operations from an AlterTable that are already handled by the cycle.
@@ -348,9 +388,11 @@ class Mygration:
         :returns: True if the columns differ in type
         :rtype: bool
         """
+        if str(source_col) == str(target_col) or source_col.is_really_the_same_as(target_col):
+            return False
         if source_col.column_type != target_col.column_type:
             return True
-        if source_col.length != target_col.length:
+        if source_col.normalized_length != target_col.normalized_length:
             return True
         if bool(source_col.unsigned) != bool(target_col.unsigned):
             return True
-- 
2.43.0


From 78868734d08f3f3a8c06699898ad399138524426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 16/61] fix: RESTRICT and NO ACTION are not a difference
 between foreign keys

---
 mygrations/core/definitions/constraint.py     | 11 +++++++++++
 mygrations/formats/mysql/definitions/table.py |  4 +++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/constraint.py b/mygrations/core/definitions/constraint.py
index b42c269..d2ca657 100644
--- a/mygrations/core/definitions/constraint.py
+++ b/mygrations/core/definitions/constraint.py
@@ -114,6 +114,17 @@ class Constraint(Base):
             if not getattr(self, required):
                 self._schema_errors.append(f"Missing {required} for constraint '{self.name}'")
 
+    def is_really_the_same_as(self, constraint: Constraint) -> bool:
+        """ Takes care of a false-positive: RESTRICT and NO ACTION mean the same, and MySQL doesn't always print them """
+        for attr in ['name', 'column_name', 'foreign_table_name', 'foreign_column_name']:
+            if getattr(self, attr) != getattr(constraint, attr):
+                return False
+        for attr in ['on_delete', 'on_update']:
+            (mine, theirs) = (getattr(self, attr), getattr(constraint, attr))
+            if mine != theirs and {mine, theirs} != {'RESTRICT', 'NO ACTION'}:
+                return False
+        return True
+
     def __str__(self) -> str:
         """ Returns the MySQL command that would create the constraint
 
diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index a542fbc..23ff720 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -137,7 +137,9 @@ class Table(BaseTable):
         for added_constraint in added_constraints:
             constraints.add_operation(AddConstraint(comparison_table.constraints[added_constraint]))
         for overlap_constraint in overlap_constraints:
-            if str(self.constraints[overlap_constraint]) == str(comparison_table.constraints[overlap_constraint]):
+            if self.constraints[overlap_constraint].is_really_the_same_as(
+                comparison_table.constraints[overlap_constraint]
+            ):
                 continue
 
             # foreign key constraints are modified by first dropping the constraint and
-- 
2.43.0


From 87f3a875ec701cbe0f1d81a7980fc3aa3b7d3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 17/61] fix: changes of the primary key drop it with DROP
 PRIMARY KEY

---
 mygrations/core/operations/change_index.py                   | 2 ++
 mygrations/formats/mysql/definitions/table.py                | 5 +++++
 mygrations/formats/mysql/mygrations/operations/change_key.py | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/mygrations/core/operations/change_index.py b/mygrations/core/operations/change_index.py
index df6b709..e409b58 100644
--- a/mygrations/core/operations/change_index.py
+++ b/mygrations/core/operations/change_index.py
@@ -10,4 +10,6 @@ class ChangeIndex:
         table.change_index(self.index)
 
     def __str__(self):
+        if self.index.index_type == 'PRIMARY':
+            return 'DROP PRIMARY KEY, ADD %s' % str(self.index)
         return 'DROP KEY `%s`, ADD %s' % (self.index.name, str(self.index))
diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 23ff720..8a94604 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -125,6 +125,11 @@ class Table(BaseTable):
             idx_b = comparison_table.indexes[overlap_key]
             if idx_a.columns == idx_b.columns and idx_a.index_type == idx_b.index_type:
                 continue
+            if idx_a.is_primary() != idx_b.is_primary():
+                # the primary key and any other key are dropped in a different way
+                primary_alter.add_operation(RemoveKey(idx_a))
+                primary_alter.add_operation(AddKey(idx_b))
+                continue
             primary_alter.add_operation(ChangeKey(comparison_table.indexes[overlap_key]))
 
         # removed foreign key constraints get their own alter because that should always happen first
diff --git a/mygrations/formats/mysql/mygrations/operations/change_key.py b/mygrations/formats/mysql/mygrations/operations/change_key.py
index c4647a7..52b3256 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_key.py
@@ -12,4 +12,6 @@ class ChangeKey:
         table.change_key(self.key)
 
     def __str__(self):
+        if self.key.index_type == 'PRIMARY':
+            return 'DROP PRIMARY KEY, ADD %s' % str(self.key)
         return 'DROP KEY `%s`, ADD %s' % (self.key.name, str(self.key))
-- 
2.43.0


From de3b0eacfa630c89e04bff4e2e35bfb8b92bb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 18/61] fix: quotes in updated rows and in row ids are escaped

---
 mygrations/core/operations/change_row.py                     | 5 +++--
 mygrations/core/operations/remove_row.py                     | 3 ++-
 mygrations/formats/mysql/mygrations/operations/row_delete.py | 3 ++-
 mygrations/formats/mysql/mygrations/operations/row_update.py | 5 +++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/operations/change_row.py b/mygrations/core/operations/change_row.py
index 7146653..033c2ad 100644
--- a/mygrations/core/operations/change_row.py
+++ b/mygrations/core/operations/change_row.py
@@ -18,7 +18,8 @@ class ChangeRow:
 
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\').replace("'", "\\'")) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self._data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self._data['id'])
+        row_id = str(self._data['id']).replace('\\', '\\\\').replace("'", "\\'")
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, row_id)
diff --git a/mygrations/core/operations/remove_row.py b/mygrations/core/operations/remove_row.py
index 138834e..1c9d86b 100644
--- a/mygrations/core/operations/remove_row.py
+++ b/mygrations/core/operations/remove_row.py
@@ -15,4 +15,5 @@ class RemoveRow:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        row_id = str(self.row_id).replace('\\', '\\\\').replace("'", "\\'")
+        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, row_id)
diff --git a/mygrations/formats/mysql/mygrations/operations/row_delete.py b/mygrations/formats/mysql/mygrations/operations/row_delete.py
index 3bff403..0668009 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_delete.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_delete.py
@@ -18,4 +18,5 @@ class RowDelete:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        row_id = str(self.row_id).replace('\\', '\\\\').replace("'", "\\'")
+        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, row_id)
diff --git a/mygrations/formats/mysql/mygrations/operations/row_update.py b/mygrations/formats/mysql/mygrations/operations/row_update.py
index 116a2a5..78500e6 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_update.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_update.py
@@ -22,7 +22,8 @@ class RowUpdate:
 
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\').replace("'", "\\'")) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self.data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self.data['id'])
+        row_id = str(self.data['id']).replace('\\', '\\\\').replace("'", "\\'")
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, row_id)
-- 
2.43.0


From c0d49f47e6f693beb18b2c7081774ddf5c000c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 19/61] fix: NULL is not the text 'None', and rows get the
 values of columns which are being added

---
 mygrations/core/definitions/table.py          | 4 ++++
 mygrations/formats/mysql/definitions/table.py | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 59329e8..4d5edd6 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -570,6 +570,10 @@ class Table:
         if type(val1) == type(val2):
             return val1 == val2
 
+        # NULL only matches NULL
+        if val1 is None or val2 is None:
+            return False
+
         # otherwise see if we can cheat and just convert to strings
         return str(val1) == str(val2)
 
diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 8a94604..64e9e4c 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -203,8 +203,9 @@ class Table(BaseTable):
 
         for row_id in updated_ids:
             # try to be smart and not update if we don't have to
-            (inserted_cols, deleted_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
-            differences = False
+            (live_cols, new_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
+            # columns which are just being added have to be filled
+            differences = bool(new_cols)
             for col in updated_cols:
                 if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
-- 
2.43.0


From d71b2ab27684468106cbc46146ba7f2ab2847ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 20/61] fix: rows are deleted and updated before others are
 inserted

---
 mygrations/formats/mysql/definitions/table.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 64e9e4c..073634a 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -195,9 +195,7 @@ class Table(BaseTable):
         (inserted_ids, deleted_ids, updated_ids) = self._differences(from_table.rows if from_table else {}, self.rows)
 
         operations = []
-        for row_id in inserted_ids:
-            operations.append(RowInsert(self.name, self.rows[row_id]))
-
+        # rows which go away, or change, have to release unique values before other rows can use them
         for row_id in deleted_ids:
             operations.append(RowDelete(self.name, row_id))
 
@@ -214,4 +212,7 @@ class Table(BaseTable):
             if differences:
                 operations.append(RowUpdate(self.name, self.rows[row_id]))
 
+        for row_id in inserted_ids:
+            operations.append(RowInsert(self.name, self.rows[row_id]))
+
         return operations
-- 
2.43.0


From 178e8674ccbd2a818eedda1e11d56c0cac71cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 21/61] fix: key and column operations can be applied to tables

---
 mygrations/core/operations/remove_column.py                  | 2 +-
 mygrations/formats/mysql/mygrations/operations/add_key.py    | 2 +-
 mygrations/formats/mysql/mygrations/operations/change_key.py | 2 +-
 mygrations/formats/mysql/mygrations/operations/remove_key.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/operations/remove_column.py b/mygrations/core/operations/remove_column.py
index 03172d2..bc50a66 100644
--- a/mygrations/core/operations/remove_column.py
+++ b/mygrations/core/operations/remove_column.py
@@ -7,7 +7,7 @@ class RemoveColumn:
 
     def apply_to_table(self, table: Table):
         """ Removes the column from the table """
-        table.remove_column(self.column)
+        table.remove_column(self._column)
 
     def __str__(self):
         return 'DROP `%s`' % self._column.name
diff --git a/mygrations/formats/mysql/mygrations/operations/add_key.py b/mygrations/formats/mysql/mygrations/operations/add_key.py
index 7b9cb21..74cd843 100644
--- a/mygrations/formats/mysql/mygrations/operations/add_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/add_key.py
@@ -9,7 +9,7 @@ class AddKey:
         :param table: The table to add the key to
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.add_key(self.key)
+        table.add_index(self.key)
 
     def __str__(self):
         return 'ADD %s' % str(self.key)
diff --git a/mygrations/formats/mysql/mygrations/operations/change_key.py b/mygrations/formats/mysql/mygrations/operations/change_key.py
index 52b3256..0ac0381 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_key.py
@@ -9,7 +9,7 @@ class ChangeKey:
         :param table: The table to change the key on
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.change_key(self.key)
+        table.change_index(self.key)
 
     def __str__(self):
         if self.key.index_type == 'PRIMARY':
diff --git a/mygrations/formats/mysql/mygrations/operations/remove_key.py b/mygrations/formats/mysql/mygrations/operations/remove_key.py
index 65ea169..0d2e80a 100644
--- a/mygrations/formats/mysql/mygrations/operations/remove_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/remove_key.py
@@ -9,7 +9,7 @@ class RemoveKey:
         :param table: The table to remove the key from
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.remove_key(self.key)
+        table.remove_index(self.key)
 
     def __str__(self):
         if self.key.index_type == 'PRIMARY':
-- 
2.43.0


From 72dc0c93406604115b5c3cdd0dab2db4f7d17667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 22/61] fix: tables add columns in the first place, and know
 their primary key and indexed columns after index changes

---
 mygrations/core/definitions/table.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 4d5edd6..832558c 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -446,8 +446,7 @@ class Table:
 
         # beginning is also easy
         if position == True:
-            self._columns[column.name] = column
-            self._columns.move_to_end(column.name, last=False)
+            self._columns = {column.name: column, **self._columns}
             return None
 
         # now it is tricky
@@ -507,10 +506,12 @@ class Table:
         if index_name not in self._indexes:
             raise ValueError("Cannot remove index %s because index %s does not exist" % (index_name, index_name))
 
-        indexed_column = self._indexes[index_name].columns[0]
+        if self._indexes[index_name] is self._primary:
+            self._primary = None
         self._indexes.pop(index_name, None)
-        if self._indexed_columns is not None:
-            self._indexed_columns.discard(indexed_column)
+
+        # other indexes may still start with the same column
+        self._indexed_columns = None
 
     def change_index(self, new_index: Index):
         """Changes an index.  This does not currently support renaming"""
@@ -521,12 +522,14 @@ class Table:
                 "Cannot modify index %s because index %s does not exist" % (new_index.name, new_index.name)
             )
 
-        if self._indexed_columns is not None:
-            self._indexed_columns.discard(self._indexes[new_index.name].columns[0])
+        if self._indexes[new_index.name] is self._primary:
+            self._primary = None
+        if new_index.index_type == "PRIMARY":
+            self._primary = new_index
         self._indexes[new_index.name] = new_index
 
-        if self._indexed_columns is not None:
-            self._indexed_columns.add(new_index.columns[0])
+        # other indexes may still start with the column that was indexed before
+        self._indexed_columns = None
 
     def add_constraint(self, constraint: Constraint):
         """Adds a constraint to the table"""
-- 
2.43.0


From 9fa36a46c716c82c640e3a0defc121c0f62e1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 23/61] fix: a database forgets the parsing errors it found
 before when its tables change

---
 mygrations/core/definitions/database.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 50f2228..9159ab6 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -386,6 +386,8 @@ class Database:
 
         self._schema_errors = None
         self._schema_warnings = None
+        self._parsing_errors = None
+        self._parsing_warnings = None
         self._tables[table.name] = table
 
     def remove_table(self, table):
@@ -399,6 +401,8 @@ class Database:
 
         self._schema_errors = None
         self._schema_warnings = None
+        self._parsing_errors = None
+        self._parsing_warnings = None
         self._tables.pop(table.name, None)
 
     def apply_operation(self, table_name, operation):
@@ -418,6 +422,8 @@ class Database:
         # the table applies the operation
         self._schema_errors = None
         self._schema_warnings = None
+        self._parsing_errors = None
+        self._parsing_warnings = None
         self._tables[table_name].apply_operation(operation)
 
     def apply_to_source(self, operation):
-- 
2.43.0


From 8018ea1c104c57caf54cf7c697545d7c052dc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 24/61] fix: errors of the live database can be listed

---
 mygrations/formats/mysql/db_reader/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index 47a9a23..f6d2bf1 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -11,7 +11,7 @@ class Database(DatabaseDefinition):
         """
         self.conn = conn
         self._tables = {}
-        self._rows = []
+        self._rows = {}
         self._global_errors = []
         self._global_warnings = []
 
-- 
2.43.0


From 7719e007f47c17b12f4615f1b725e2f48b5cb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 25/61] fix: no plan is made when tables of the live database
 can't be read

---
 mygrations/core/commands/plan.py               | 8 ++++++++
 mygrations/core/definitions/database.py        | 9 +++++++++
 mygrations/formats/mysql/db_reader/database.py | 8 +++++---
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/commands/plan.py b/mygrations/core/commands/plan.py
index f7cd71c..5739b4f 100644
--- a/mygrations/core/commands/plan.py
+++ b/mygrations/core/commands/plan.py
@@ -38,6 +38,14 @@ class Plan(Base):
         # use the credentials to load up a database connection
         live_database = DatabaseReader(self.get_driver())
 
+        # a plan for tables that we can't read would try to create them again
+        live_errors = live_database.global_errors
+        if live_errors and not self.options.get('force'):
+            print('Errors found in the live database', file=sys.stderr)
+            for error in live_errors:
+                print(error, file=sys.stderr)
+            return []
+
         # we have to tell the live database to load records
         # for any tables we are tracking records for.
         # We use the "files" database as the "truth" because
diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 9159ab6..dab5d34 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -26,6 +26,15 @@ class Database:
         """
         return self._rows
 
+    @property
+    def global_errors(self):
+        """ Public getter.  Returns a list of errors which don't belong to a table that was read
+
+        :returns: A list of errors
+        :rtype: list
+        """
+        return self._global_errors if self._global_errors is not None else []
+
     @property
     def errors(self):
         """ Public getter.  Returns a list of errors
diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index f6d2bf1..6dd7c5b 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -27,12 +27,14 @@ class Database(DatabaseDefinition):
         :type conn: mygrations.drivers.mysqldb.mysqldb
         """
         for (table, create_table) in conn.tables().items():
+            reader = Reader()
             try:
-                reader = Reader()
                 reader.parse(create_table)
-
+                errors = reader.global_errors
             except ValueError as e:
-                print("Error in table %s: %s" % (create_table, e))
+                errors = [str(e)]
+            for error in errors:
+                self._global_errors.append('Error in live table %s: %s' % (table, error))
 
             for (table_name, table) in reader.tables.items():
                 if table.name in self._tables:
-- 
2.43.0


From 6dac3aa77d967cc07b4f00a222ac6bdfbe83f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 26/61] fix: views in the live database are left alone

---
 mygrations/drivers/pymysql/pymysql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/drivers/pymysql/pymysql.py b/mygrations/drivers/pymysql/pymysql.py
index 14f4626..dfc2336 100644
--- a/mygrations/drivers/pymysql/pymysql.py
+++ b/mygrations/drivers/pymysql/pymysql.py
@@ -52,6 +52,9 @@ class PyMySQL(object):
                 raise ValueError("Failed to execute SHOW CREATE TABLE command on table %s" % table_name)
 
             result_data = cursor.fetchone()
+            # views are listed too, but they aren't tables
+            if "Create Table" not in result_data:
+                continue
             definitions[table_name] = result_data["Create Table"]
 
         cursor.close()
-- 
2.43.0


From a86e822c2087bd0d608597a38b9a81c31aeb58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 27/61] fix: the version command can be executed

---
 mygrations/core/commands/version.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/commands/version.py b/mygrations/core/commands/version.py
index 9c17d78..5ea004c 100644
--- a/mygrations/core/commands/version.py
+++ b/mygrations/core/commands/version.py
@@ -1,10 +1,10 @@
-from .base import base
+from .base import Base
 import mygrations
 def execute(options, print_results=True):
 
     obj = Version(options)
     return obj.execute(print_results=print_results)
-class Version(base):
+class Version(Base):
     def execute(self, print_results=True):
         version_info = [
             f'mygrations v{mygrations.__version__}',
@@ -12,5 +12,5 @@ class Version(base):
             'MIT License',
         ]
         if print_results:
-            "\n".join(version_info)
-        return (print_results, True)
+            print("\n".join(version_info))
+        return (version_info, True)
-- 
2.43.0


From 716a35067f6ca8606e8811749b0ab75cee8b670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 28/61] fix: the force option ignores the errors of the files

---
 mygrations/core/commands/plan.py                 | 2 +-
 mygrations/formats/mysql/mygrations/mygration.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/commands/plan.py b/mygrations/core/commands/plan.py
index 5739b4f..c44406f 100644
--- a/mygrations/core/commands/plan.py
+++ b/mygrations/core/commands/plan.py
@@ -61,7 +61,7 @@ class Plan(Base):
 
             live_database.read_rows(table)
 
-        mygrate = Mygration(files_database, live_database, False)
+        mygrate = Mygration(files_database, live_database, False, force=bool(self.options.get('force')))
 
         ops = []
         if mygrate.operations:
diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 4964528..a8f2079 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -31,15 +31,17 @@ class Mygration:
     8. Remove any tables that need to be removed
     """
 
-    def __init__(self, db_to, db_from=None, disable_checks=True):
+    def __init__(self, db_to, db_from=None, disable_checks=True, force=False):
         """Create a migration plan
 
         :param db_to: The target database structure to migrate to
         :param db_from: The current database structure to migrate from
         :param disable_checks: Whether or not to add an operations to disable/re-enable FK checks
+        :param force: Whether or not to find the operations even though there are errors
         :type db_to: mygrations.formats.mysql.definitions.database
         :type db_from: mygrations.formats.mysql.definitions.database
         :type disable_checks: True
+        :type force: bool
         """
 
         self.db_to = db_to
@@ -51,7 +53,7 @@ class Mygration:
         self._errors = []
         self._errors = self.db_to.errors
 
-        if not self._errors:
+        if not self._errors or force:
             self._operations = self._process()
         else:
             self._operations = None
-- 
2.43.0


From 0bd7c98e33bdda2667d7ec4dee49582890083125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 29/61] fix: the plan_export command can be executed

---
 mygrations/core/commands/plan_export.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/commands/plan_export.py b/mygrations/core/commands/plan_export.py
index 995a32b..51c58fe 100644
--- a/mygrations/core/commands/plan_export.py
+++ b/mygrations/core/commands/plan_export.py
@@ -6,12 +6,11 @@ from mygrations.formats.mysql.db_reader.database import Database as DatabaseRead
 from mygrations.formats.mysql.mygrations.mygration import Mygration
 from mygrations.formats.mysql.mygrations.row_mygration import RowMygration
 from mygrations.formats.mysql.mygrations.operations.row_insert import RowInsert
-from mygrations.drivers.mysqldb.mysqldb import mysqldb
 def execute(options, print_results=True):
 
     obj = PlanExport(options)
     return obj.execute(print_results=print_results)
-class PlanExport(base):
+class PlanExport(Base):
     def execute(self, print_results=True):
 
         files_database = DatabaseParser(self.get_sql_files())
@@ -24,7 +23,7 @@ class PlanExport(base):
         # way to do that is to simply run an actual mygration and grab out the names
         # of the tables that have changed.  Cheating, I know
         self.modified_tables = {}
-        mygrate = Mygration(live_database, files_database, False)
+        mygrate = Mygration(live_database, files_database, False, force=True)
         if mygrate.operations:
             for op in mygrate.operations:
                 self.modified_tables[op.table_name] = True
@@ -46,6 +45,9 @@ class PlanExport(base):
 
         operations = []
         for table_name in self.modified_tables.keys():
+            # tables which are only in the files have no definition to export
+            if table_name not in live_database.tables:
+                continue
             if print_results:
                 print('\033[1;33m\033[41m%s\033[0m' % table_name)
             table = live_database.tables[table_name]
@@ -57,7 +59,7 @@ class PlanExport(base):
                 if print_results:
                     print('\n')
                 for row in table.rows.values():
-                    operation = row_insert(table.name, row)
+                    operation = str(RowInsert(table.name, row))
                     if print_results:
                         print(operation)
                     operations.append(operation)
-- 
2.43.0


From 87b1754654736320f0b24ccfe841ed1cd9c55ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 30/61] fix: character sets directly follow the type of a
 column, which is the only place MySQL accepts them

---
 mygrations/core/definitions/columns/column.py          | 5 +++++
 mygrations/core/definitions/columns/string.py          | 2 +-
 mygrations/formats/mysql/definitions/columns/enum.py   | 4 ++++
 mygrations/formats/mysql/definitions/columns/string.py | 4 ++++
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index ad8d68e..9242cb4 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -216,6 +216,7 @@ class Column(Base):
         elif self.length is not None and self.length != "":
             type_string += "(%s)" % self.length
         parts.append(type_string)
+        parts.extend(self._type_attributes())
 
         if self.unsigned:
             parts.append("UNSIGNED")
@@ -231,6 +232,10 @@ class Column(Base):
 
         return " ".join(parts)
 
+    def _type_attributes(self) -> List[str]:
+        """Returns the parts of the SQL command that have to directly follow the type"""
+        return []
+
     @staticmethod
     def _quote(value: str) -> str:
         """Returns the value as a quoted string for use in an SQL command"""
diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index bb9982a..21255e7 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -87,7 +87,7 @@ class String(Column):
 
     def __str__(self) -> str:
         as_string = super(String, self).__str__()
-        if self.character_set:
+        if self.character_set and not self._type_attributes():
             as_string += f" CHARACTER SET '{self.character_set}'"
 
         if self.collate:
diff --git a/mygrations/formats/mysql/definitions/columns/enum.py b/mygrations/formats/mysql/definitions/columns/enum.py
index f6a60c7..2d6c270 100644
--- a/mygrations/formats/mysql/definitions/columns/enum.py
+++ b/mygrations/formats/mysql/definitions/columns/enum.py
@@ -34,3 +34,7 @@ class Enum(EnumBase):
             parsing_warnings=parsing_warnings,
             unsigned=unsigned,
         )
+
+    def _type_attributes(self) -> List[str]:
+        # MySQL doesn't accept the character set anywhere else
+        return [f"CHARACTER SET '{self.character_set}'"] if self.character_set else []
diff --git a/mygrations/formats/mysql/definitions/columns/string.py b/mygrations/formats/mysql/definitions/columns/string.py
index f7654b5..0809217 100644
--- a/mygrations/formats/mysql/definitions/columns/string.py
+++ b/mygrations/formats/mysql/definitions/columns/string.py
@@ -34,3 +34,7 @@ class String(StringBase):
             parsing_warnings=parsing_warnings,
             unsigned=unsigned,
         )
+
+    def _type_attributes(self) -> List[str]:
+        # MySQL doesn't accept the character set anywhere else
+        return [f"CHARACTER SET '{self.character_set}'"] if self.character_set else []
-- 
2.43.0


From fd736ab3fcdda68216a154fde8e52855f522d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 31/61] fix: NUMERIC columns are DECIMAL columns

---
 mygrations/formats/mysql/file_reader/parsers/type.py         | 1 +
 mygrations/formats/mysql/file_reader/parsers/type_decimal.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 7b56fe4..dcdc5e0 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -84,6 +84,7 @@ class Type:
     # and default value mapping (TRUE→1, FALSE→0).
     _type_synonyms = {
         "integer": "int",
+        "numeric": "decimal",
     }
 
     @classmethod
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 5d336cb..c1af422 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -27,7 +27,7 @@ class TypeDecimal(Parser, Type):
 
         self._init_errors()
         self._name = self._extract_name()
-        self._column_type = self._values["type"]
+        self._column_type = self._normalize_type(self._values["type"])
         self.decimals = self._values["decimals"]
         self._length = "%s,%s" % (self._values["length"], self._values["decimals"])
         self._unsigned = "UNSIGNED" in self._values
-- 
2.43.0


From fbac62227822374ba3a8f7d3f0159230944a5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 32/61] fix: CURRENT_TIMESTAMP is the same in any case

---
 mygrations/core/definitions/columns/date.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index be6ce9a..9b7d0e8 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -49,6 +49,10 @@ class Date(Column):
             return self.default
         return super()._default_as_sql()
 
+    def _is_really_the_same_default(self, column: Column) -> bool:
+        # neither dates nor keywords are case sensitive
+        return str(self.default).upper() == str(column.default).upper()
+
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-- 
2.43.0


From 5b505619af5b387eded727a122b7c5ea9dbf9fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 33/61] fix: the configuration file is found in the root
 directory, and by relative paths with directories

---
 mygrations/core/commands/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/commands/base.py b/mygrations/core/commands/base.py
index 8b0d637..b100a23 100644
--- a/mygrations/core/commands/base.py
+++ b/mygrations/core/commands/base.py
@@ -76,13 +76,14 @@ class Base(object):
                 raise ValueError("Specified configuration file '%s' does not exist" % file_path)
             return file_path
 
-        directories = ('%s/%s' % (os.getcwd(), file_path)).strip('/').split('/')
-        filename = directories.pop()
-        ndirectories = len(directories)
-        for i in range(ndirectories):
-            abs_path = '/%s/%s' % ('/'.join(directories[:ndirectories - i]), filename)
+        directory = os.getcwd()
+        while True:
+            abs_path = os.path.join(directory, file_path)
             if os.path.isfile(abs_path):
                 return abs_path
+            if os.path.dirname(directory) == directory:
+                break
+            directory = os.path.dirname(directory)
 
         raise ValueError("Could not find configuration file '%s' in current directory or parents" % file_path)
 
@@ -93,7 +94,7 @@ class Base(object):
         # path using the absolute path to the configuration file (i.e. the mygrate.conf file).
         # This method does just that.
         # However, don't muck with a path if it already absolute
-        if relative_path[0] == '/':
+        if relative_path.startswith('/'):
             return relative_path
 
         return '%s/%s' % (os.path.dirname(config_abs_path), relative_path)
-- 
2.43.0


From 0ac4a73fef8639f2790a55c6ae8af748c923965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 34/61] fix: settings with empty values are not lost

---
 mygrations/helpers/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index 39afe58..c68d14f 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -86,7 +86,7 @@ class dotenv(dict):
 
             # we will get a non-value for key and value if this wasn't
             # a valid data line
-            if not key or not value:
+            if not key:
                 continue
 
             # store it!
-- 
2.43.0


From 3f3ede72d7f6c246d412b342c0e98dcd89d3aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 35/61] fix: quoted values may start with spaces, and are
 always checked for their closing quote

---
 mygrations/helpers/dotenv.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index c68d14f..d3a3d97 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -159,22 +159,18 @@ class dotenv(dict):
         if not value.count(quote):
             raise DotEnvSyntaxError("Syntax error: unclosed quote in line %s" % line)
 
-        # do we have an empty string?
-        if value[0] == quote:
-            return [key, '']
-
         # make sure we don't have an escaped quote in our quoted string
-        index = 0
-        while value.count(quote, index):
+        index = -1
+        while value.count(quote, index + 1):
             index = value.index(quote, index + 1)
-            if value[index - 1] == '\\':
+            if index and value[index - 1] == '\\':
                 continue
 
             # if we get here then we have found the ending quote!
 
             # check for a comment
             if value.count(comment, index):
-                value = value[:value.index(comment, index)].strip()
+                value = value[:value.index(comment, index)].rstrip()
 
             # our string should end at the closing quote, although safely ignore a closing semi-colon
             if len(value) > index + 1 and value[index + 1:].strip() != ';':
-- 
2.43.0


From 19429f98c61d2d4a6d09f40b289a7a0ea1604a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 36/61] fix: only JSON objects are settings

---
 mygrations/helpers/dotenv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index d3a3d97..afa6413 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -65,14 +65,14 @@ class dotenv(dict):
     def parse(self, string, comment='#'):
 
         # this isn't json, is it?
-        parsed = False
+        parsed = None
         try:
             parsed = json.loads(string)
         except JSONDecodeError:
             pass
 
         # because if it is, this is very easy
-        if parsed:
+        if isinstance(parsed, dict):
             return parsed
 
         # This will hold our results
-- 
2.43.0


From a1e43314b5c5d20a47315294d45687de9bc5417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 37/61] fix: INSERT commands which set a column twice are
 reported

---
 mygrations/core/definitions/database.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index dab5d34..ef7288c 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -112,6 +112,10 @@ class Database:
 
                 table = self.tables[table_name]
                 if row.num_explicit_columns:
+                    if len(set(row.columns)) != len(row.columns):
+                        errors.append(
+                            f"Insert error: insert command for table '{table_name}' sets the same column more than once."
+                        )
                     for column_name in row.columns:
                         if column_name not in table.columns:
                             errors.append(
-- 
2.43.0


From cb93a9bb5536312ca6084c80bb0e65321f5ff72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 38/61] fix: JSON columns may say DEFAULT NULL, as SHOW CREATE
 TABLE prints them

---
 mygrations/core/definitions/columns/string.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index 21255e7..f8cc9f4 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -98,7 +98,9 @@ class String(Column):
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-        if self.has_default and self.column_type not in self._allowed_default:
+        # MySQL itself prints JSON columns with DEFAULT NULL
+        json_null = self.column_type == "JSON" and self.default is None
+        if self.has_default and not json_null and self.column_type not in self._allowed_default:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a default")
 
         if self.auto_increment:
-- 
2.43.0


From cef6a28d39983427395e274a15ee75d27348d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 39/61] fix: an index named like a removed foreign key gets its
 declared name right away

---
 mygrations/formats/mysql/definitions/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 073634a..b342083 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -94,8 +94,9 @@ class Table(BaseTable):
         # constraint name as the index name.  If the SQL file defines the same
         # index with a shorter name the diff sees an ADD + DROP pair.  Suppress
         # these false-positives by matching removed/added indexes that cover the
-        # same columns & type AND where one of the names is a known constraint.
-        all_constraint_names = set(self.constraints.keys()) | set(comparison_table.constraints.keys())
+        # same columns & type AND where one of the names is a known constraint
+        # (a constraint which stays: if it goes away the index has no reason to keep its name).
+        all_constraint_names = set(comparison_table.constraints.keys())
         matched_added = set()
         matched_removed = set()
         for rk in removed_keys:
-- 
2.43.0


From 95a27148ad340d5567ca5d1cf3c2a841b999dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:02 +0000
Subject: [PATCH 40/61] fix: no white space is needed before the parentheses of
 CREATE TABLE and FOREIGN KEY

---
 .../formats/mysql/file_reader/create_parser.py       |  2 +-
 .../mysql/file_reader/parsers/constraint_foreign.py  | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 6ecddec..0ede5e3 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -31,7 +31,7 @@ class CreateParser(Table, Parser):
             "optional": True,
             "name": "if_not_exists",
         },
-        {"type": "regexp", "value": "\S+", "name": "name"},
+        {"type": "regexp", "value": "[^\s\(]+", "name": "name"},
         {"type": "literal", "value": "("},
         {
             "type": "children",
diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index 3b178da..fd58703 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -7,9 +7,11 @@ class ConstraintForeign(Parser, Constraint):
     rules = [
         {"type": "literal", "value": "CONSTRAINT"},
         {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
-        {"type": "literal", "value": "FOREIGN KEY ("},
+        {"type": "literal", "value": "FOREIGN KEY"},
+        {"type": "literal", "value": "("},
         {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
-        {"type": "literal", "value": ") REFERENCES"},
+        {"type": "literal", "value": ")"},
+        {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
@@ -62,9 +64,11 @@ class ConstraintForeignBare(ConstraintForeign):
     # No CONSTRAINT name prefix. A placeholder name is set in process(); CreateParser.process()
     # overwrites it with '{table}_{col}_{ref}_fk' once the source table name is known.
     rules = [
-        {"type": "literal", "value": "FOREIGN KEY ("},
+        {"type": "literal", "value": "FOREIGN KEY"},
+        {"type": "literal", "value": "("},
         {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
-        {"type": "literal", "value": ") REFERENCES"},
+        {"type": "literal", "value": ")"},
+        {"type": "literal", "value": "REFERENCES"},
         {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
-- 
2.43.0


From b89ee29f19c762a05a7b7cb422ff96ccc2b48375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 41/61] fix: commas between table options are not part of their
 values

---
 .../formats/mysql/file_reader/parsers/table_option.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index af5a346..34afa70 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -15,8 +15,13 @@ class TableOption(Parser):
         'value': '='
     }, {
         'type': 'regexp',
-        'value': QUOTED + r'|[^\s;]+',
+        'value': QUOTED + r'|[^\s;,]+',
         'name': 'value'
+    }, {
+        'type': 'literal',
+        'value': ',',
+        'optional': True,
+        'name': 'separating_comma'
     }]
 
     def process(self):
-- 
2.43.0


From ec39f6e278d691dabc46d8a4f15bd4ce5e4ccd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 42/61] fix: commands that follow a CREATE TABLE are not read
 as its options

---
 mygrations/formats/mysql/file_reader/parsers/table_option.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index 34afa70..70c6c1d 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -8,7 +8,7 @@ class TableOption(Parser):
     # UNIQUE account_id (account_id)
     rules = [{
         'type': 'regexp',
-        'value': '[^=]{1,30}',
+        'value': r'[\w ]{1,30}',
         'name': 'name'
     }, {
         'type': 'literal',
-- 
2.43.0


From 1385d9effbb5771bf0b284928347c088f09cc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 43/61] fix: quotes that are never closed are reported wherever
 they are

---
 mygrations/formats/mysql/file_reader/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index a98e176..60e9bda 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -1,5 +1,5 @@
-import io, os
-from mygrations.core.parse.text import strip_comments
+import io, os, re
+from mygrations.core.parse.text import QUOTED, strip_comments
 from .comment_parser import CommentParser
 from .create_parser import CreateParser
 from .insert_parser import InsertParser
@@ -157,6 +157,11 @@ class Reader:
         # it isn't possible to tell where a comment ends
         data = strip_comments(self._unpack(filename))
 
+        # names and values can't be told apart if it isn't known where they end
+        if re.search("['\"`]", re.sub(QUOTED, '', data, flags=re.DOTALL)):
+            self._global_errors.append("Opening quote without closing quote%s" % self._filename_notice())
+            return data
+
         # okay then!  This is our main parsing loop.
         while data:
             # never hurts
-- 
2.43.0


From cb26c3279dcfb2189196076dcf37b845a8c70d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 44/61] fix: UNIQUE without columns does not take the name and
 columns of what follows

---
 mygrations/formats/mysql/file_reader/parsers/index_unique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index 8de2756..44d0775 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "regexp", "name": "unique", "value": r"UNIQUE\b"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
-        {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": "[^\(,]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
-- 
2.43.0


From 826f8b8c6eee8fd8e7b0b32b1c6ccc8a984c9564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 45/61] fix: comments that are never closed are reported
 wherever they are

---
 mygrations/formats/mysql/file_reader/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 60e9bda..4cc0702 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -158,9 +158,13 @@ class Reader:
         data = strip_comments(self._unpack(filename))
 
         # names and values can't be told apart if it isn't known where they end
-        if re.search("['\"`]", re.sub(QUOTED, '', data, flags=re.DOTALL)):
+        unquoted = re.sub(QUOTED, '', data, flags=re.DOTALL)
+        if re.search("['\"`]", unquoted):
             self._global_errors.append("Opening quote without closing quote%s" % self._filename_notice())
             return data
+        if '/*' in unquoted:
+            self._global_errors.append("Could not find closing comment indicator, */%s" % self._filename_notice())
+            return data
 
         # okay then!  This is our main parsing loop.
         while data:
-- 
2.43.0


From 35e62fa7c263ef7e6caa112eefce09c1e55bb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 46/61] fix: other indexes can have the name of the first
 column of the primary key

---
 mygrations/core/definitions/table.py | 37 +++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 832558c..72b00e4 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -10,6 +10,9 @@ from ..operations.create_table import CreateTable
 
 
 class Table:
+    # the primary key has no name of its own, and MySQL allows no other index to have this one
+    _PRIMARY_KEY = "PRIMARY"
+
     _columns: Dict[str, Column] = None
     _constraints: Dict[str, Constraint] = None
     _indexes: Dict[str, Constraint] = None
@@ -485,15 +488,29 @@ class Table:
             )
         self._columns[new_column.name] = new_column
 
+    def _index_key(self, index: Union[str, Index]) -> str:
+        """Returns the key of the given index, or of the index with the given name, in our list of indexes"""
+        name = index if type(index) == str else index.name
+        primary = self._indexes.get(self._PRIMARY_KEY)
+        if primary is None:
+            return name
+        if type(index) != str and index.is_primary():
+            return name if name in self._indexes and self._indexes[name].is_primary() else self._PRIMARY_KEY
+        return self._PRIMARY_KEY if name not in self._indexes and name == primary.name else name
+
     def add_index(self, index: Index):
         """Adds an index to the table"""
         self._schema_errors = None
         self._schema_warnings = None
-        if index.name in self._indexes:
+        key = index.name
+        if index.is_primary() and self._PRIMARY_KEY not in self._indexes:
+            # any other index is free to have the name which we assume for the primary key
+            key = self._PRIMARY_KEY
+        if key in self._indexes:
             raise ValueError("Cannot add index %s because index %s already exists" % (index.name, index.name))
         if index.index_type == "PRIMARY":
             self._primary = index
-        self._indexes[index.name] = index
+        self._indexes[key] = index
 
         if self._indexed_columns is not None:
             self._indexed_columns.add(index.columns[0])
@@ -502,7 +519,7 @@ class Table:
         """Removes an index from the table"""
         self._schema_errors = None
         self._schema_warnings = None
-        index_name = index if type(index) == str else index.name
+        index_name = self._index_key(index)
         if index_name not in self._indexes:
             raise ValueError("Cannot remove index %s because index %s does not exist" % (index_name, index_name))
 
@@ -517,16 +534,24 @@ class Table:
         """Changes an index.  This does not currently support renaming"""
         self._schema_errors = None
         self._schema_warnings = None
-        if not new_index.name in self._indexes:
+        key = self._index_key(new_index)
+        if key not in self._indexes:
             raise ValueError(
                 "Cannot modify index %s because index %s does not exist" % (new_index.name, new_index.name)
             )
 
-        if self._indexes[new_index.name] is self._primary:
+        old_index = self._indexes[key]
+        if old_index is self._primary:
             self._primary = None
         if new_index.index_type == "PRIMARY":
             self._primary = new_index
-        self._indexes[new_index.name] = new_index
+        new_key = key
+        if old_index.is_primary() != new_index.is_primary():
+            new_key = self._PRIMARY_KEY if new_index.is_primary() else new_index.name
+        self._indexes = {
+            (new_key if name == key else name): (new_index if name == key else index)
+            for (name, index) in self._indexes.items()
+        }
 
         # other indexes may still start with the column that was indexed before
         self._indexed_columns = None
-- 
2.43.0


From 4cc668c2dd7a34e642bbca9c564ff69d91965de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 47/61] fix: indexes without a name get a free one, like in
 MySQL

---
 .../mysql/file_reader/create_parser.py        | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 0ede5e3..30c8b49 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -120,6 +120,8 @@ class CreateParser(Table, Parser):
                     self._global_errors.append(f"Table '{self._name}' has two indexes named '{definition._name}'")
                     continue
 
+                if not definition._name and definition.columns and not definition.is_primary():
+                    definition._name = self._free_index_name(definition.columns[0])
                 self.add_index(definition)
             elif isinstance(definition, Constraint):
                 if isinstance(definition, ConstraintForeignBare):
@@ -137,10 +139,12 @@ class CreateParser(Table, Parser):
 
                 if isinstance(definition, ConstraintForeignBare):
                     col = definition._column_name
-                    has_index = col in self._indexes or any(col in idx._columns for idx in self._indexes.values())
-                    has_future_index = any(isinstance(d, Index) and col in d._columns for d in self._definitions)
+                    # only an index which starts with the column can be used for the foreign key
+                    has_index = any(col == idx._columns[0] for idx in self._indexes.values())
+                    has_future_index = any(isinstance(d, Index) and col == d._columns[0] for d in self._definitions)
                     if not has_index and not has_future_index:
-                        self.add_index(Index(name=col, columns=[col], index_type="index"))
+                        name = self._free_index_name(col) or col
+                        self.add_index(Index(name=name, columns=[col], index_type="index"))
 
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
@@ -153,3 +157,13 @@ class CreateParser(Table, Parser):
 
         if not self.semicolon:
             self._global_warnings.append("Missing ending semicolon for table %s" % self._name)
+
+    def _free_index_name(self, column_name):
+        """Returns the name MySQL gives to an index without one, or nothing if that is simply the name of its column"""
+        names = [name.lower() for name in self._indexes]
+        name = column_name
+        number = 2
+        while name.lower() in names:
+            name = "%s_%d" % (column_name, number)
+            number += 1
+        return name if name != column_name else ""
-- 
2.43.0


From 8c083b11ff34f940038996a7e0fddbfe3be7ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 48/61] fix: an empty default of an ENUM column has to be in
 its list, too

---
 mygrations/core/definitions/columns/enum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index 62567ab..30db1cd 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -47,8 +47,11 @@ class Enum(String):
             self._schema_errors.append(f"column '{self.name}' of type '{self.column_type}' must have a list of values")
 
         # the default of a SET column can have any number of the values, separated by commas
-        defaults = (self.default or '').split(',') if self.column_type == 'SET' else [self.default]
-        if self.default and any(default not in (self.enum_values or []) for default in defaults):
+        if self.default is None or (self.column_type == 'SET' and self.default == ''):
+            defaults = []
+        else:
+            defaults = self.default.split(',') if self.column_type == 'SET' else [self.default]
+        if any(default not in (self.enum_values or []) for default in defaults):
             self._schema_errors.append(
                 f"Default value for '{self.column_type}' column '{self.name}' is not in the list of allowed values"
             )
-- 
2.43.0


From b2b69ae4c44be285f6bf72e7b80fe861b1958e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 49/61] fix: default values of numeric columns have to be
 numbers to MySQL, and not only to Python

---
 mygrations/core/definitions/columns/numeric.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 7bcdd21..9e785c7 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -1,3 +1,4 @@
+import re
 from decimal import Decimal, InvalidOperation, ROUND_HALF_UP, localcontext
 from .column import Column
 from typing import List, Union
@@ -69,16 +70,12 @@ class Numeric(Column):
         elif type(self.default) == float:
             default_type = "float"
         elif type(self.default) == str:
+            # Python takes some things for numbers which MySQL doesn't, e.g. nan, inf or 1_000
             default_type = "str"
-            try:
-                int(self.default)
+            if re.fullmatch(r"\s*[+-]?[0-9]+\s*", self.default):
                 default_type = "int"
-            except:
-                try:
-                    float(self.default)
-                    default_type = "float"
-                except:
-                    pass
+            elif re.fullmatch(r"\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\s*", self.default):
+                default_type = "float"
 
         if default_type == "str":
             self._schema_errors.append(
-- 
2.43.0


From ce59981ee77f30146fdf638a6fa994d28559913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 50/61] fix: check fractional defaults of BIT columns instead
 of failing

---
 mygrations/core/definitions/columns/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 9e785c7..4006aa9 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -86,7 +86,7 @@ class Numeric(Column):
                 self._schema_errors.append(
                     f"Column '{self.name}' of type '{self.column_type}' must have an integer value as a default"
                 )
-            if self.column_type == "BIT" and self.default is not None and int(self.default) != 0 and int(self.default) != 1:
+            if self.column_type == "BIT" and self.default is not None and float(self.default) not in (0, 1):
                 self._schema_errors.append(f"Column '{self.name}' of type 'BIT' must have a default of 1 or 0")
 
         if self.length:
-- 
2.43.0


From f5c99a82efc04552f13afe9111c105dd52b1f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 51/61] fix: text columns can not have decimals in their length

---
 mygrations/core/definitions/columns/string.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/core/definitions/columns/string.py b/mygrations/core/definitions/columns/string.py
index f8cc9f4..ea03bc0 100644
--- a/mygrations/core/definitions/columns/string.py
+++ b/mygrations/core/definitions/columns/string.py
@@ -123,6 +123,10 @@ class String(Column):
 
         if self.length and self.column_type not in self._allowed_length:
             self._schema_errors.append(f"Column {self.name} of type {self.column_type} cannot have a length")
+        elif self.length and "," in str(self.length):
+            self._schema_errors.append(
+                f"Column '{self.name}' of type '{self.column_type}' must have an integer value as its length"
+            )
 
         if self.enum_values and self.column_type not in self._allowed_default_list:
             self._schema_errors.append(
-- 
2.43.0


From d5779f467e04016d3ace927d5ab254da8dc8171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 52/61] fix: DECIMAL columns can not be AUTO_INCREMENT

---
 mygrations/core/definitions/columns/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 4006aa9..531e0f3 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -60,7 +60,7 @@ class Numeric(Column):
 
         allow_float = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE"]
         no_length = ["FLOAT", "DOUBLE", "BIT"]
-        no_auto_increment = ["FLOAT", "DOUBLE", "BIT"]
+        no_auto_increment = ["FLOAT", "DOUBLE", "BIT", "DECIMAL", "NUMERIC"]
 
         # I should probably have the parser auto-convert the type based on quotes/whatever, but
         # currently it doesn't and I'm apparently being lazy.  I'll probably regret this.
-- 
2.43.0


From add66dd605fc3147b78a4bd33b6d00c12a9fd4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 53/61] fix: several identical primary keys don't hide the rest
 of the table

---
 mygrations/formats/mysql/file_reader/create_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 30c8b49..b31cca1 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -120,6 +120,10 @@ class CreateParser(Table, Parser):
                     self._global_errors.append(f"Table '{self._name}' has two indexes named '{definition._name}'")
                     continue
 
+                if definition.is_primary() and self.primary and definition.name in self._indexes:
+                    self._global_errors.append(f"Table '{self._name}' has more than one PRIMARY index")
+                    continue
+
                 if not definition._name and definition.columns and not definition.is_primary():
                     definition._name = self._free_index_name(definition.columns[0])
                 self.add_index(definition)
-- 
2.43.0


From 6ddcc0d7f3afc5e6a15783ab5ef66c851d1bf947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 54/61] fix: quote the name of a table which is dropped

---
 mygrations/formats/mysql/mygrations/operations/remove_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/mygrations/operations/remove_table.py b/mygrations/formats/mysql/mygrations/operations/remove_table.py
index 9599814..2f83efb 100644
--- a/mygrations/formats/mysql/mygrations/operations/remove_table.py
+++ b/mygrations/formats/mysql/mygrations/operations/remove_table.py
@@ -17,4 +17,4 @@ class RemoveTable:
         return self._table_name
 
     def __str__(self):
-        return 'DROP TABLE %s;' % self._table_name
+        return 'DROP TABLE `%s`;' % self._table_name
-- 
2.43.0


From 1429989390e5496c106da71811d206028733cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 55/61] fix: quote names which are reserved words or have
 special characters

---
 mygrations/drivers/pymysql/pymysql.py         |  5 ++-
 .../mygrations/operations/remove_column.py    |  5 ++-
 mygrations/formats/mysql/names.py             | 39 +++++++++++++++++++
 3 files changed, 46 insertions(+), 3 deletions(-)
 create mode 100644 mygrations/formats/mysql/names.py

diff --git a/mygrations/drivers/pymysql/pymysql.py b/mygrations/drivers/pymysql/pymysql.py
index dfc2336..1a942a0 100644
--- a/mygrations/drivers/pymysql/pymysql.py
+++ b/mygrations/drivers/pymysql/pymysql.py
@@ -1,5 +1,6 @@
 import pymysql as pymysql_driver  # alias to avoid confusion
 from collections import OrderedDict
+from mygrations.formats.mysql.names import quote_name
 
 
 class PyMySQL(object):
@@ -47,7 +48,7 @@ class PyMySQL(object):
 
         definitions = OrderedDict()
         for table_name in table_names:
-            cursor.execute("SHOW CREATE TABLE %s" % table_name)
+            cursor.execute("SHOW CREATE TABLE %s" % quote_name(table_name))
             if not cursor.rowcount:
                 raise ValueError("Failed to execute SHOW CREATE TABLE command on table %s" % table_name)
 
@@ -72,7 +73,7 @@ class PyMySQL(object):
         # support for memory-preserving iterators.  Given our
         # use case, I think this will be fine.  Can always change later
         cursor = self.connection.cursor()
-        cursor.execute("SELECT * FROM %s" % table_name)
+        cursor.execute("SELECT * FROM %s" % quote_name(table_name))
         rows = [row for row in cursor]
         cursor.close()
 
diff --git a/mygrations/formats/mysql/mygrations/operations/remove_column.py b/mygrations/formats/mysql/mygrations/operations/remove_column.py
index e34db66..882be74 100644
--- a/mygrations/formats/mysql/mygrations/operations/remove_column.py
+++ b/mygrations/formats/mysql/mygrations/operations/remove_column.py
@@ -1,3 +1,6 @@
+from mygrations.formats.mysql.names import quote_name
+
+
 class RemoveColumn:
     """ Generates a partial SQL command to remove a column from a table """
     def __init__(self, column):
@@ -12,4 +15,4 @@ class RemoveColumn:
         table.remove_column(self.column)
 
     def __str__(self):
-        return 'DROP %s' % self.column.name
+        return 'DROP %s' % quote_name(self.column.name)
diff --git a/mygrations/formats/mysql/names.py b/mygrations/formats/mysql/names.py
new file mode 100644
index 0000000..a67f86a
--- /dev/null
+++ b/mygrations/formats/mysql/names.py
@@ -0,0 +1,39 @@
+import re
+
+# the words which MySQL only takes for a name when they are quoted
+RESERVED_WORDS = set(
+    """
+    accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call cascade
+    case change char character check collate column condition constraint continue convert create cross cube
+    cume_dist current_date current_time current_timestamp current_user cursor database databases day_hour
+    day_microsecond day_minute day_second dec decimal declare default delayed delete dense_rank desc describe
+    deterministic distinct distinctrow div double drop dual each else elseif empty enclosed escaped except exists
+    exit explain false fetch first_value float float4 float8 for force foreign from fulltext function generated
+    get grant group grouping groups having high_priority hour_microsecond hour_minute hour_second if ignore in
+    index infile inner inout insensitive insert int int1 int2 int3 int4 int8 integer intersect interval into
+    io_after_gtids io_before_gtids is iterate join json_table key keys kill lag last_value lateral lead leading
+    leave left library like limit linear lines load localtime localtimestamp lock long longblob longtext loop
+    low_priority manual master_bind master_ssl_verify_server_cert match maxvalue mediumblob mediumint mediumtext
+    middleint minute_microsecond minute_second mod modifies natural no_write_to_binlog not nth_value ntile null
+    numeric of on optimize optimizer_costs option optionally or order out outer outfile over parallel partition
+    percent_rank precision primary procedure purge qualify range rank read read_write reads real recursive
+    references regexp release rename repeat replace require resignal restrict return revoke right rlike row
+    row_number rows schema schemas second_microsecond select sensitive separator set show signal smallint spatial
+    specific sql sql_big_result sql_calc_found_rows sql_small_result sqlexception sqlstate sqlwarning ssl starting
+    stored straight_join system table tablesample terminated then tinyblob tinyint tinytext to trailing trigger
+    true undo union unique unlock unsigned update usage use using utc_date utc_time utc_timestamp values varbinary
+    varchar varcharacter varying virtual when where while window with write xor year_month zerofill
+    """.split()
+)
+
+
+def quote_name(name):
+    """Returns the name as it has to be written in an SQL command: quoted, unless there is no need for it
+
+    :param name: The name of a table or column
+    :type name: string
+    :rtype: string
+    """
+    if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", name) and name.lower() not in RESERVED_WORDS:
+        return name
+    return "`%s`" % name.replace("`", "``")
-- 
2.43.0


From 51a2a7e7ff89adda2f09a714c7a5e859cb2c2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 56/61] fix: quoted names can have spaces, parentheses and
 other special characters

---
 .../formats/mysql/file_reader/create_parser.py     |  6 +++---
 .../formats/mysql/file_reader/insert_parser.py     |  2 +-
 .../file_reader/parsers/constraint_foreign.py      | 14 +++++++-------
 .../formats/mysql/file_reader/parsers/index_key.py |  2 +-
 .../mysql/file_reader/parsers/index_unique.py      |  2 +-
 .../mysql/file_reader/parsers/type_character.py    |  2 +-
 .../mysql/file_reader/parsers/type_datetime.py     |  2 +-
 .../mysql/file_reader/parsers/type_decimal.py      |  2 +-
 .../formats/mysql/file_reader/parsers/type_enum.py |  2 +-
 .../mysql/file_reader/parsers/type_numeric.py      |  2 +-
 .../mysql/file_reader/parsers/type_plain.py        |  2 +-
 .../formats/mysql/file_reader/parsers/type_text.py |  2 +-
 12 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index b31cca1..05ff47e 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -2,7 +2,7 @@ import re
 from collections import OrderedDict
 
 from mygrations.core.parse.parser import Parser
-from mygrations.core.parse.text import QUOTED_TEXT, strip_comments
+from mygrations.core.parse.text import QUOTED, strip_comments
 from mygrations.formats.mysql.definitions.constraint import Constraint
 from mygrations.formats.mysql.definitions.index import Index
 from mygrations.formats.mysql.definitions.table import Table
@@ -31,7 +31,7 @@ class CreateParser(Table, Parser):
             "optional": True,
             "name": "if_not_exists",
         },
-        {"type": "regexp", "value": "[^\s\(]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\s\(]+", "name": "name"},
         {"type": "literal", "value": "("},
         {
             "type": "children",
@@ -79,7 +79,7 @@ class CreateParser(Table, Parser):
         # INT(11) or VARCHAR(255) that are preceded by the type keyword.
         # Quoted text is left alone.
         string = re.sub(
-            QUOTED_TEXT + r"|(\(|\,)(\s*`?\w+`?)\(\d+\)",
+            QUOTED + r"|(\(|\,)(\s*(?:`[^`]+`|\w+))\(\d+\)",
             lambda match: match.group(1) + match.group(2) if match.group(1) else match.group(0),
             string,
         )
diff --git a/mygrations/formats/mysql/file_reader/insert_parser.py b/mygrations/formats/mysql/file_reader/insert_parser.py
index 26f787d..ed89327 100644
--- a/mygrations/formats/mysql/file_reader/insert_parser.py
+++ b/mygrations/formats/mysql/file_reader/insert_parser.py
@@ -8,7 +8,7 @@ class InsertParser(Parser, Rows):
         'value': 'INSERT INTO'
     }, {
         'type': 'regexp',
-        'value': '[^\s\(]+',
+        'value': '`[^`]+`|[^\s\(]+',
         'name': 'table'
     }, {
         'type': 'literal',
diff --git a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
index fd58703..7b72c0f 100644
--- a/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
+++ b/mygrations/formats/mysql/file_reader/parsers/constraint_foreign.py
@@ -6,15 +6,15 @@ class ConstraintForeign(Parser, Constraint):
     # CONSTRAINT `accounts_status_id_ref_account_statuses_id` FOREIGN KEY (`status_id`) REFERENCES `account_statuses` (`id`) ON UPDATE CASCADE
     rules = [
         {"type": "literal", "value": "CONSTRAINT"},
-        {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "name", "value": "`[^`]+`|[^\(\s\)]+"},
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "column_name", "value": "`[^`]+`|[^\(\s\)]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
-        {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
+        {"type": "regexp", "name": "foreign_table_name", "value": "`[^`]+`|[^\(]+"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
+        {"type": "regexp", "name": "foreign_column_name", "value": "`[^`]+`|[^\)]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "ON DELETE CASCADE", "optional": True},
         {"type": "literal", "value": "ON DELETE NO ACTION", "optional": True},
@@ -66,12 +66,12 @@ class ConstraintForeignBare(ConstraintForeign):
     rules = [
         {"type": "literal", "value": "FOREIGN KEY"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "column_name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "column_name", "value": "`[^`]+`|[^\(\s\)]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "REFERENCES"},
-        {"type": "regexp", "name": "foreign_table_name", "value": "[^\(]+"},
+        {"type": "regexp", "name": "foreign_table_name", "value": "`[^`]+`|[^\(]+"},
         {"type": "literal", "value": "("},
-        {"type": "regexp", "name": "foreign_column_name", "value": "[^\)]+"},
+        {"type": "regexp", "name": "foreign_column_name", "value": "`[^`]+`|[^\)]+"},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": "ON DELETE CASCADE", "optional": True},
         {"type": "literal", "value": "ON DELETE NO ACTION", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 75eefc8..6368bd4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -8,7 +8,7 @@ class IndexKey(Parser, Index):
     # KEY account_id (account_id,name)
     rules = [
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b"},
-        {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
+        {"type": "regexp", "name": "name", "value": "`[^`]+`|[^\(\s\)]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index 44d0775..e33a3e6 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "regexp", "name": "unique", "value": r"UNIQUE\b"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)\b", "optional": True},
-        {"type": "regexp", "name": "name", "value": "[^\(,]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": "`[^`]+`|[^\(,]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index d2315eb..33ef08e 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -24,7 +24,7 @@ class TypeCharacter(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
index c70ece5..6230862 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_datetime.py
@@ -24,7 +24,7 @@ class TypeDateTime(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index c1af422..fed1115 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -9,7 +9,7 @@ class TypeDecimal(Parser, Type):
 
     # longitude float(20,4) unsigned default null
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 156f341..3872a9d 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -9,7 +9,7 @@ class TypeEnum(Parser, Type):
 
     # types enum( `young`,`middle`,`old` )
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index 9c9c7f5..3859b6e 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -21,7 +21,7 @@ class TypeNumeric(Parser, Type):
 
     # `created` int(10) unsigned not null default 0 AUTO_INCREMENT
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
         {"type": "regexp", "value": "\d+", "name": "length"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index 5596a43..32603d4 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -12,7 +12,7 @@ class TypePlain(Parser, Type):
     # "bare_null" tokens are parsed only to consume the NULL keyword from the
     # remaining input — the actual nullability logic in process() uses "NOT NULL".
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         # Consume bare NULL before DEFAULT so it doesn't confuse subsequent rules.
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index fbaeded..35c0c0c 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -19,7 +19,7 @@ class TypeText(Parser, Type):
     # hackish? maybe (i.e. yes) the repeated COLLATE and CHARACTER SETS take care of uncertain
     # ordering.  I could also use `children` which is order-agnostic, but I'm being lazy
     rules = [
-        {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
+        {"type": "regexp", "value": "`[^`]+`|[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
-- 
2.43.0


From a355c34cf167be65b130d654bf9b8483faafcf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 57/61] fix: changes of other indexes never meet the primary
 key

---
 mygrations/core/definitions/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 72b00e4..38e842b 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -494,7 +494,9 @@ class Table:
         primary = self._indexes.get(self._PRIMARY_KEY)
         if primary is None:
             return name
-        if type(index) != str and index.is_primary():
+        if type(index) != str:
+            if not index.is_primary():
+                return name
             return name if name in self._indexes and self._indexes[name].is_primary() else self._PRIMARY_KEY
         return self._PRIMARY_KEY if name not in self._indexes and name == primary.name else name
 
-- 
2.43.0


From 1bf6b92d8832b43912e4aa24cac42f90ef2c814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 58/61] fix: only columns missing in the table count as new in
 row comparison

---
 mygrations/formats/mysql/definitions/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index b342083..7695a0d 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -204,7 +204,7 @@ class Table(BaseTable):
             # try to be smart and not update if we don't have to
             (live_cols, new_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
             # columns which are just being added have to be filled
-            differences = bool(new_cols)
+            differences = any(col not in from_table.columns for col in new_cols)
             for col in updated_cols:
                 if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
-- 
2.43.0


From cca833ce78432cb868139c0737ddb82fe08a6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 59/61] fix: lengths of linked columns can be numbers or text,
 or be left out

---
 mygrations/core/definitions/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index ef7288c..9d87f81 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -322,6 +322,9 @@ class Database:
         for attr in ['column_type', 'length', 'character_set', 'collate']:
             table_value = getattr(table_column, attr)
             foreign_value = getattr(foreign_column, attr)
+            if attr == 'length' and str(table_value or '') == str(foreign_value or ''):
+                # a length can be a number or text, and having none can be None or empty
+                continue
             if table_value != foreign_value:
                 return "Constraint error for foreign key `%s`: %s mismatch. `%s`.`%s` is '%s' but `%s`.`%s` is '%s'" % (
                     constraint.name, attr.replace('_', ' '), table.name, constraint.column_name, table_value,
-- 
2.43.0


From 3dd3402509dcc4abdb76147ceeb513253cd44765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 60/61] fix: indexes without columns are reported next to
 foreign keys instead of failing

---
 mygrations/core/definitions/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 38e842b..bd243bc 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -412,7 +412,7 @@ class Table:
         # best way to do this is with a set.  We'll keep a record of all indexed columns
         # the column is indexed if an index has that column in the first position
         if self._indexed_columns is None:
-            self._indexed_columns = set([index.columns[0] for index in self._indexes.values()])
+            self._indexed_columns = set([index.columns[0] for index in self._indexes.values() if index.columns])
         return column in self._indexed_columns
 
     def __str__(self) -> str:
-- 
2.43.0


From 002946e4f15203c917471617279b18042a848c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 61/61] fix: records without an id are refused instead of being
 managed as id 'None'

---
 mygrations/core/definitions/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index bd243bc..2e92816 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -363,7 +363,7 @@ class Table:
         if self._rows is None:
             self._rows = OrderedDict()
 
-        row_id = str(row.get("id"))
+        row_id = str(row.get("id")) if row.get("id") is not None else ""
         if not row_id:
             raise ValueError("Cannot manage records without an 'id' column and value")
         if row_id in self._rows:
-- 
2.43.0

