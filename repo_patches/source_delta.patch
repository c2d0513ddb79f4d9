From d7575ac169154ef84aa45eae98d9ff4ba37fc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 01/27] fix: asking for inferred parallelizers no longer grows
 the stored list

---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..3ce2322 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,8 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        # copy, so that asking for the inferred ones does not change the stored list
+        parallelizer_list = list(self.parallelizer_list)
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From 05b544e75e0096d54ef5ea689ec24f3742d370d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 02/27] fix: --save_to of the CLI writes only files that do not
 exist, relative to the caller

---
 pash_annotations/annotation_cli.py | 31 +++++++++++-------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..4e6c02b 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -22,24 +22,9 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
-shall_we_write_to_file = False
-if where_to_save is not None:
-    shall_we_write_to_file = True
-    try:
-        text_file = open(script_prefix + where_to_save)
-        text_file.close()
-    except IOError:
-        shall_we_write_to_file = False
-    if not shall_we_write_to_file:
-        print("There exists a file on the provided path so the result will be output (only). ")
-
 
 result = ""
 result += ">>> READ COMMAND INVOCATION: \n" + cmd_invocation + "\n\n"
@@ -65,9 +50,15 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 # TODO: change representation when we move commutativity into parallelizers
 result += str(para_info)
 
-if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
-    text_file.write(result)
-    text_file.close()
-else:
+is_saved = False
+if where_to_save is not None:
+    try:
+        # exclusive creation: never overwrites a file, even if it is created in the meantime
+        with open(where_to_save, "x") as text_file:
+            text_file.write(result)
+        is_saved = True
+    except FileExistsError:
+        print("There exists a file on the provided path so the result will be output (only). ")
+
+if not is_saved:
     print(result)
-- 
2.43.0


From 93f7a904ca6c9eaa57188880835ee39385cd495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 03/27] fix: uniq -f, -s and -w take an argument

---
 .../parser/command_flag_option_info/data/uniq.json          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..b570198 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -11,12 +11,10 @@
         [
             "-D"
         ],
-        "-f",
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
         [
             "-u",
             "--unique"
@@ -25,7 +23,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -39,6 +36,7 @@
             "METHOD"
         ],
         [
+            "-f",
             "--skip-fields",
             "N"
         ],
@@ -47,10 +45,12 @@
             "METHOD"
         ],
         [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
-- 
2.43.0


From c0a6e31956249d429861d8a712f6d0105ac708fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 04/27] fix: long forms of grep options are aliases of their
 short forms

---
 .../command_flag_option_info/data/grep.json   | 24 -------------------
 1 file changed, 24 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..c70557f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -129,9 +129,6 @@
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -142,17 +139,11 @@
         ],
         [
             "--color",
-            "WHEN"
-        ],
-        [
             "--colour",
             "WHEN"
         ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -162,25 +153,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -194,17 +176,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From c6e20b79e3322dc989934ad1194af65e3455106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 05/27] fix: options of tail, sed, awk, col and mkfifo listed
 as flags take an argument

---
 .../command_flag_option_info/data/awk.json    | 14 ++++++++----
 .../command_flag_option_info/data/col.json    | 12 +++++-----
 .../command_flag_option_info/data/mkfifo.json |  4 +---
 .../command_flag_option_info/data/sed.json    | 19 ++++++++--------
 .../command_flag_option_info/data/tail.json   | 22 +++++++++----------
 5 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..b32da77 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -102,6 +98,16 @@
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "VAR=VAL"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/col.json b/pash_annotations/parser/command_flag_option_info/data/col.json
index 0b46446..f2241e9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/col.json
+++ b/pash_annotations/parser/command_flag_option_info/data/col.json
@@ -12,10 +12,6 @@
             "-h",
             "--tabs"
         ],
-        [
-            "-l",
-            "--lines"
-        ],
         [
             "-p",
             "--pass"
@@ -33,5 +29,11 @@
             "--help"
         ]
     ],
-    "option": []
+    "option": [
+        [
+            "-l",
+            "--lines",
+            "NUM"
+        ]
+    ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..1a5f482 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,8 +1,5 @@
 {
     "flag": [
-        [
-            "-m"
-        ],
         [
             "-Z"
         ],
@@ -15,6 +12,7 @@
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
         ],
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..c552942 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -8,14 +8,6 @@
         [
             "--debug"
         ],
-        [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
-        ],
         [
             "--follow-symlinks"
         ],
@@ -56,11 +48,18 @@
         ],
         [
             "-l",
+            "--line-length",
             "N"
         ],
         [
-            "--line-length",
-            "N"
+            "-e",
+            "--expression",
+            "SCRIPT"
+        ],
+        [
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..c19c52d 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,17 +1,9 @@
 {
     "flag": [
-        [
-            "-c",
-            "--bytes"
-        ],
         [
             "-f",
             "--follow"
         ],
-        [
-            "-n",
-            "--lines"
-        ],
         [
             "-q",
             "--quiet",
@@ -20,9 +12,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -48,8 +37,19 @@
             "PID"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
+        ],
+        [
+            "-c",
+            "--bytes",
+            "NUM"
+        ],
+        [
+            "-n",
+            "--lines",
+            "NUM"
         ]
     ]
 }
-- 
2.43.0


From 8af653afc9f65998f420a422723331b111e702f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 06/27] fix: parser splits long options and their argument at
 the equal sign

---
 pash_annotations/parser/parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..be58be0 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -42,6 +42,13 @@ def parse(command) -> CommandInvocationInitial:
             for split_el in list(potential_flag_or_option[1:]):
                 flag: Flag = Flag(f'-{split_el}')
                 flag_option_list.append(flag)
+        elif is_long_option_with_equal_sign(potential_flag_or_option, set_of_all_flags, set_of_all_options):
+            long_name, option_arg_as_string = potential_flag_or_option.split('=', 1)
+            if long_name in set_of_all_options:
+                option_name_as_string = dict_option_to_primary_repr.get(long_name, long_name)
+            else: # flag with an optional argument
+                option_name_as_string = dict_flag_to_primary_repr.get(long_name, long_name)
+            flag_option_list.append(Option(option_name_as_string, option_arg_as_string))
         else:
             break  # next one is Operand, and we keep these in separate list
         i += 1
@@ -119,6 +126,12 @@ def are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
     if potential_flag_or_option[0] != '-' or potential_flag_or_option == '-':
         return False
     return all(f'-{split_el}' in set_of_all_flags for split_el in list(potential_flag_or_option[1:]))
+
+def is_long_option_with_equal_sign(potential_option, set_of_all_flags, set_of_all_options):
+    if not potential_option.startswith('--') or '=' not in potential_option:
+        return False
+    long_name = potential_option.split('=', 1)[0]
+    return long_name in set_of_all_options or long_name in set_of_all_flags
 #
 # class WhichClassForArg(Enum):
 #     FILENAME = 'filename'
-- 
2.43.0


From 23dc713a12d6159585cc2929221b144a16184fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 07/27] fix: parser accepts option arguments attached to the
 option letter

---
 pash_annotations/parser/parser.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index be58be0..4b22f68 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -49,6 +49,21 @@ def parse(command) -> CommandInvocationInitial:
             else: # flag with an optional argument
                 option_name_as_string = dict_flag_to_primary_repr.get(long_name, long_name)
             flag_option_list.append(Option(option_name_as_string, option_arg_as_string))
+        elif is_cluster_ending_in_option(potential_flag_or_option, set_of_all_flags, set_of_all_options,
+                                         is_last_element=(i+1 == len(parsed_elements_list))):
+            # flags (possibly none), followed by an option with its argument attached or in the next element
+            pos = 1
+            while f'-{potential_flag_or_option[pos]}' not in set_of_all_options:
+                flag_name_as_string = f'-{potential_flag_or_option[pos]}'
+                flag_option_list.append(Flag(dict_flag_to_primary_repr.get(flag_name_as_string, flag_name_as_string)))
+                pos += 1
+            option_name_as_string = f'-{potential_flag_or_option[pos]}'
+            option_arg_as_string = potential_flag_or_option[pos+1:]
+            if option_arg_as_string == '':
+                option_arg_as_string = parsed_elements_list[i+1]
+                i += 1  # since we consumed another term for the argument
+            flag_option_list.append(Option(dict_option_to_primary_repr.get(option_name_as_string, option_name_as_string),
+                                           option_arg_as_string))
         else:
             break  # next one is Operand, and we keep these in separate list
         i += 1
@@ -132,6 +147,17 @@ def is_long_option_with_equal_sign(potential_option, set_of_all_flags, set_of_al
         return False
     long_name = potential_option.split('=', 1)[0]
     return long_name in set_of_all_options or long_name in set_of_all_flags
+
+def is_cluster_ending_in_option(potential_cluster, set_of_all_flags, set_of_all_options, is_last_element):
+    if potential_cluster[0] != '-' or potential_cluster.startswith('--'):
+        return False
+    for pos in range(1, len(potential_cluster)):
+        name = f'-{potential_cluster[pos]}'
+        if name in set_of_all_options:
+            return pos + 1 < len(potential_cluster) or not is_last_element
+        elif name not in set_of_all_flags:
+            return False
+    return False
 #
 # class WhichClassForArg(Enum):
 #     FILENAME = 'filename'
-- 
2.43.0


From 74e3c24c8ce8061df1a24471514208572202178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 08/27] fix: flags given as one combined element are mapped to
 their primary representation

---
 pash_annotations/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 4b22f68..092c4c4 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -40,7 +40,7 @@ def parse(command) -> CommandInvocationInitial:
             i += 1  # since we consumed another term for the argument
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
+                flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
         elif is_long_option_with_equal_sign(potential_flag_or_option, set_of_all_flags, set_of_all_options):
             long_name, option_arg_as_string = potential_flag_or_option.split('=', 1)
-- 
2.43.0


From 4cb9fe95c89437a8cbfd02341d9aec05bbb0b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 09/27] fix: options with an optional argument do not consume
 the next element

---
 .../command_flag_option_info/data/diff.json       | 13 +++++++++++--
 .../command_flag_option_info/data/grep.json       |  4 ++++
 .../command_flag_option_info/data/mkfifo.json     |  3 ++-
 .../parser/command_flag_option_info/data/rm.json  |  6 ++++++
 .../parser/command_flag_option_info/data/tee.json |  3 +++
 .../command_flag_option_info/data/uniq.json       |  6 ++++++
 .../command_flag_option_info/data/xargs.json      | 15 ++++++++++++---
 7 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..c49dad9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -112,17 +112,26 @@
         [
             "-v",
             "--version"
+        ],
+        [
+            "-c",
+            "--context"
+        ],
+        [
+            "-u",
+            "--unified"
+        ],
+        [
+            "--color"
         ]
     ],
     "option": [
         [
-            "-c",
             "-C",
             "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
             "--unified",
             "NUM"
diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index c70557f..6a2bdd3 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -124,6 +124,10 @@
         [
             "-z",
             "--null-data"
+        ],
+        [
+            "--color",
+            "--colour"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 1a5f482..e106098 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,7 +1,8 @@
 {
     "flag": [
         [
-            "-Z"
+            "-Z",
+            "--context"
         ],
         [
             "--help"
diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..d6e0aad 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -34,6 +34,12 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--interactive"
+        ],
+        [
+            "--preserve-root"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..74fd489 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -16,6 +16,9 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--output-error"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index b570198..cffc805 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -28,6 +28,12 @@
         ],
         [
             "--version"
+        ],
+        [
+            "--all-repeated"
+        ],
+        [
+            "--group"
         ]
     ],
     "option": [
diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..fff276f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -38,6 +38,18 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
         ]
     ],
     "option": [
@@ -53,19 +65,16 @@
         ],
         [
             "-E",
-            "-e",
             "--eof",
             "EOF_STR"
         ],
         [
             "-I",
-            "-i",
             "--replace",
             "REPLACE-STR"
         ],
         [
             "-L",
-            "-l",
             "--max-lines",
             "max-lines"
         ],
-- 
2.43.0


From 5077cfac08818bdc94032a704b04f2102914dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 10/27] fix: a set starting with a newline or null escape
 contains it

---
 pash_annotations/datatypes/BasicDatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..2660a97 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,11 +111,11 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        return name_as_string.find(r"\n") >= 0
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return name_as_string.find(r"\0") >= 0
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
-- 
2.43.0


From d8d0f8377f2e544ce5307146441c0677632f7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 11/27] fix: tr -s is not concatenable if newlines are
 squeezed, or translated or deleted before squeezing

---
 .../ParallelizabilityInfoGeneratorTr.py              | 12 +++++++++++-
 pash_annotations/datatypes/BasicDatatypes.py         |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..b6ed4c0 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -26,8 +26,10 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"]) and \
                                      self.does_last_set_effectively_contain_newline()  # only allowed to have a single set
         # check for squeezing newlines
+        # also if newlines are translated or deleted first, since this joins lines before squeezing
         does_squeeze_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"]) and \
-                                      self.does_last_set_effectively_contain_newline()
+                                      (self.does_last_set_effectively_contain_newline() or
+                                       self.does_first_set_effectively_contain_newline())
         if does_delete_newlines:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
@@ -41,6 +43,14 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    def does_first_set_effectively_contain_newline(self) -> bool:
+        first_operand: Operand = self.cmd_inv.operand_list[0]
+        # '-c' always refers to the first set
+        if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
+            return not first_operand.contains_new_line()
+        else:
+            return first_operand.contains_new_line() or first_operand.contains_null_char()
+
     def does_last_set_effectively_contain_newline(self) -> bool:
         last_operand: Operand = self.cmd_inv.operand_list[-1]
         # is contained if (a) no -c and in set, or (b) -c and not in set
diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index 2660a97..9a136d6 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -111,7 +111,9 @@ class Operand(BaseClassForBasicDatatypes):
 
     def contains_new_line(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\n") >= 0
+        # escaped, octal or literal newline, or a character class which contains it
+        return any(name_as_string.find(newline_repr) >= 0
+                   for newline_repr in [r"\n", r"\12", r"\012", "\n", "[:space:]", "[:cntrl:]"])
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-- 
2.43.0


From 6951b097bc744dd9010ac3d234b4ae0338e4479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 12/27] fix: sed reads stdin only without file operands and
 edits files with -i

---
 .../annotation_generators/InputOutputInfoGeneratorSed.py    | 6 +++++-
 .../parser/command_flag_option_info/data/sed.json           | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..3fead8d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,11 +4,15 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.set_implicit_use_of_stdin()
+        if self.does_flag_option_list_contain_at_least_one_of(["-i"]):
+            raise Exception('sed with -i edits its input files and is considered side-effectful for now')
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
+            if self.get_operand_list_length() == 1:
+                self.set_implicit_use_of_stdin()
             self.set_first_operand_as_config_arg_type_string()
             self.all_but_first_operand_is_streaming_input()
         else:
+            self.if_no_operands_given_stdin_implicitly_used()
             self.all_operands_are_streaming_inputs()
 
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index c552942..c0f1aa0 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -39,10 +39,15 @@
         ],
         [
             "--version"
+        ],
+        [
+            "-i",
+            "--in-place"
         ]
     ],
     "option": [
         [
+            "-i",
             "--in-place",
             "SUFFIX"
         ],
-- 
2.43.0


From 2607ac163b9888eb7b2398556becc95dd86a87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 13/27] fix: stream substitution reaches streams in option
 arguments

---
 .../datatypes/parallelizability/AggregatorSpec.py         | 8 +++++---
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py     | 7 +++++++
 pash_annotations/datatypes/CommandInvocationWithIOVars.py | 7 ++++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..327321b 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -226,15 +226,17 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         elif self.kind == AggregatorKindEnum.CUSTOM_2_ARY:
             assert(len(inputs_from) == 2)
         aggregator_cmd_inv = deepcopy(original_cmd_invocation)
-        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(original_cmd_invocation.flag_option_list)
-        # access map modifications
+        # access map modifications, also for streams in option arguments, before options are transformed
         # Hard-coded how to provide input and get output -> TODO: move to spec
         aggregator_cmd_inv.remove_streaming_inputs()
+        aggregator_cmd_inv.remove_streaming_outputs()
+        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(aggregator_cmd_inv.flag_option_list)
         aggregator_cmd_inv.operand_list = inputs_from
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..229af5b 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,5 +1,6 @@
 from typing import Union
 from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.util_standard import standard_repr, standard_eq
 
 IOVar = int
 
@@ -9,6 +10,12 @@ class OptionWithIOVar:
         self.option_name : str = name
         self.option_arg : Union[IOVar, ArgStringType] = option_arg
 
+    def __repr__(self) -> str:
+        return standard_repr(self)
+
+    def __eq__(self, other) -> bool:
+        return standard_eq(self, other)
+
     def get_name(self) -> str:
         return self.option_name
 
diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..94b6f5c 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, OptionWithIOVar):
+                # without its argument, the option is dropped
+                for new_option_arg in function_to_apply(flagoption.option_arg):
+                    new_flag_option_list.append(OptionWithIOVar(flagoption.option_name, new_option_arg))
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
-- 
2.43.0


From fff317afcfc1b2ce7e169deb136a7ec638dca0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 14/27] fix: grep with context, -m, -z or -H is not
 parallelizable by concatenation

---
 .../ParallelizabilityInfoGeneratorGrep.py                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..91d15ca 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -23,7 +23,8 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # for -m, we only do IF
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
+        # context and -m depend on other lines, -z matches across lines and -H prints the name of the input
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m", "-z", "-H"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From bcf64205899400109192fa0a1fef87b2ce898a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 15/27] fix: recursive grep without operands does not read
 stdin

---
 .../InputOutputInfoGeneratorGrep.py                  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index b3640b7..4b11060 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -23,13 +23,13 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
-                self.set_implicit_use_of_stdin()
+                self.set_implicit_use_of_stdin_if_not_recursive()
             else:
                 self.all_operands_are_streaming_inputs() # this is true also if empty
         else:
             self.set_first_operand_as_config_arg_type_string()
             if self.get_operand_list_length() == 1:
-                self.set_implicit_use_of_stdin()
+                self.set_implicit_use_of_stdin_if_not_recursive()
             else:
                 self.all_but_first_operand_is_streaming_input()
         # TODO: make correct CA for input list
@@ -40,3 +40,11 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         #         # self.set_ioinfo_positional_input_list([Operand("$PWD")]) # TODO: this is not exactly equivalent due to path and type wrong
         #     else:
         #         self.set_implicit_use_of_stdin()
+
+    def set_implicit_use_of_stdin_if_not_recursive(self) -> None:
+        # without file operands, recursive search does not read stdin but the working directory
+        is_recursive = self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]) or \
+                       any(option.get_arg() == "recurse" for option in self.get_flag_option_list_filtered_with(["-d"]))
+        if is_recursive:
+            raise Exception("recursive grep without file or directory is not handled")
+        self.set_implicit_use_of_stdin()
-- 
2.43.0


From 928f4209a1b15aa06e13fd242f8d9e44333865e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 16/27] fix: sort --debug annotates its lines so its outputs
 cannot be merged

---
 .../ParallelizabilityInfoGeneratorCustomSort.py                 | 2 +-
 .../annotation_generators/ParallelizabilityInfoGeneratorSort.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index b614186..244c9af 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -13,7 +13,7 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
     def generate_info(self) -> None:
         # copied from sort
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]):
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..96ed71b 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -14,7 +14,7 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
 
     def generate_info(self) -> None:
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]):
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
-- 
2.43.0


From e827fc4947477392fa3d3a771150128f8500607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 17/27] fix: no information if a file operand could also be an
 option

---
 .../InputOutputInfoGenerator_Interface.py                   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
index d34b4b8..4c7756b 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
@@ -39,8 +39,14 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
         pass
 
     def get_info(self) -> InputOutputInfo:
+        if self.does_file_operand_resemble_option():
+            raise Exception("operand considered as file could also be an option (unknown or given late) or '--'")
         return self.input_output_info
 
+    def does_file_operand_resemble_option(self) -> bool:
+        return any(typer[0] == WhichClassForArg.FILESTD and str(operand.get_name()).startswith('-') and operand.get_name() != '-'
+                   for operand, typer in zip(self.cmd_inv.operand_list, self.input_output_info.operand_list_typer))
+
     def get_cmd_inv_with_io(self, cmd_inv: CommandInvocationInitial) -> CommandInvocationWithIO:
         return self.input_output_info.apply_input_output_info_to_command_invocation(cmd_inv)
 
-- 
2.43.0


From d864bd2ad18a5b3425a1370fcfa6d82bbfaf7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 18/27] fix: sed with -z or --debug is not parallelizable by
 concatenation

---
 .../annotation_generators/ParallelizabilityInfoGeneratorSed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..0583f04 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -8,6 +8,9 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        # lines are not processed individually with -z, and --debug also prints the script
+        if self.does_flag_option_list_contain_at_least_one_of(["-z", "--debug"]):
+            return
         # TODO: Logic copied from PaSh, but does this not depend how the script is given?
         if  self.does_first_operand_start_with("-") \
             or self.does_first_operand_start_with("s") \
-- 
2.43.0


From b4fd271a0476fbeb8ea296caf47a62fec151acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 19/27] fix: cut with newline as delimiter is not
 parallelizable

---
 .../annotation_generators/ParallelizabilityInfoGeneratorCut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
index 0290e7f..ee67a93 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
@@ -8,5 +8,8 @@ class ParallelizabilityInfoGeneratorCut(ParallelizabilityInfoGeneratorInterface)
     # list_of_all_options = ["-b", "-c", "-d", "-f", "--output-delimiter", ]
 
     def generate_info(self) -> None:
+        # with newline as delimiter, the lines are the fields
+        if any(option.get_arg() == "\n" for option in self.get_flag_option_list_filtered_with(["-d"])):
+            return
         self.append_to_parallelizer_list_cc_seq_conc()
         self.append_to_parallelizer_list_rr_seq_conc()
-- 
2.43.0


From 2f36960ae5ebf913fbf652925c45bd76393721a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 20/27] fix: tr knows the long form of -t

---
 pash_annotations/parser/command_flag_option_info/data/tr.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tr.json b/pash_annotations/parser/command_flag_option_info/data/tr.json
index 8e8b092..53b9d81 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tr.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tr.json
@@ -14,7 +14,8 @@
             "--squeeze-repeats"
         ],
         [
-            "-t"
+            "-t",
+            "--truncate-set1"
         ],
         [
             "--help"
-- 
2.43.0


From 26bbdc2626807d22ef7203f81a06104c3c91045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 21/27] fix: awk program options take an argument, dump and
 profile flags write files

---
 .../InputOutputInfoGeneratorAwk.py            |  5 ++-
 .../command_flag_option_info/data/awk.json    | 36 ++++++++++---------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..ed78676 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -4,10 +4,13 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        if self.does_flag_option_list_contain_at_least_one_of(["-d", "-ofile", "-p"]):
+            raise Exception("awk writes to further files with these flags so considered side-effectful")
+
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index b32da77..7356977 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -20,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -36,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -108,6 +92,26 @@
             "-v",
             "--assign",
             "VAR=VAL"
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-l",
+            "--load",
+            "LIB"
         ]
     ]
 }
-- 
2.43.0


From 308368f734252f8d68cd83f7c01f95adccb5e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 22/27] fix: mapper with auxiliary outputs forgets the streams
 it no longer uses

---
 .../datatypes/parallelizability/MapperSpec.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index eab2f9d..1ff2c9d 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -84,6 +84,9 @@ class MapperSpec:
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
                 mapper.access_map.pop(operand)
+            for implicit_var in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
+                if implicit_var is not None:
+                    mapper.access_map.pop(implicit_var)
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
-- 
2.43.0


From b04d78a17324e2b814c7c3d4d2b2cabf5164ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 23/27] fix: no information if a pattern, script or set operand
 could also be an option

---
 .../annotation_generators/InputOutputInfoGeneratorTr.py   | 2 ++
 .../InputOutputInfoGenerator_Interface.py                 | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTr.py
index 85917c8..a590897 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTr.py
@@ -11,6 +11,8 @@ class InputOutputInfoGeneratorTr(InputOutputInfoGeneratorInterface):
     # none, takes from stdin and prints to stdout and no way to suppress output
 
     def generate_info(self) -> None:
+        if any(self.does_resemble_option(operand) for operand in self.cmd_inv.operand_list):
+            raise Exception("operand considered as set could also be an option (unknown or given late) or '--'")
         self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
         self.set_all_operands_as_config_arg_type_string()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
index 4c7756b..45d9c3e 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
@@ -44,9 +44,13 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
         return self.input_output_info
 
     def does_file_operand_resemble_option(self) -> bool:
-        return any(typer[0] == WhichClassForArg.FILESTD and str(operand.get_name()).startswith('-') and operand.get_name() != '-'
+        return any(typer[0] == WhichClassForArg.FILESTD and self.does_resemble_option(operand)
                    for operand, typer in zip(self.cmd_inv.operand_list, self.input_output_info.operand_list_typer))
 
+    @staticmethod
+    def does_resemble_option(operand) -> bool:
+        return str(operand.get_name()).startswith('-') and operand.get_name() != '-'
+
     def get_cmd_inv_with_io(self, cmd_inv: CommandInvocationInitial) -> CommandInvocationWithIO:
         return self.input_output_info.apply_input_output_info_to_command_invocation(cmd_inv)
 
@@ -146,6 +150,8 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
         self.input_output_info.set_all_operands_as_config_arg_type_string()
 
     def set_first_operand_as_config_arg_type_string(self):
+        if self.does_resemble_option(self.cmd_inv.operand_list[0]):
+            raise Exception("operand considered as string could also be an option (unknown or abbreviated) or '--'")
         self.input_output_info.set_first_operand_as_config_arg_type_string()
 
     def set_first_operand_as_config_arg_type_filename_or_std_descriptor(self):
-- 
2.43.0


From b1170dd01f85f217158a60e0f68741a4fdd6e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 24/27] fix: stream substitution leaves the caller's lists
 alone and can permute streams

---
 .../datatypes/CommandInvocationWithIOVars.py  | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 94b6f5c..3671de2 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -56,24 +56,29 @@ class CommandInvocationWithIOVars:
         self.substitute_outputs_in_cmd_invocation(outputs_to)
 
     def substitute_inputs_in_cmd_invocation(self, inputs_from):
-        def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_input():
-                new_var = inputs_from.pop(0)
-                return self.replace_var_consistently(var, new_var)
-            else:
-                return var
-        self.map_var(function_to_apply_to_vars)
-        assert len(inputs_from) == 0
+        self.substitute_vars_with_access(inputs_from, lambda access: access.is_stream_input())
 
     def substitute_outputs_in_cmd_invocation(self, outputs_to):
+        self.substitute_vars_with_access(outputs_to, lambda access: access.is_stream_output())
+
+    def substitute_vars_with_access(self, new_vars, has_right_access):
+        # the new variables may contain some of the current ones, and the list belongs to the caller
+        remaining_new_vars = list(new_vars)
+        old_vars = []
+        new_access_map = dict()
         def function_to_apply_to_vars(var):
-            if self.access_map[var].is_stream_output():
-                new_var = outputs_to.pop(0)
-                return self.replace_var_consistently(var, new_var)
+            if has_right_access(self.access_map[var]):
+                new_var = remaining_new_vars.pop(0)
+                old_vars.append(var)
+                new_access_map[new_var] = self.access_map[var]
+                return new_var
             else:
                 return var
         self.map_var(function_to_apply_to_vars)
-        assert len(outputs_to) == 0
+        assert len(remaining_new_vars) == 0
+        for old_var in old_vars:
+            self.access_map.pop(old_var)
+        self.access_map.update(new_access_map)
 
     def generate_inputs(self):
         streaming_inputs = []
-- 
2.43.0


From a0d43983e01f504615dbcf40b66019ef031ee90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 25/27] fix: comm and set_diff with a wrong number of operands
 have no information, with python -O as well

---
 .../annotation_generators/InputOutputInfoGeneratorComm.py      | 3 ++-
 .../annotation_generators/InputOutputInfoGeneratorSetDiff.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py
index 6cd80d8..21853ac 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorComm.py
@@ -12,5 +12,6 @@ class InputOutputInfoGeneratorComm(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
         self.set_implicit_use_of_stdout()
-        assert(self.get_operand_list_length() == 2)  # needs two files to compare;
+        if self.get_operand_list_length() != 2:
+            raise Exception('comm needs exactly two files to compare')
         self.all_operands_are_streaming_inputs()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py
index 4c0f0f0..3cd92f3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSetDiff.py
@@ -6,5 +6,6 @@ class InputOutputInfoGeneratorSetDiff(InputOutputInfoGeneratorInterface):
     def generate_info(self) -> None:
         self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
-        assert(self.get_operand_list_length() == 1)
+        if self.get_operand_list_length() != 1:
+            raise Exception('set_diff needs exactly one operand')
         self.set_first_operand_as_config_arg_type_filename_or_std_descriptor()
\ No newline at end of file
-- 
2.43.0


From 316e9a65e335a2ac01e07e9281a01712c9025622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 26/27] fix: no information if '-' is the name of a file, not a
 standard descriptor

tee, rm, mv, mkfifo and sort's -o, -T and --random-source treat '-' as any
other file name but it was reported as standard input or output.
---
 .../InputOutputInfoGeneratorMkfifo.py                     | 1 +
 .../annotation_generators/InputOutputInfoGeneratorMv.py   | 1 +
 .../annotation_generators/InputOutputInfoGeneratorRm.py   | 1 +
 .../annotation_generators/InputOutputInfoGeneratorSort.py | 1 +
 .../annotation_generators/InputOutputInfoGeneratorTee.py  | 1 +
 .../InputOutputInfoGenerator_Interface.py                 | 8 ++++++++
 6 files changed, 13 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMkfifo.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMkfifo.py
index f09d83c..e5b2641 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMkfifo.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMkfifo.py
@@ -4,4 +4,5 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorMkfifo(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        self.check_dash_does_not_name_a_file()
         self.all_operands_are_other_outputs()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMv.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMv.py
index 85d72fa..447a1b6 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMv.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorMv.py
@@ -31,6 +31,7 @@ class InputOutputInfoGeneratorMv(InputOutputInfoGeneratorInterface):
     #   - do only check -t then
 
     def generate_info(self) -> None:
+        self.check_dash_does_not_name_a_file(list_options=["-t"])
         # -T shall treat destination as file, not directory, not considered currently
         # -t gives destination directory as an argument to option and determines how operands are interpreted
         list_options_t : List[FlagOption] = self.get_flag_option_list_filtered_with(["-t"])
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py
index 1dacfc9..faa43e1 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorRm.py
@@ -4,4 +4,5 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorRm(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        self.check_dash_does_not_name_a_file()
         self.all_operands_are_other_outputs()
\ No newline at end of file
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
index 7d860c5..60f26d3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
@@ -6,6 +6,7 @@ class InputOutputInfoGeneratorSort(InputOutputInfoGeneratorInterface):
     # Which ones do affect input/output?
 
     def generate_info(self) -> None:
+        self.check_dash_does_not_name_a_file(operands=False, list_options=["-o", "-T", "--random-source"])
         # self.set_multiple_inputs_possible()
         if not self.does_flag_option_list_contain_at_least_one_of(["-o"]):
             self.set_implicit_use_of_stdout()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py
index 68b7705..2a89612 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py
@@ -4,6 +4,7 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorTee(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        self.check_dash_does_not_name_a_file()
         self.set_implicit_use_of_stdin()
         # copies to both operands and stdout
         self.set_implicit_use_of_stdout()
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
index 45d9c3e..ce52bc4 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
@@ -51,6 +51,14 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
     def does_resemble_option(operand) -> bool:
         return str(operand.get_name()).startswith('-') and operand.get_name() != '-'
 
+    def check_dash_does_not_name_a_file(self, operands: bool = True, list_options: List[str] = []) -> None:
+        # these operands and arguments are always file names but '-' would be considered a standard descriptor
+        names = [option.get_arg() for option in self.get_flag_option_list_filtered_with(list_options)]
+        if operands:
+            names += [operand.get_name() for operand in self.cmd_inv.operand_list]
+        if '-' in names:
+            raise Exception("'-' is the name of a file here")
+
     def get_cmd_inv_with_io(self, cmd_inv: CommandInvocationInitial) -> CommandInvocationWithIO:
         return self.input_output_info.apply_input_output_info_to_command_invocation(cmd_inv)
 
-- 
2.43.0


From b13c3c5a4924c94733cdb6fc610a5f3d954a7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 27/27] fix: no information if an operand of awk is an
 assignment, not a file

---
 .../annotation_generators/InputOutputInfoGeneratorAwk.py   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index ed78676..59c2d5a 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -1,3 +1,5 @@
+import re
+
 from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface
 
 
@@ -7,6 +9,11 @@ class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
         if self.does_flag_option_list_contain_at_least_one_of(["-d", "-ofile", "-p"]):
             raise Exception("awk writes to further files with these flags so considered side-effectful")
 
+        # of all operands, the first one is the program unless it is given by an option
+        is_program_operand = not self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"])
+        if any(re.match(r"[A-Za-z_]\w*=", operand.get_name()) for operand in self.cmd_inv.operand_list[int(is_program_operand):]):
+            raise Exception("awk considers operands of the form var=value as assignments, not as files")
+
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-- 
2.43.0

