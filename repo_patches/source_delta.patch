From c529296d69b6d196fc76fea28691dbeb81e54aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 01/39] fix: inferring parallelizers must not modify the
 declared list

get_inferred_parallelizer_list appended to the declared list (while iterating it),
so every further call returned more round-robin parallelizers.
---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..31788f8 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,7 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        parallelizer_list = list(self.parallelizer_list)    # copy to keep the declared ones unchanged
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From be593c83499647530dd86a149fdca814e45a933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 02/39] fix: structural equality and representation for
 OptionWithIOVar

Without it, equal options compared unequal, so the Add transformer did not deduplicate
options and equal mappers/aggregators with options compared unequal.
---
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..b81791b 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,9 +1,9 @@
 from typing import Union
-from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType, BaseClassForBasicDatatypes
 
 IOVar = int
 
-class OptionWithIOVar:
+class OptionWithIOVar(BaseClassForBasicDatatypes):
 
     def __init__(self, name: str, option_arg: Union[IOVar, ArgStringType]) -> None:
         self.option_name : str = name
-- 
2.43.0


From 307119364cf36f17c409fbda796d1de5080e4ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 03/39] fix: visit option arguments which are I/O variables

Only OptionWithIO was visited but arguments which are variables are in OptionWithIOVar,
so e.g. the output of sort -o could not be substituted (assertion failure in get_mapper)
and the other output of mv -t was not reported.
---
 pash_annotations/datatypes/CommandInvocationWithIOVars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..da6fcb8 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, OptionWithIO) or isinstance(flagoption, OptionWithIOVar):
+                # the option is dropped as a whole if its argument is
+                for new_option_arg in function_to_apply(flagoption.option_arg):
+                    new_flag_option_list.append(type(flagoption)(flagoption.option_name, new_option_arg))
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
-- 
2.43.0


From 3863d995d3cf4a024116e11c1c97a94bccd4d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 04/39] fix: connect the aggregator's output if the original
 output is not stdout

For sort -o FILE, there is no implicit streaming output to be replaced, so the aggregator
did not use the given output at all but kept the original file in its access map.
---
 .../datatypes/parallelizability/AggregatorSpec.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..dd412ce 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -226,15 +226,17 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         elif self.kind == AggregatorKindEnum.CUSTOM_2_ARY:
             assert(len(inputs_from) == 2)
         aggregator_cmd_inv = deepcopy(original_cmd_invocation)
-        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(original_cmd_invocation.flag_option_list)
         # access map modifications
         # Hard-coded how to provide input and get output -> TODO: move to spec
         aggregator_cmd_inv.remove_streaming_inputs()
+        aggregator_cmd_inv.remove_streaming_outputs()   # also if given as option argument, e.g. sort -o
+        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(aggregator_cmd_inv.flag_option_list)
         aggregator_cmd_inv.operand_list = inputs_from
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
-- 
2.43.0


From f5b551256c0c8c259a0fcca035aa1f6135ecb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 05/39] fix: do not parallelize grep with context, -m or -z

As the comments say, -A, -B, -C and -m need context, but the fall-through offered
chunks and round robin with concatenation. With -z, lines do not end in newlines.
---
 .../ParallelizabilityInfoGeneratorGrep.py                    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..7b2bd4b 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -21,6 +21,7 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
     # for -m, we only do IF
+    # for -z, lines are separated by NUL so splitting at newlines is not possible
 
     def generate_info(self) -> None:
         if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
@@ -31,7 +32,7 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
             aggregator_spec = None
             add_info_from_splitter = None
             # CA to decide which mapper or aggregator, parallelizer added after CA
-            if not self.does_flag_option_list_contain_at_least_one_of(["-A", "-B", "-C", "-m"]):
+            if not self.does_flag_option_list_contain_at_least_one_of(["-A", "-B", "-C", "-m", "-z"]):
                 if self.does_flag_option_list_contain_at_least_one_of(["-L", "-l"]):
                     # the output for both options is either empty or the filename (same for both if so)
                     # for "-l": if there was a match in one part, the filename will propagate; if not, not
@@ -56,6 +57,8 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
                     add_info_from_splitter = AdditionalInfoSplitterToMapper.BYTE_OFFSET
                 else:   # none of the above affecting flags
                     pass    #just keep mapper and aggregator None and thus add RR_SEQ_CONC
+            else:
+                return  # no parallelization within file boundaries
             # we exploit that mapper_spec becomes seq and aggregator_spec becomes conc if given None
             # check can be removed once all are implemented! (exploits short-circuiting)
             # TODO: we should be able to remove the `is_implemented`-check as it is checked later
-- 
2.43.0


From c1115f7790d66987665923400884822e165889db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 06/39] fix: detect newlines in tr sets and squeezing across
 lines

contains_new_line missed a newline at the start of the set, literal newlines, octal
escapes, ranges and classes, and was fooled by an escaped backslash. Moreover, tr -s
with a newline that is translated or deleted by the first set squeezes repetitions
that span lines (tr -s '\n' ' '), so chunks cannot just be concatenated.
---
 .../ParallelizabilityInfoGeneratorTr.py       | 27 ++++++++++---------
 pash_annotations/datatypes/BasicDatatypes.py  | 19 ++++++++++---
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..42054cc 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -12,22 +12,23 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
     #    -> if '\n' is effectively included in SET1, then Mp[ADJ] and Ag[ADJ]
     # -s which squeezes repetitions of characters in last spec. set
     #    -> if '\n' is effectively included in SET1, then Mp[ADJ] and Ag[ADJ]
+    #       (also if it is translated or deleted before, as repetitions span lines then)
     # for both, if nothing is true, standard things work
 
     # tr only takes input from stdin so IF-splitter do not make a lot of sense since RR is superior anyway
 
     def generate_info(self) -> None:
-        # assumption that only one set is given with -d
         # tr does only take input from stdin, so we can always apply RR parallelizer (but Mp and Ag may change slightly)
         # check for deletion of newlines
         # print("before res: ")
         # res = self.does_last_set_effectively_contain_newline()
         # print("res: " + res)
         does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"]) and \
-                                     self.does_last_set_effectively_contain_newline()  # only allowed to have a single set
+                                     self.does_first_set_effectively_contain_newline()
         # check for squeezing newlines
         does_squeeze_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"]) and \
-                                      self.does_last_set_effectively_contain_newline()
+                                      (self.does_first_set_effectively_contain_newline() or
+                                       self.does_last_set_effectively_contain_newline())
         if does_delete_newlines:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
@@ -41,14 +42,16 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
-    def does_last_set_effectively_contain_newline(self) -> bool:
-        last_operand: Operand = self.cmd_inv.operand_list[-1]
+    def does_first_set_effectively_contain_newline(self) -> bool:
         # is contained if (a) no -c and in set, or (b) -c and not in set
-        last_operand_contains_newline: bool = last_operand.contains_new_line()
-        last_operand_contains_null_char: bool = last_operand.contains_null_char()
-        if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
-            return not (last_operand_contains_newline or last_operand_contains_null_char)
-        else:  # '-c' (if existent) does not refer to the given set
-            return (last_operand_contains_newline or last_operand_contains_null_char)
-
+        first_operand_contains_newline: bool = self.cmd_inv.operand_list[0].contains_new_line()
+        if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
+            return not first_operand_contains_newline
+        else:
+            return first_operand_contains_newline
 
+    def does_last_set_effectively_contain_newline(self) -> bool:
+        if len(self.cmd_inv.operand_list) == 1:
+            return self.does_first_set_effectively_contain_newline()
+        else:  # '-c' (if existent) does not refer to the given set
+            return self.cmd_inv.operand_list[-1].contains_new_line()
diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..364269b 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -4,6 +4,7 @@ from pash_annotations.util_standard import standard_eq, standard_repr
 
 from enum import Enum
 
+import re
 from abc import ABC, abstractmethod
 
 # note that we have individual classes since aliasing does not provide as much support
@@ -109,13 +110,25 @@ class Operand(BaseClassForBasicDatatypes):
     def get_name(self) -> str:
         return self.name
 
+    # interprets the operand as set of characters as, e.g., tr does
     def contains_new_line(self):
-        name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        if any(char_class in str(self.name) for char_class in ["[:space:]", "[:cntrl:]"]):
+            return True
+        codes = []  # of characters where None stands for the minus in a range
+        for escaped, char in re.findall(r"\\([0-3]?[0-7]{1,2}|.)|(.)", str(self.name), re.DOTALL):
+            if escaped.isdigit() and escaped not in "89":
+                codes.append(int(escaped, 8))
+            elif escaped != "":
+                codes.append(ord({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}.get(escaped, escaped)))
+            else:
+                codes.append(ord(char) if char != "-" else None)
+        is_in_range = any(minus is None and start is not None and end is not None and start <= ord("\n") <= end
+                          for start, minus, end in zip(codes, codes[1:], codes[2:]))
+        return ord("\n") in codes or is_in_range
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return name_as_string.find(r"\0") >= 0
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
-- 
2.43.0


From 6ff01c7931bcaec57942da00ca3687ea40121174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 07/39] fix: use the primary name also for flags given as
 cluster

tr -Cs, rm -Rf or grep -Ey kept the alias, which annotations do not know.
---
 pash_annotations/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..f495145 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -40,7 +40,7 @@ def parse(command) -> CommandInvocationInitial:
             i += 1  # since we consumed another term for the argument
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
+                flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
         else:
             break  # next one is Operand, and we keep these in separate list
-- 
2.43.0


From 5562e66d8df3b8d9944922c65eeed569eb76fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 08/39] fix: split long options at the equal sign

As documented in the README. Before, e.g. sort --key=2 file had the operands
--key=2 and file, i.e., the option was considered an input file.
---
 pash_annotations/parser/parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index f495145..96e0ff1 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -38,6 +38,10 @@ def parse(command) -> CommandInvocationInitial:
             option = Option(option_name_as_string, option_arg_as_string)
             flag_option_list.append(option)
             i += 1  # since we consumed another term for the argument
+        elif is_option_with_equal_sign(potential_flag_or_option, set_of_all_options):
+            option_name, option_arg_as_string = potential_flag_or_option.split('=', 1)
+            option = Option(dict_option_to_primary_repr.get(option_name, option_name), option_arg_as_string)
+            flag_option_list.append(option)
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
                 flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
@@ -115,6 +119,11 @@ def get_dict_option_to_primary_repr(json_data):
 #             dict_option_to_class_for_arg[option_name] = WhichClassForArg.ARGSTRING
 #     return dict_option_to_class_for_arg
 
+# only long options allow to separate the argument with an equal sign
+def is_option_with_equal_sign(potential_option, set_of_all_options):
+    option_name, equal_sign, _ = potential_option.partition('=')
+    return option_name.startswith('--') and equal_sign == '=' and option_name in set_of_all_options
+
 def are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
     if potential_flag_or_option[0] != '-' or potential_flag_or_option == '-':
         return False
-- 
2.43.0


From 97cf83da8deed9e7ae6c39cc8534023eaa66d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 09/39] fix: -c, -n and -s of tail take an argument

They were listed as flags so that the number (and all that follows) became an input file.
---
 .../command_flag_option_info/data/tail.json   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..3c443f2 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,17 +1,9 @@
 {
     "flag": [
-        [
-            "-c",
-            "--bytes"
-        ],
         [
             "-f",
             "--follow"
         ],
-        [
-            "-n",
-            "--lines"
-        ],
         [
             "-q",
             "--quiet",
@@ -20,9 +12,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -39,6 +28,16 @@
         ]
     ],
     "option": [
+        [
+            "-c",
+            "--bytes",
+            "NUM"
+        ],
+        [
+            "-n",
+            "--lines",
+            "NUM"
+        ],
         [
             "--max-unchanged-stats",
             "N"
@@ -48,6 +47,7 @@
             "PID"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
         ]
-- 
2.43.0


From 3239962f5d29d2482fba3b2cfd534642a89d5466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 10/39] fix: -f, -s and -w of uniq take an argument, --group
 and --all-repeated need not

The plain strings in the list of flags also made files called '-', 'f', 's' and 'w' flags.
---
 .../parser/command_flag_option_info/data/uniq.json   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..94128df 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -11,12 +11,16 @@
         [
             "-D"
         ],
-        "-f",
+        [
+            "--all-repeated"
+        ],
+        [
+            "--group"
+        ],
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
         [
             "-u",
             "--unique"
@@ -25,7 +29,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -39,6 +42,7 @@
             "METHOD"
         ],
         [
+            "-f",
             "--skip-fields",
             "N"
         ],
@@ -47,10 +51,12 @@
             "METHOD"
         ],
         [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
-- 
2.43.0


From 0f85a5348e68692bf96d1120f8606ac153ac060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 11/39] fix: -m of mkfifo takes an argument, --context need not

---
 .../parser/command_flag_option_info/data/mkfifo.json       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..e106098 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,10 +1,8 @@
 {
     "flag": [
         [
-            "-m"
-        ],
-        [
-            "-Z"
+            "-Z",
+            "--context"
         ],
         [
             "--help"
@@ -15,6 +13,7 @@
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
         ],
-- 
2.43.0


From 3892a4d77486b434e1db9101e20a4e26fe0ca8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 12/39] fix: which arguments of xargs take an argument

-s and --process-slot-var do, -e, -i and -l do not (only without a space). Add -0.
---
 .../command_flag_option_info/data/xargs.json  | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..c782b23 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -1,8 +1,21 @@
 {
     "flag": [
         [
+            "-0",
             "--null"
         ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
+        ],
         [
             "-o",
             "--open-tty"
@@ -11,17 +24,10 @@
             "-p",
             "--interactive"
         ],
-        [
-            "--process-slot-var"
-        ],
         [
             "-r",
             "--no-run-if-empty"
         ],
-        [
-            "-s",
-            "--max-chars"
-        ],
         [
             "--show-limits"
         ],
@@ -53,19 +59,16 @@
         ],
         [
             "-E",
-            "-e",
             "--eof",
             "EOF_STR"
         ],
         [
             "-I",
-            "-i",
             "--replace",
             "REPLACE-STR"
         ],
         [
             "-L",
-            "-l",
             "--max-lines",
             "max-lines"
         ],
@@ -78,6 +81,15 @@
             "-P",
             "--max-procs",
             "max-procs"
+        ],
+        [
+            "-s",
+            "--max-chars",
+            "max-chars"
+        ],
+        [
+            "--process-slot-var",
+            "name"
         ]
     ]
 }
-- 
2.43.0


From fc394b2480ae82f63a36c236bf574ed357653b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 13/39] fix: -c, -u and --color of diff do not consume the
 following word

---
 .../parser/command_flag_option_info/data/diff.json  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..fa0ec23 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -7,6 +7,17 @@
             "-q",
             "--brief"
         ],
+        [
+            "-c",
+            "--context"
+        ],
+        [
+            "-u",
+            "--unified"
+        ],
+        [
+            "--color"
+        ],
         [
             "-s",
             "--report-identical-files"
@@ -116,13 +127,11 @@
     ],
     "option": [
         [
-            "-c",
             "-C",
             "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
             "--unified",
             "NUM"
-- 
2.43.0


From 4b3ce9f73758955cdfb7c8500c88df29a022a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 14/39] fix: long options of grep are aliases of the short ones

E.g., --regexp was not recognised as -e so that the first file was considered the pattern,
and grep --context was parallelized. Moreover, --color does not consume the following word.
---
 .../command_flag_option_info/data/grep.json   | 28 +++----------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..83fe41f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -68,6 +68,10 @@
             "-s",
             "--no-messages"
         ],
+        [
+            "--color",
+            "--colour"
+        ],
         [
             "-b",
             "--byte-offset"
@@ -129,9 +133,6 @@
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -142,17 +143,11 @@
         ],
         [
             "--color",
-            "WHEN"
-        ],
-        [
             "--colour",
             "WHEN"
         ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -162,25 +157,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -194,17 +180,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From 628c33af0fc85add573f48a421d57bc3e479c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 15/39] fix: optional arguments do not consume the following
 word (rm, tee)

---
 .../parser/command_flag_option_info/data/rm.json            | 6 ++++++
 .../parser/command_flag_option_info/data/tee.json           | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..df0e8a3 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -7,6 +7,9 @@
         [
             "-i"
         ],
+        [
+            "--interactive"
+        ],
         [
             "-I"
         ],
@@ -16,6 +19,9 @@
         [
             "--no-preserve-root"
         ],
+        [
+            "--preserve-root"
+        ],
         [
             "-r",
             "-R",
diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..f4d3325 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -11,6 +11,9 @@
         [
             "-p"
         ],
+        [
+            "--output-error"
+        ],
         [
             "--help"
         ],
-- 
2.43.0


From c69165c43de20d83e6aadd77b7191ca18214886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 16/39] fix: cut has no flag -M

---
 pash_annotations/parser/command_flag_option_info/data/cut.json | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/cut.json b/pash_annotations/parser/command_flag_option_info/data/cut.json
index 51bbc37..690758e 100644
--- a/pash_annotations/parser/command_flag_option_info/data/cut.json
+++ b/pash_annotations/parser/command_flag_option_info/data/cut.json
@@ -19,9 +19,6 @@
         ],
         [
             "--version"
-        ],
-        [
-            "-M"
         ]
     ],
     "option": [
-- 
2.43.0


From 7b60f8850c8ad450ec2b2e3cb6d0eeccf336c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 17/39] fix: -e and -f of sed take an argument

They were listed as flags so that the script was considered the first file. As an option
argument, the script (and not the first file) decides about parallelization, and with -f,
it is not known.
---
 .../ParallelizabilityInfoGeneratorSed.py      | 14 +++++++++----
 .../command_flag_option_info/data/sed.json    | 21 +++++++++----------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..cc3b3d3 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -1,3 +1,5 @@
+from typing import List
+
 from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface
 from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import \
     make_parallelizer_round_robin
@@ -8,10 +10,14 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        # TODO: Logic copied from PaSh, but does this not depend how the script is given?
-        if  self.does_first_operand_start_with("-") \
-            or self.does_first_operand_start_with("s") \
-            or not (self.does_first_operand_contain("d") or self.does_first_operand_contain("q")):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+            return  # script is not known
+        list_scripts: List[str] = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-e"])]
+        if len(list_scripts) == 0:
+            list_scripts = [self.get_first_operand_name_as_string()]
+        # TODO: Logic copied from PaSh
+        if all(script.startswith("-") or script.startswith("s") or not ("d" in script or "q" in script)
+               for script in list_scripts):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..77e0c25 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -8,14 +8,6 @@
         [
             "--debug"
         ],
-        [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
-        ],
         [
             "--follow-symlinks"
         ],
@@ -50,15 +42,22 @@
         ]
     ],
     "option": [
+        [
+            "-e",
+            "--expression",
+            "SCRIPT"
+        ],
+        [
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
+        ],
         [
             "--in-place",
             "SUFFIX"
         ],
         [
             "-l",
-            "N"
-        ],
-        [
             "--line-length",
             "N"
         ]
-- 
2.43.0


From 1ea2ff76eceeef6b29a3a13ca5911666a4240756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 18/39] fix: sed only reads stdin without files, and changes
 its files with --in-place

---
 .../annotation_generators/InputOutputInfoGeneratorSed.py    | 6 +++++-
 .../parser/command_flag_option_info/data/sed.json           | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..aa588db 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,11 +4,15 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.set_implicit_use_of_stdin()
+        if self.does_flag_option_list_contain_at_least_one_of(["-i", "--in-place"]):
+            raise Exception('sed with --in-place changes its input files so is considered side-effectful')
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             self.set_first_operand_as_config_arg_type_string()
+            if self.get_operand_list_length() == 1:
+                self.set_implicit_use_of_stdin()
             self.all_but_first_operand_is_streaming_input()
         else:
+            self.if_no_operands_given_stdin_implicitly_used()
             self.all_operands_are_streaming_inputs()
 
diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 77e0c25..8a51667 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -11,6 +11,10 @@
         [
             "--follow-symlinks"
         ],
+        [
+            "-i",
+            "--in-place"
+        ],
         [
             "--posix"
         ],
-- 
2.43.0


From 8b3a8514ca84163defdc1d4ab025f8393cb603fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 19/39] fix: do not parallelize sed with -z or --debug

---
 .../ParallelizabilityInfoGeneratorSed.py                      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index cc3b3d3..1d8e684 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -10,8 +10,8 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
-            return  # script is not known
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-z", "--debug"]):
+            return  # script is not known, lines are not separated by newlines or the script is printed as well
         list_scripts: List[str] = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-e"])]
         if len(list_scripts) == 0:
             list_scripts = [self.get_first_operand_name_as_string()]
-- 
2.43.0


From efe39e6e63ec60947df7ab47decb2ffa6b6baecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 20/39] fix: do not parallelize cut with newline as delimiter

The old annotations (old_annotations/cut.json) contain this case but it got lost.
---
 .../ParallelizabilityInfoGeneratorCut.py                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
index 0290e7f..52c67b5 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
@@ -8,5 +8,8 @@ class ParallelizabilityInfoGeneratorCut(ParallelizabilityInfoGeneratorInterface)
     # list_of_all_options = ["-b", "-c", "-d", "-f", "--output-delimiter", ]
 
     def generate_info(self) -> None:
-        self.append_to_parallelizer_list_cc_seq_conc()
-        self.append_to_parallelizer_list_rr_seq_conc()
+        # with newline as delimiter, the lines are the fields of the whole input
+        list_delimiters = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-d"])]
+        if not ("\n" in list_delimiters or r"\n" in list_delimiters):
+            self.append_to_parallelizer_list_cc_seq_conc()
+            self.append_to_parallelizer_list_rr_seq_conc()
-- 
2.43.0


From 5466648ada66a80064d4b4dce1a280583f9f9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 21/39] fix: do not parallelize sort with --sort random, -k NR
 or --debug

These were only considered when given as -R, and --debug annotates every line and key.
---
 .../ParallelizabilityInfoGeneratorSort.py                | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..68b4d4d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -14,7 +14,9 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
 
     def generate_info(self) -> None:
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]) \
+                or self.does_flag_option_list_contain_at_least_one_of(["--debug"]) \
+                or self.is_sorted_randomly():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -27,3 +29,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    def is_sorted_randomly(self) -> bool:
+        # same as -R, but for the argument of --sort (may be abbreviated) or as ordering option of a key
+        return any("random".startswith(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["--sort"])) or \
+               any("R" in option.get_arg() for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From 88a2f369b5b7d949e9e3fe8904b26ff5310bfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 22/39] fix: recursive grep without files does not read stdin

It searches the working directory, so its input is not known.
---
 .../annotation_generators/InputOutputInfoGeneratorGrep.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index b3640b7..5437b61 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -23,12 +23,14 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
+                self.check_that_not_recursive()
                 self.set_implicit_use_of_stdin()
             else:
                 self.all_operands_are_streaming_inputs() # this is true also if empty
         else:
             self.set_first_operand_as_config_arg_type_string()
             if self.get_operand_list_length() == 1:
+                self.check_that_not_recursive()
                 self.set_implicit_use_of_stdin()
             else:
                 self.all_but_first_operand_is_streaming_input()
@@ -40,3 +42,8 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         #         # self.set_ioinfo_positional_input_list([Operand("$PWD")]) # TODO: this is not exactly equivalent due to path and type wrong
         #     else:
         #         self.set_implicit_use_of_stdin()
+
+    def check_that_not_recursive(self) -> None:
+        # searches the working directory instead of stdin then
+        if self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]):
+            raise Exception("-r option without dir name not handled")
-- 
2.43.0


From e1b30b567a9a4628a77664285cedd012af6b3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 23/39] fix: -F, -v, -e, -E, -i and -l of awk take an argument

E.g., for awk -F : '{print $1}' file, the separator was considered the program and
the program an input file. With -e and -E, there is no program as operand.
---
 .../InputOutputInfoGeneratorAwk.py            |  3 +-
 .../command_flag_option_info/data/awk.json    | 52 +++++++++++--------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..fa60131 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -7,7 +7,8 @@ class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        # the program is not given as first operand then
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-e", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..20529ca 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -24,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -40,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -65,7 +45,7 @@
             "--use-lc-numeric"
         ],
         [
-            "-ofile",
+            "-o",
             "--pretty-print"
         ],
         [
@@ -98,10 +78,40 @@
         ]
     ],
     "option": [
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "VAR=VAL"
+        ],
         [
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-l",
+            "--load",
+            "LIB"
         ]
     ]
 }
-- 
2.43.0


From 3d908bc0eab8fe46ddcb053e729e3896a70c765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 24/39] fix: comparing a splitter with something else must not
 raise

---
 .../datatypes/parallelizability/Splitter.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
index 6d5930d..5bdad01 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
@@ -1,5 +1,7 @@
 from enum import Enum
 
+from pash_annotations.util_standard import standard_eq
+
 
 class SplitterKindEnum(Enum):
     INDIV_FILES = 1
@@ -14,7 +16,7 @@ class Splitter:
         self.kind = kind
 
     def __eq__(self, other) -> bool:
-        return self.kind == other.kind
+        return standard_eq(self, other)
 
     def __repr__(self) -> str:
         return f'{self.kind}'
-- 
2.43.0


From 8b5e27dd79989ec81f8d48dba151f327b7c1ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 25/39] fix: list flags which share a line with an option as
 list

The parser expects lists and considers each character of a plain string a flag,
cf. the plain strings for -f, -s and -w in the table for uniq.
---
 .../parser/command_flag_option_info/args-to-json.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 222f7ed..5f5fbd4 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -57,7 +57,7 @@ def parse_args(args):
         else:
             for arg in line_args:
                 if type(arg)==str:
-                    args_dict["flag"].append(arg)
+                    args_dict["flag"].append([arg])
                 else:
                     args_dict["option"].append(list(arg))
     return args_dict
-- 
2.43.0


From 65db2c520738a2c4beb13d5c363e04c3fb76230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 26/39] fix: the command line tool runs from anywhere, saves
 relative to its caller and never overwrites

---
 pash_annotations/annotation_cli.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..2f0b834 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -1,14 +1,15 @@
 import argparse
+import os
 from typing import Optional
 
 # create parser
-from annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
+from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
     get_parallelizability_info_from_cmd_invocation
 
-from annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
-from annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
-from datatypes.CommandInvocationInitial import CommandInvocationInitial
-from parser.parser import parse
+from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
+from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
+from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
+from pash_annotations.parser.parser import parse
 
 parser = argparse.ArgumentParser()
 
@@ -22,21 +23,12 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
 shall_we_write_to_file = False
 if where_to_save is not None:
-    shall_we_write_to_file = True
-    try:
-        text_file = open(script_prefix + where_to_save)
-        text_file.close()
-    except IOError:
-        shall_we_write_to_file = False
+    shall_we_write_to_file = not os.path.lexists(where_to_save)
     if not shall_we_write_to_file:
         print("There exists a file on the provided path so the result will be output (only). ")
 
@@ -66,7 +58,7 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
+    text_file = open(where_to_save, "x")  # never overwrites a file
     text_file.write(result)
     text_file.close()
 else:
-- 
2.43.0


From 182c914ab7b164fd5cbb631d3da77c6bb24eedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 27/39] fix: mapper with auxiliary outputs keeps no access of
 the streams it replaces

---
 .../datatypes/parallelizability/MapperSpec.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index eab2f9d..a97287b 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -84,6 +84,8 @@ class MapperSpec:
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
                 mapper.access_map.pop(operand)
+            for implicit_stream in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
+                mapper.access_map.pop(implicit_stream, None)
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
-- 
2.43.0


From 90f3af6f815d316b451527c32ee89a358f49e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 28/39] fix: do not parallelize xargs with -a, -0, -d or -E

---
 .../ParallelizabilityInfoGeneratorXargs.py                   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
index 0d459ab..70c1f69 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
@@ -3,6 +3,11 @@ from pash_annotations.annotation_generation.annotation_generators.Parallelizabil
 class ParallelizabilityInfoGeneratorXargs(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        # with -a, the items are not read from stdin; with -0 and -d, they need not be separated by newlines;
+        # with -E, the ones after some item are ignored
+        if self.does_flag_option_list_contain_at_least_one_of(["-a", "-0", "-E"]) or \
+                any(option.get_arg() not in ["\n", r"\n"] for option in self.get_flag_option_list_filtered_with(["--delimiter"])):
+            return
         # in original, there is a case distinction but same info
         self.append_to_parallelizer_list_cc_seq_conc()
         self.append_to_parallelizer_list_rr_seq_conc()
-- 
2.43.0


From ff3f183dbce0e865f679a00f6e4dff7b10835fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 29/39] fix: arguments of long options followed by a
 description (args-to-json)

---
 .../parser/command_flag_option_info/args-to-json.py         | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 5f5fbd4..6d6c50f 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -27,10 +27,8 @@ def find_matches(line, past_flags):
         phrases[i] = phrases[i].strip()
 
         # option flag and argument separated by space or equal sign
-        if "=" in phrases[i]:
-            phrase_parts = re.split(r"=", phrases[i])
-        else:
-            phrase_parts = re.split(r"\s+", phrases[i])
+        # (the first one of them as a description might follow)
+        phrase_parts = re.split(r"=|\s+", phrases[i])
 
         if len(phrase_parts) >= 1 and (re.match(r"^-[-]*[a-z][a-z-]*$", phrase_parts[0]) or re.match(r"^-[-]*[A-Z]$", phrase_parts[0])):
             flag = re.sub("-", '', phrase_parts[0])
-- 
2.43.0


From 74da05d783bb805fd1da798af36c4cafcd79355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 30/39] fix: do not parallelize grep -H

---
 .../ParallelizabilityInfoGeneratorGrep.py                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index 7b2bd4b..30863f0 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -21,6 +21,7 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # and -A, -B, and -C but we do not parallelize within file boundaries since they require context
     # for -q, the input is not read further after some condition is met, so we do not parallelize at all
     # for -m, we only do IF
+    # for -H, the output contains the name of the input which is different for the mappers
     # for -z, lines are separated by NUL so splitting at newlines is not possible
 
     def generate_info(self) -> None:
@@ -32,7 +33,7 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
             aggregator_spec = None
             add_info_from_splitter = None
             # CA to decide which mapper or aggregator, parallelizer added after CA
-            if not self.does_flag_option_list_contain_at_least_one_of(["-A", "-B", "-C", "-m", "-z"]):
+            if not self.does_flag_option_list_contain_at_least_one_of(["-A", "-B", "-C", "-H", "-m", "-z"]):
                 if self.does_flag_option_list_contain_at_least_one_of(["-L", "-l"]):
                     # the output for both options is either empty or the filename (same for both if so)
                     # for "-l": if there was a match in one part, the filename will propagate; if not, not
-- 
2.43.0


From 48a3e5d85800975d15025b769a66f0b8154c42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 31/39] fix: --check of sort, --follow of tail and --update of
 mv may take an argument

---
 .../ParallelizabilityInfoGeneratorSort.py                     | 2 +-
 pash_annotations/parser/command_flag_option_info/data/mv.json | 4 ++++
 .../parser/command_flag_option_info/data/sort.json            | 4 ++++
 .../parser/command_flag_option_info/data/tail.json            | 4 ++++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index 68b4d4d..2a31ae9 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -15,7 +15,7 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
     def generate_info(self) -> None:
         self.set_commutative()
         if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]) \
-                or self.does_flag_option_list_contain_at_least_one_of(["--debug"]) \
+                or self.does_flag_option_list_contain_at_least_one_of(["--check", "--debug"]) \
                 or self.is_sorted_randomly():
             pass    # no parallelization
         else:
diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b53afa..a245376 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -56,6 +56,10 @@
             "-t",
             "--target-directory",
             ["DIRECTORY", "OTHER_OUTPUT"]
+        ],
+        [
+            "--update",
+            "UPDATE"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/sort.json b/pash_annotations/parser/command_flag_option_info/data/sort.json
index fb61e4c..e5e71f0 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sort.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sort.json
@@ -126,6 +126,10 @@
         [
             "--parallel",
             "N"
+        ],
+        [
+            "--check",
+            "WHEN"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 3c443f2..b03e680 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -50,6 +50,10 @@
             "-s",
             "--sleep-interval",
             "N"
+        ],
+        [
+            "--follow",
+            "HOW"
         ]
     ]
 }
-- 
2.43.0


From 48a749b9533fc568c119db549a87840463f36c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:52 +0000
Subject: [PATCH 32/39] fix: grep -d recurse without files does not read stdin

---
 .../annotation_generators/InputOutputInfoGeneratorGrep.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index 5437b61..6cfc749 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -45,5 +45,7 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
 
     def check_that_not_recursive(self) -> None:
         # searches the working directory instead of stdin then
-        if self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]):
+        # -d takes the action which may be abbreviated
+        if self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]) or \
+                any("recurse".startswith(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-d"])):
             raise Exception("-r option without dir name not handled")
-- 
2.43.0


From c134542cd11d61aa2cca8d19bf157e2f264bee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 33/39] fix: a path is no command with data, nor is a name too
 long for a file

---
 pash_annotations/parser/util_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 4cfd818..83af5be 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -1,3 +1,4 @@
+import errno
 import json
 import os
 import pkgutil
@@ -6,8 +7,12 @@ def get_json_data(cmd_name):
     command_json_fn = f'{cmd_name}.json'
     # get man page data for command as dict
     try:
+        if '/' in cmd_name: # path of some executable, must not be resolved to the data of another command
+            raise FileNotFoundError
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except FileNotFoundError:
+    except OSError as error:
+        if not isinstance(error, FileNotFoundError) and error.errno != errno.ENAMETOOLONG:
+            raise
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
         except FileNotFoundError:
-- 
2.43.0


From 337247da863e2c9148c0b209b5cce7bf19be1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 34/39] fix: access queries of invocations with I/O variables
 see the variables

---
 .../datatypes/CommandInvocationWithIOVars.py  | 43 ++++++++-----------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index da6fcb8..97e7174 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -194,30 +194,23 @@ class CommandInvocationWithIOVars:
 
 
     # for test cases:
-    def get_operands_with_config_input(self) -> List[Union[ArgStringType, FileNameOrStdDescriptorWithIOInfo]]:
+    def get_operands_with_config_input(self) -> List[Union[ArgStringType, IOVar]]:
         return [x for x in self.operand_list if
                 isinstance(x, ArgStringType) or
-                ((isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_config_input())]
-
-    def get_operands_with_stream_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_input()]
-
-    def get_operands_with_other_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_input()]
-
-    def get_operands_with_stream_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_output()]
-
-    def get_operands_with_other_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_output()]
-
-    def get_options_with_other_output(self) -> List[OptionWithIO]:
-        only_options: List[OptionWithIO] = [x for x in self.flag_option_list if isinstance(x, OptionWithIO)]
-        return [x for x in only_options if
-                ((isinstance(x.option_arg, FileNameWithIOInfo) or isinstance(x.option_arg, StdDescriptorWithIOInfo)))
-                and x.option_arg.access.is_other_output()]
+                (isinstance(x, int) and self.access_map[x].is_config_input())]
+
+    def get_operands_with_stream_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_stream_input()]
+
+    def get_operands_with_other_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_other_input()]
+
+    def get_operands_with_stream_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_stream_output()]
+
+    def get_operands_with_other_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, int) and self.access_map[x].is_other_output()]
+
+    def get_options_with_other_output(self) -> List[OptionWithIOVar]:
+        only_options: List[OptionWithIOVar] = [x for x in self.flag_option_list if isinstance(x, OptionWithIOVar)]
+        return [x for x in only_options if isinstance(x.option_arg, int) and self.access_map[x.option_arg].is_other_output()]
-- 
2.43.0


From ca41d4b71d6f1d4f5e8aca35479654e655554303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 35/39] fix: documented file name of parallelizability
 generators

---
 docs/adding-annotations.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/adding-annotations.md b/docs/adding-annotations.md
index 4944a22..988cab9 100644
--- a/docs/adding-annotations.md
+++ b/docs/adding-annotations.md
@@ -30,14 +30,14 @@ Create a two files named:
 
  ```sh
 InputOutputInfoGenerator<ClassRepresentation>.py
-ParallelizabilityInfo<ClassRepresentation>.py
+ParallelizabilityInfoGenerator<ClassRepresentation>.py
 ```
 
 If your command is "cat-wrapper", the file should be:
 
 ```sh
 InputOutputInfoGeneratorCatWrapper.py
-ParallelizabilityInfoCatWrapper.py
+ParallelizabilityInfoGeneratorCatWrapper.py
 ```
 
 
-- 
2.43.0


From 4495ca45d234961f2174173a3cf6ba896787a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 36/39] fix: newline in tr sets with escaped brackets and with
 ranges up to a minus or after a class

---
 pash_annotations/datatypes/BasicDatatypes.py | 31 ++++++++++++--------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index 364269b..32da07e 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -112,19 +112,26 @@ class Operand(BaseClassForBasicDatatypes):
 
     # interprets the operand as set of characters as, e.g., tr does
     def contains_new_line(self):
-        if any(char_class in str(self.name) for char_class in ["[:space:]", "[:cntrl:]"]):
-            return True
-        codes = []  # of characters where None stands for the minus in a range
-        for escaped, char in re.findall(r"\\([0-3]?[0-7]{1,2}|.)|(.)", str(self.name), re.DOTALL):
-            if escaped.isdigit() and escaped not in "89":
-                codes.append(int(escaped, 8))
-            elif escaped != "":
-                codes.append(ord({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}.get(escaped, escaped)))
+        char = r"(\\[0-3]?[0-7]{1,2}|\\.|[^\\])"
+        # at each position: a character class, an equivalence class, a repetition, a range, or a single character
+        parts = re.findall(rf"\[:(\w+):\]|\[={char}=\]|\[{char}\*\d*\]|{char}-{char}|{char}", str(self.name), re.DOTALL)
+        for char_class, equivalent, repeated, start, end, single in parts:
+            if char_class != "":
+                if char_class in ["space", "cntrl"]:
+                    return True
             else:
-                codes.append(ord(char) if char != "-" else None)
-        is_in_range = any(minus is None and start is not None and end is not None and start <= ord("\n") <= end
-                          for start, minus, end in zip(codes, codes[1:], codes[2:]))
-        return ord("\n") in codes or is_in_range
+                first = start or equivalent or repeated or single
+                if self.get_char_code(first) <= ord("\n") <= self.get_char_code(end or first):
+                    return True
+        return False
+
+    @staticmethod
+    def get_char_code(char):
+        if not char.startswith("\\"):
+            return ord(char)
+        elif char[1] in "01234567":
+            return int(char[1:], 8)
+        return ord({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}.get(char[1], char[1]))
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-- 
2.43.0


From 5b801587ca5703c6a09dc2b2f3df02afe44645b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 37/39] fix: the module datatypes.Operand could not be imported

---
 pash_annotations/datatypes/Operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/datatypes/Operand.py b/pash_annotations/datatypes/Operand.py
index 303cd3d..1adc1b2 100644
--- a/pash_annotations/datatypes/Operand.py
+++ b/pash_annotations/datatypes/Operand.py
@@ -1 +1 @@
-from datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType
-- 
2.43.0


From 283307837deac28a1000ea162546441f5e890552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 38/39] fix: a backslash at the end of a tr set stands for
 itself, also as end of a range

---
 pash_annotations/datatypes/BasicDatatypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index 32da07e..95ae4be 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -112,7 +112,8 @@ class Operand(BaseClassForBasicDatatypes):
 
     # interprets the operand as set of characters as, e.g., tr does
     def contains_new_line(self):
-        char = r"(\\[0-3]?[0-7]{1,2}|\\.|[^\\])"
+        # (a backslash at the end stands for itself)
+        char = r"(\\[0-3]?[0-7]{1,2}|\\.|[^\\]|\\\Z)"
         # at each position: a character class, an equivalence class, a repetition, a range, or a single character
         parts = re.findall(rf"\[:(\w+):\]|\[={char}=\]|\[{char}\*\d*\]|{char}-{char}|{char}", str(self.name), re.DOTALL)
         for char_class, equivalent, repeated, start, end, single in parts:
@@ -127,7 +128,7 @@ class Operand(BaseClassForBasicDatatypes):
 
     @staticmethod
     def get_char_code(char):
-        if not char.startswith("\\"):
+        if not char.startswith("\\") or char == "\\":
             return ord(char)
         elif char[1] in "01234567":
             return int(char[1:], 8)
-- 
2.43.0


From 95df346fa484dcf20b592e996037052e6d8a4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 39/39] fix: a command name the locale cannot express has no
 interface description

---
 pash_annotations/parser/util_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 83af5be..70669b3 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -10,8 +10,8 @@ def get_json_data(cmd_name):
         if '/' in cmd_name: # path of some executable, must not be resolved to the data of another command
             raise FileNotFoundError
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except OSError as error:
-        if not isinstance(error, FileNotFoundError) and error.errno != errno.ENAMETOOLONG:
+    except (OSError, ValueError) as error: # ValueError: not the name of any file, e.g. no characters of the locale
+        if isinstance(error, OSError) and not isinstance(error, FileNotFoundError) and error.errno != errno.ENAMETOOLONG:
             raise
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
-- 
2.43.0

