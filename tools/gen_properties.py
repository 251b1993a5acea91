#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
AG = 'pash_annotations/annotation_generation/'
GEN = AG + 'annotation_generators/'
DT = 'pash_annotations/datatypes/'
PZ = AG + 'datatypes/parallelizability/'

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

PARSER = ['pash_annotations/parser/parser.py', 'pash_annotations/parser/util_parser.py',
          'pash_annotations/parser/command_flag_option_info/data/*.json']
IOFILES = [GEN + 'InputOutputInfoGenerator*.py', AG + 'datatypes/InputOutputInfo.py', AG + 'AnnotationGeneration.py']
PIFILES = [GEN + 'ParallelizabilityInfoGenerator*.py', AG + 'datatypes/ParallelizabilityInfo.py', AG + 'AnnotationGeneration.py']

prop('C01', 'Parsing gives every word of a command line exactly one, correct role',
 "For every command line, splitting it by shell quoting rules and parsing it yields the command name, then - in order and under its primary name - each word that the command's interface knows as a flag, as a cluster of single-letter flags, or as an option together with the argument it consumes. The first word that is none of these (an empty word, '-', '--' and unknown dash words included) and every word after it become operands, verbatim and in order; no word is lost, duplicated, reordered or altered. A command without an interface description has only operands.",
 ['inputs'], 'every command with an interface table plus unknown commands; every word sequence up to the depth bound over all spellings of all flags and options, clusters, operands, empty and dash words and quoting forms',
 'The parser tests parse nine command lines of three commands; the 24 tables, the precedence between flag/option/cluster/operand and the order of long sequences are otherwise unexercised.',
 PARSER + [DT + 'CommandInvocationInitial.py'],
 [('word classification loop', 'parser/parser.py: parse'), ('alias to primary name maps', 'parser/parser.py: get_dict_*_to_primary_repr'), ('interface tables', 'parser/command_flag_option_info/data')],
 ['parse(command)'])

prop('C02', 'Equivalent spellings of an invocation are treated identically',
 "Two command lines that differ only in the spelling of their flags and options - short versus long alias, a cluster (unless listed as a spelling of its own) versus separate single-letter flags, '--name=value' versus '--name value', or a different shell quoting of the same words - parse to equal invocations. They therefore receive the same input/output information and the same parallelizability information.",
 ['inputs'], 'every alias pair of every flag and option of every command table, every two- and three-letter cluster of short flags, every long option in both value forms, in several surrounding contexts, and every quoting style of each word',
 'Each test fixes one spelling; no test compares two spellings of one invocation, so an alias a generator does not recognise silently gets a wrong annotation.',
 PARSER + IOFILES + PIFILES,
 [('alias maps and clusters', 'parser/parser.py'), ('generators match primary names only', GEN)],
 ['parse(command)', 'get_input_output_info_from_cmd_invocation', 'get_parallelizability_info_from_cmd_invocation'])

prop('C03', 'Operand, stdin and stdout roles match what the command accesses',
 "For every invocation of an annotated command the input/output information labels each operand - plain string, configuration file, streaming input, other input, streaming output or other output - and the implicit use of stdin and stdout exactly as that command with those flags and that number of operands really accesses them when it does its work (--help and --version aside). An operand '-' in an input role means standard input and in an output role standard output.",
 ['inputs'], 'every annotated command; every selection of up to two (thorough: three) of its flags/options; 0 to 4 operands including dashes; the expected roles are a reference model that is itself validated by running the installed commands and observing which files and streams they touch',
 'Tests fix a few operand counts for ten of the thirty commands; sed, awk, wc, tee, rm, diff, seq, xargs, set_diff, col and the aux commands have no role test at all.',
 IOFILES, [('per-command role assignment', GEN + 'InputOutputInfoGenerator*.py'), ('role setters', AG + 'datatypes/InputOutputInfo.py')],
 ['get_input_output_info_from_cmd_invocation(inv).apply_input_output_info_to_command_invocation(inv)'])

prop('C04', 'File arguments of options carry the right access kind; other arguments stay text',
 "Every option argument that names a file or directory is reported as a file with the access the command makes to it (configuration input, streaming input, other input, excluded input, container of inputs, streaming output or other output), wherever the option stands and however often it occurs. Every other option argument is reported as plain text, unchanged.",
 ['inputs'], 'every option of every command table, each spelling, several argument values (name, path, number, dash), one to three options in every order, with and without flags and operands around them',
 'Only sort -k/-o, grep -e/-f and mv -t appear in tests, one option at a time.',
 IOFILES + PARSER, [('argument typing from tables', GEN + 'InputOutputInfoGenerator_Interface.py'), ('access names', DT + 'AccessKind.py')],
 ['apply_input_output_info_to_command_invocation'])

prop('C05', 'Non-streaming outputs are never hidden',
 "Whenever an invocation of an annotated command writes to anything other than streaming outputs (creates, removes or moves files, or uses a temporary or target directory) through a file operand or a file argument of an option, asking whether it has other outputs answers yes; otherwise it answers no. The same holds for an annotated invocation expressed with I/O variables, whatever position holds the output and whatever else surrounds it.",
 ['inputs', 'configurations'], 'every option of every command combined with flags and operands; and every assignment of the seven access kinds to up to two option arguments, three operands and the implicit streams of an invocation with I/O variables',
 'No test asks this question; a wrong answer makes the caller parallelize or reorder a command that has side effects.',
 [AG + 'datatypes/InputOutputInfo.py', DT + 'CommandInvocationWithIOVars.py'],
 [('typer scan', AG + 'datatypes/InputOutputInfo.py: has_other_outputs'), ('variable scan', DT + 'CommandInvocationWithIOVars.py: has_other_outputs')],
 ['InputOutputInfo.has_other_outputs', 'CommandInvocationWithIOVars.has_other_outputs'])

prop('C06', 'Unsupported or malformed invocations are refused, and nothing raises',
 "Asking for input/output or parallelizability information about any parsed invocation returns an answer or nothing, and never raises. It returns nothing for commands without an annotation and for invocations an annotation rules out: comm without exactly two operands, set_diff without exactly one, uniq with more than two, mv with two target directories or no operands, grep/awk/sed without a pattern or program, recursive grep (-r, -R, -d recurse) without file operands, sed editing files in place, wc reading its file list from a file.",
 ['inputs'], 'every command table and unknown commands; all word sequences up to the depth bound including empty words and missing arguments; all operand counts 0 to 5 for the rules listed',
 'Tests check a single refusal (mv with two targets); totality over all invocations cannot be sampled.',
 IOFILES + PIFILES, [('lookup and catch-all', AG + 'AnnotationGeneration.py'), ('explicit rejections', GEN)],
 ['get_input_output_info_from_cmd_invocation', 'get_parallelizability_info_from_cmd_invocation'])

prop('C07', 'Attaching I/O information preserves the invocation',
 "Applying the generated input/output information to an invocation yields an invocation with the same command name, the same flags and options in the same order and the same operands in the same order, each with its original text (a dash standing for stdin or stdout in file roles). The original invocation and the information object are left unchanged, so applying it again gives an equal result.",
 ['inputs', 'histories'], 'all annotated commands; all word sequences up to the depth bound; applied once and twice',
 'Tests only read filtered views of ten commands (the operands of one role), so order, dropped or duplicated entries across roles are not seen.',
 [AG + 'datatypes/InputOutputInfo.py', DT + 'CommandInvocationWithIO.py', DT + 'BasicDatatypesWithIO.py', 'pash_annotations/util.py'],
 [('typer application', AG + 'datatypes/InputOutputInfo.py: apply_*')],
 ['apply_input_output_info_to_command_invocation'])

prop('C08', 'Running a command through any offered parallelizer gives the sequential output',
 "For every invocation and every fully implemented parallelizer offered for it, splitting the input at line boundaries as its splitter says (consecutive chunks; round robin over line blocks; any assignment of blocks to workers for commutative commands), running the instantiated mapper on every part and combining the results with the instantiated aggregator produces exactly the output of the original command on the whole input. This holds for every text input and every split into non-empty parts.",
 ['inputs', 'schedules'], 'every flag/option combination (up to two, thorough three) and a menu of arguments and scripts for each annotated command that is installed (cut, grep, sed, sort, tr, uniq, xargs), all line sequences up to the length bound over a small colliding alphabet, every split point / block assignment into two (thorough three) parts',
 'No test ever runs a command: tests only compare the object structure that a generator builds, so an unsound annotation passes as long as test and generator agree.',
 PIFILES + [PZ + '*.py', GEN + 'ParallelizabilityInfoGenerator*.py', DT + 'BasicDatatypes.py'],
 [('per-command parallelizability rules', GEN), ('mapper instantiation', PZ + 'MapperSpec.py'), ('aggregator instantiation', PZ + 'AggregatorSpec.py'), ('newline detection in tr sets', DT + 'BasicDatatypes.py')],
 ['Parallelizer.get_actual_mapper', 'Parallelizer.get_actual_aggregator', 'ParallelizabilityInfo.unpack_info'])

prop('C09', 'Each command is offered exactly its documented parallelization strategies',
 "For every flag and option combination of an annotated command, the offered strategies (splitter, mapper, aggregator, implemented or not, commutativity) are exactly the documented ones: concatenation by chunks and round robin for line-wise commands (cut, grep, sed substitutions, tr, col, xargs, custom_tr; chunks only for set_diff), chunks with a merging two-input aggregator for sort, adjacent-line aggregation for uniq and for tr deleting or squeezing newlines, custom map/reduce for the bigram commands. No strategy is offered when a flag makes the output depend on more than single lines (grep context, counts, line numbers, file names, quiet or maximum-match flags, sort checking/unique/random/stable/merge flags, NUL-separated grep, sed or sort data, uniq -d/-D, sed script files, xargs reading its items from elsewhere or separated otherwise).",
 ['inputs'], 'every selection of up to three flags/options from each command table plus argument and script menus, compared with a reference rule set that is independent of the code and cross-checked by C08',
 'Tests cover single flags of tr, grep, cut, uniq and sort; combinations and eight other commands are not covered. Losing a strategy is invisible to any output comparison.',
 PIFILES + [PZ + 'Parallelizer.py', PZ + 'Splitter.py'], [('generator rules', GEN + 'ParallelizabilityInfoGenerator*.py')],
 ['get_parallelizability_info_from_cmd_invocation'])

prop('C10', 'Instantiated mappers are the command with only its streams rewired',
 "A parallelizer's mapper for an invocation has the expected command name (the invocation's own, or the custom one), the transformed flags, the same remaining operands and option arguments in order, and exactly the given input and output in the places of the original streaming input and output, with matching access entries and none for the replaced streams. The original invocation is unchanged, repeated instantiation gives equal, independent results, and a mapper that is not implemented yields nothing.",
 ['inputs', 'configurations', 'histories'], 'every offered parallelizer of every annotated invocation up to the depth bound, and every combination of mapper kind, flag transformer, stream position (option, operand, implicit) and surrounding configuration files',
 'No test instantiates a mapper.',
 [PZ + 'MapperSpec.py', PZ + 'Mapper.py', PZ + 'Parallelizer.py', DT + 'CommandInvocationWithIOVars.py'],
 [('mapper instantiation', PZ + 'MapperSpec.py: get_mapper'), ('stream substitution', DT + 'CommandInvocationWithIOVars.py')],
 ['Parallelizer.get_actual_mapper'])

prop('C11', 'Instantiated aggregators read exactly the parts, in order, and write the output',
 "A parallelizer's aggregator for an invocation reads exactly the given partial results, in the given order, as streaming inputs and writes exactly the given output as its only streaming output, with the flags its specification derives from the original invocation (for sort: merge plus all ordering flags and keys, each once) and no trace of the original invocation's streams. The original invocation and the argument lists are unchanged, repeated instantiation gives equal, independent results, and an aggregator that is not implemented yields nothing.",
 ['inputs', 'configurations', 'histories'], 'every offered parallelizer of every annotated invocation up to the depth bound, every aggregator kind with every transformer, original streams in option, operand and implicit position, two to four inputs',
 'No test instantiates an aggregator.',
 [PZ + 'AggregatorSpec.py', PZ + 'Aggregator.py', DT + 'CommandInvocationWithIOVars.py', GEN + 'ParallelizabilityInfoGeneratorSort.py'],
 [('aggregator instantiation', PZ + 'AggregatorSpec.py: get_aggregator')],
 ['Parallelizer.get_actual_aggregator'])

prop('C12', 'Inferring extra parallelizers is exact and repeatable',
 "The inferred list of parallelizers consists of the declared ones, unchanged and in order, plus - only for commutative commands - one round-robin-with-unwrap variant of each declared consecutive-chunk parallelizer, which differs from it in the splitter alone. Asking any number of times, in any order with the other queries, always gives an equal answer and changes neither the declared list nor the parallelizers.",
 ['configurations', 'histories'], 'all lists of up to three declared parallelizers over all splitter/aggregator kinds, both commutativity values, all interleavings of up to four queries and additions',
 'No test calls the inference, let alone twice.',
 [AG + 'datatypes/ParallelizabilityInfo.py', PZ + 'Parallelizer.py'], [('inference', AG + 'datatypes/ParallelizabilityInfo.py: get_inferred_parallelizer_list')],
 ['ParallelizabilityInfo.get_inferred_parallelizer_list', 'unpack_info'],
 [('declared parallelizer list', 'what the generator appended', AG + 'datatypes/ParallelizabilityInfo.py')])

prop('C13', 'Results do not depend on what was asked before, nor change afterwards',
 "Parsing and annotating a command line gives the same result in any process after any sequence of earlier parses, annotations, applications, instantiations and caller modifications of earlier results (of the lists and attributes of the objects handed out themselves). No later operation changes a result handed out before.",
 ['histories'], 'all operation sequences up to length three (thorough four) over an alphabet of parse/annotate/apply/infer/map/aggregate/modify operations on colliding commands, each step compared with the result in a fresh process, and every earlier result re-inspected after every step',
 'Each test asks one question about one fresh invocation.',
 ['pash_annotations/parser/*.py', AG + 'AnnotationGeneration.py', AG + 'datatypes/*.py', PZ + '*.py', GEN + '*.py'],
 [('fresh generator object per query', AG + 'AnnotationGeneration.py'), ('copies in constructors', DT + 'CommandInvocationWithIOVars.py')],
 ['parse', 'get_*_info_from_cmd_invocation', 'unpack_info'])

prop('C14', 'Editing an invocation with I/O variables keeps it consistent',
 "After any sequence of edits with variables that are not in use in the invocation - substituting streaming inputs or outputs, replacing a variable, removing streaming inputs or outputs - an invocation with I/O variables has exactly the variables a list-based model predicts in every option argument, operand and implicit stream (options first, then operands, then implicit input, then implicit output), keeps all names and text arguments, and maps each variable it uses, and no other, to the unchanged access kind. The lists of its streaming inputs and its outputs agree with that, and invocations built from the same parts do not influence each other.",
 ['histories', 'configurations'], 'all initial invocations with up to two options, two operands and both implicit streams over the access kinds, and all edit sequences up to the depth bound, explored as a state graph',
 'No test constructs such an invocation.',
 [DT + 'CommandInvocationWithIOVars.py', DT + 'BasicDatatypesWithIOVar.py', AG + 'datatypes/Inputs.py'],
 [('traversal and substitution', DT + 'CommandInvocationWithIOVars.py')],
 ['substitute_*', 'replace_var', 'remove_streaming_*', 'generate_inputs', 'generate_outputs', 'make_cat_command_invocation_with_io_vars'],
 [('access map', 'variable to access kind', DT + 'CommandInvocationWithIOVars.py')])

prop('C15', 'Flag-list transformers compute the documented list, without side effects',
 "Keeping, filtering, removing, emptying, replacing and adding return exactly the documented list - filter keeps and remove drops the entries whose name is listed, add appends the entries not already present, order preserved - and a chain applies its members first to last. No application changes the given list, the transformer, or an earlier result.",
 ['inputs', 'configurations'], 'all flag/option lists up to length three over a colliding alphabet, every transformer with all small parameter lists, all chains up to length three, each applied repeatedly',
 'Tests compare transformer objects structurally but never apply one.',
 [PZ + 'TransformerFlagOptionList.py', 'pash_annotations/util.py', DT + 'BasicDatatypesWithIOVar.py'],
 [('transformers', PZ + 'TransformerFlagOptionList.py'), ('fold', 'pash_annotations/util.py: foldl')],
 ['get_flag_option_list_after_transformer_application'])

prop('C16', 'Auxiliary pipes between mapper and aggregator are wired consistently',
 "For a parallelizer that passes auxiliary streams, the mapper takes input, output and the declared number of auxiliary outputs as operands in that order, and the two-input aggregator takes first input, its auxiliary inputs, second input, its auxiliary inputs, output and auxiliary outputs in that order, all with streaming access and no implicit streams. Giving the mapper another number of auxiliary outputs than declared, or the aggregator unequal numbers for its two inputs and its output, is rejected, and aggregators that do not support auxiliary streams refuse.",
 ['configurations', 'inputs'], 'all auxiliary stream counts 0 to 3 against all declared counts, string-specified, transformer-based and concatenating aggregators, and the annotated bigram command',
 'No test uses auxiliary streams although the shipped bigram annotation does.',
 [PZ + 'MapperSpec.py', PZ + 'AggregatorSpec.py', PZ + 'Parallelizer.py', GEN + 'ParallelizabilityInfoGeneratorBigramsAux.py'],
 [('mapper with aux outputs', PZ + 'MapperSpec.py: get_mapper'), ('aggregator with aux inputs', PZ + 'AggregatorSpec.py: get_actual_2_ary_aggregator_with_aux')],
 ['Parallelizer.get_actual_mapper', 'Parallelizer.get_actual_2_ary_aggregator_with_aux'])

prop('C17', 'Equality of annotation objects is exact and total',
 "Two annotation objects (flags, options, operands, files, descriptors, access kinds, invocations, specifications, parallelizers, splitters) are equal exactly when they are of the same class and all their parts are equal; copies are equal, and changing any single part makes them unequal. Comparing with any other kind of value, including None, answers no and never raises.",
 ['inputs'], 'all ordered pairs of a catalogue that contains every class with every single-part variation, plus foreign values, plus deep copies',
 'Tests use equality as their oracle (comparing results with expected objects) and so cannot notice an equality that is too coarse.',
 ['pash_annotations/util_standard.py', DT + '*.py', PZ + '*.py'], [('structural equality', 'pash_annotations/util_standard.py: standard_eq')],
 ['=='])

prop('C18', 'The command line tool reports the annotations and never overwrites a file',
 "For a given invocation the command line tool reports the parsed invocation, its input/output information (or that it is side-effectful, or has other outputs) and its parallelizability information as the library computes them. Given a file to save to, it writes the report there, relative to where it is called from, if nothing exists at that path, and otherwise says so, prints the report and leaves the existing file byte for byte unchanged.",
 ['inputs', 'configurations'], 'a menu of invocations covering every report variant, crossed with no save path and every state of the save path (absent, empty file, file, directory, symlink; relative and absolute; different working directories)',
 'The tool has no test and is not even imported by the test suite.',
 ['pash_annotations/annotation_cli.py'], [('existence probe before writing', 'pash_annotations/annotation_cli.py')],
 ['process stdout, exit status and files'])

prop('C19', 'Concurrent annotation is the same as sequential annotation',
 "Threads that parse and annotate command lines at the same time each get exactly the result they would get alone, under every interleaving.",
 ['schedules'], 'pairs of parse/annotate/instantiate operations on equal and on different commands; every schedule with up to one (thorough two) preemptions at line granularity of the library code',
 'Tests are single threaded.',
 ['pash_annotations/parser/*.py', AG + 'AnnotationGeneration.py', AG + 'datatypes/*.py', PZ + '*.py'], [('no shared mutable state between queries', AG + 'AnnotationGeneration.py')],
 ['parse', 'get_*_info_from_cmd_invocation'])

prop('C20', 'The man-page extractor turns option lines into a usable interface table',
 "For every list of man-page option lines built from the documented patterns ('-f', '--flag', '-o ARG', '--opt ARG', '--opt=ARG', '--opt[=ARG]', comma separated, with or without description text after it), the extractor reports each name (told apart without its dashes) exactly once, as an option with its argument name if it has one and as a flag otherwise, and the spellings of a line that only has flags stay together. Its output always has the form the parser accepts, and lines that contain none of the patterns contribute nothing.",
 ['inputs'], 'all lines with up to three comma-separated phrases over the documented patterns and non-patterns, and all sequences of up to three such lines with repeated names',
 'The extractor is not imported or run by any test.',
 ['pash_annotations/parser/command_flag_option_info/args-to-json.py', 'pash_annotations/parser/command_flag_option_info/README.md'],
 [('line matching', 'args-to-json.py: find_matches'), ('table assembly', 'args-to-json.py: parse_args')],
 ['standard output of the script'])

prop('C21', 'Interface tables agree with the commands they describe',
 "For every command installed on the system, each spelling its interface table lists as a flag is accepted by the command without an argument (and with one after '=' only if the table lists that too), each spelling listed as an option takes an argument, and spellings listed together are synonyms. Every table is well formed: spellings are unique, grouped under one primary name, file arguments declare their access.",
 ['configurations'], 'every spelling in every table (about 450) probed against the installed command; structural rules on every table entry',
 'No test looks at the tables or at the commands; one wrong entry shifts the role of every later word of an invocation.',
 ['pash_annotations/parser/command_flag_option_info/data/*.json'], [('tables', 'parser/command_flag_option_info/data')],
 ['get_json_data', 'exit status and diagnostics of the installed commands'])

prop('C22', 'Shell-AST words are rendered character by character',
 "Rendering the characters of a shell-AST word concatenates the rendering of each: plain and escaped characters as themselves, quoted parts in double quotes with their content rendered recursively, variables as ${name}, command substitutions as $(...). Unknown kinds of characters are rejected instead of being dropped.",
 ['inputs'], 'all character lists up to length four over all node kinds, nested quotes up to depth three, every printable ASCII character and escape',
 'No test renders a word.',
 [DT + 'BasicDatatypes.py'], [('rendering', DT + 'BasicDatatypes.py: format_arg_chars')], ['format_arg_chars'])

prop('C23', 'Access kinds are mutually exclusive and completely classified',
 "Each of the seven access kinds answers yes to exactly its own kind query, counts as either any input or any output but not both, and is produced by exactly its own constructor and textual name; unknown names are rejected. A file or descriptor given an access keeps its identity and exactly that access.",
 ['inputs'], 'all seven kinds against all queries, constructors and names, and against every file/descriptor wrapper',
 'Tests use three of the seven kinds and two of the queries.',
 [DT + 'AccessKind.py', DT + 'BasicDatatypesWithIO.py'], [('classification', DT + 'AccessKind.py')], ['AccessKind.is_*', 'get_access_from_string'])

prop('C24', 'Round robin is only combined with order-insensitive line aggregators',
 "Building a round-robin parallelizer succeeds exactly for concatenation and adjacent-line aggregators and is rejected for two-input and n-input aggregators; every parallelizer carries exactly the splitter, mapper, aggregator, extra splitter information and number of auxiliary pipes it was built with, with the sequential command as default mapper and concatenation as default aggregator. A parallelizer counts as fully implemented exactly when both its mapper and its aggregator are.",
 ['configurations'], 'all splitters x mapper kinds x aggregator kinds x implemented flags x extra information x auxiliary counts, and every parallelizer any annotated invocation is offered',
 'Tests build the few combinations that generators use; rejection is never tested.',
 [PZ + 'Parallelizer.py', PZ + 'Splitter.py', PZ + 'AggregatorSpec.py', PZ + 'MapperSpec.py'], [('constructor check', PZ + 'Parallelizer.py')],
 ['make_parallelizer_*', 'Parallelizer.are_all_parts_implemented'])

prop('C25', 'Queries by access list exactly the operands and options with that access',
 "For every annotated invocation, with files or with I/O variables and also after streams were substituted, the queries for operands that are configuration (text operands included), streaming input, other input, streaming output or other output list exactly the operands with that access, in order, and the query for options with other outputs lists exactly those options. Asking changes nothing.",
 ['inputs'], 'every assignment of text and access kinds to up to four operands and three options, with files, descriptors and variables, before and after substitutions; every real annotated invocation with up to one flag or option',
 'Tests only count the operands a few invocations have in three of the roles, and never ask an invocation with variables.',
 [DT + 'CommandInvocationWithIO.py', DT + 'CommandInvocationWithIOVars.py'],
 [('queries', DT + 'CommandInvocationWithIO.py: get_operands_with_*, get_options_with_other_output'), ('queries with variables', DT + 'CommandInvocationWithIOVars.py')],
 ['CommandInvocationWithIO.get_operands_with_*', 'CommandInvocationWithIOVars.get_operands_with_*', 'get_options_with_other_output'])

prop('C26', 'The building blocks of annotations do what they are named for',
 "The helpers with which annotations are written assign exactly the named role to exactly the named operands (all, first, last, all but the first or the last) or implicit streams and leave the others alone, for every number of operands and any order of calls that assigns nothing twice. Those that add a parallelizer add exactly the named combination of splitter, mapper and aggregator, in order. The conditions they offer (contains one of these flags or options, number of operands, the first operand starts with or contains a text) hold exactly when they say so. The small functions beneath them (a flag or option from words, removing duplicates, folding from the left, defaults, telling a dash from a file name, an operand as text or with the null character, combining inputs) do what their names say.",
 ['histories', 'inputs'], 'all sequences of up to three helper calls on generators and information objects for zero to four operands; all sequences of up to three parallelizer additions; all flag lists up to three entries against all name lists',
 'Tests run a handful of helpers through the generators that use them, with one or two operands; several helpers have no user yet.',
 [AG + 'annotation_generators/InputOutputInfoGenerator_Interface.py', AG + 'annotation_generators/ParallelizabilityInfoGenerator_Interface.py', AG + 'annotation_generators/Generator_Interface.py', AG + 'datatypes/InputOutputInfo.py'],
 [('operand roles', AG + 'datatypes/InputOutputInfo.py'), ('strategies', AG + 'annotation_generators/ParallelizabilityInfoGenerator_Interface.py'), ('conditions', AG + 'annotation_generators/Generator_Interface.py')],
 ['InputOutputInfoGeneratorInterface', 'ParallelizabilityInfoGeneratorInterface', 'InputOutputInfo'])

prop('C27', 'A command added by the documented steps is annotated, and nothing else changes',
 "After adding a command by the documented steps - an entry in the name mapping, generator files with the documented names, an interface table - its invocations are parsed by that table and get exactly the information its generators give, or nothing where a generator is missing or refuses. The two kinds of generators are independent of each other, without a table all words are operands, and nothing about any other command changes.",
 ['configurations'], 'every combination of present, refusing and absent artefacts for one added command, and pairs of added commands, each in a scratch copy of the package and a fresh interpreter',
 'No test extends the package; generators are looked up by constructed names, which only ever run on the existing ones.',
 [AG + 'AnnotationGeneration.py', 'pash_annotations/parser/util_parser.py', 'docs/adding-annotations.md'],
 [('lookup by constructed names', AG + 'AnnotationGeneration.py'), ('interface table lookup', 'pash_annotations/parser/util_parser.py')],
 ['get_input_output_info_from_cmd_invocation', 'get_parallelizability_info_from_cmd_invocation', 'parse'])

prop('C28', 'An installed package gives the same answers as the source tree, anywhere',
 "A copy of the package - the bare source directory, an installation, or an installation from a source archive - can be imported and gives the same answers as the source tree for every command line, whatever the path it lies at, the working directory (also one with files named like its own, one that cannot be read or no longer exists), the user and the locale, and whichever of its modules is imported first. The command line tool of each copy prints the same report from every directory.",
 ['configurations'], 'every combination of three kinds of copies, seven locations, six working directories and three users or locales, and every module imported first, each in a fresh interpreter asked about sixty command lines',
 'Tests run in the source tree, from its root, with modules imported in one order.',
 ['setup.py', 'pash_annotations/parser/util_parser.py', AG + 'AnnotationGeneration.py', 'pash_annotations/annotation_cli.py', 'pash_annotations/parser/command_flag_option_info/data/*.json'],
 [('data located relative to the module', 'pash_annotations/parser/util_parser.py'), ('generators located by absolute module names', AG + 'AnnotationGeneration.py')],
 ['parse', 'get_input_output_info_from_cmd_invocation', 'get_parallelizability_info_from_cmd_invocation', 'annotation_cli'])

prop('C29', 'From a man page to an interface table the parser follows',
 "Run for a command, the man-page script prints an interface table made of exactly the option lines of the command's man page: those indented by seven spaces that begin with a dash. Headings, descriptions and lines indented otherwise contribute nothing, whatever they contain (also text beyond ASCII), and a command without a man page gets an empty table. Stored as the command's interface table, it makes the parser recognise every listed flag and option, with its argument, under its primary spelling, and no other word.",
 ['inputs'], 'every man page of up to two lines over twenty-six lines (three over nine), and every short command line over the spellings of each page',
 'No test runs the script or uses a table it made.',
 ['pash_annotations/parser/command_flag_option_info/manpage-to-json.sh', 'pash_annotations/parser/command_flag_option_info/args-to-json.py', 'pash_annotations/parser/parser.py', 'pash_annotations/parser/util_parser.py'],
 [('selection of option lines', 'pash_annotations/parser/command_flag_option_info/manpage-to-json.sh'), ('table', 'pash_annotations/parser/command_flag_option_info/args-to-json.py'), ('lookup of tables', 'pash_annotations/parser/util_parser.py')],
 ['manpage-to-json.sh', 'parse'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
