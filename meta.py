#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
I = 'include/arg_router/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note,
         level='exploration'):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level))


MODEL_NOTE = ('Held on the executions observed only. Trusts the reference interpreter (vt/model.py, written from '
              'the documented behaviour), clang 18 and libstdc++ assertions; parse trees come from a fixed '
              'handcrafted set plus seeded random ones.')
MODEL_TECH = 'runtime monitoring: online reference-model monitor over recorded parses'

prop('P02', 'One successful parse, exactly one router call; a failed parse, none',
     'A parse that succeeds has invoked exactly one router, exactly once: the one belonging to the deepest mode (or '
     'root level argument) that the command line selects. A parse that fails has thrown and invoked no router. An '
     'exception thrown by the router itself leaves parse unchanged, after that single call.',
     ['inputs', 'programs'],
     'For every parse tree with any arrangement of nested, anonymous and root level nodes, and every token sequence.',
     'Tests check a few handpicked command lines per tree; the claim is about every tree shape and line, including '
     'lines that fail late.',
     [I + 'root.hpp', I + 'mode.hpp', I + 'policy/router.hpp', I + 'tree_node.hpp'],
     [('root tries its children in order until one matches', I + 'root.hpp'),
      ('mode delegates to the deepest matching nested mode, then parses, validates, routes', I + 'mode.hpp')],
     ['router invocation', 'exception leaving parse'], MODEL_TECH, MODEL_NOTE)
prop('P03', 'The router receives exactly what the command line says',
     'On success the router\'s arguments are, in child declaration order, the typed values given by the tokens: each '
     'value token contributes to exactly one argument, in command line order and unaltered, and arguments not '
     'mentioned hold their default. No token is silently dropped, duplicated or attributed to another argument, '
     'and a command line that cannot be wholly accounted for this way is rejected.',
     ['inputs', 'programs'],
     'For every valid parse tree of any node kinds, and every token sequence.',
     'Tests assert values for a few lines of a few trees; attribution errors appear only in particular combinations '
     'of sibling nodes and token orders.',
     [I + 'mode.hpp', I + 'tree_node.hpp', I + 'parsing/parse_target.hpp', I + 'arg.hpp', I + 'flag.hpp',
      I + 'positional_arg.hpp', I + 'multi_arg.hpp', I + 'parsing/dynamic_token_adapter.hpp'],
     [('sub-targets carry the tokens of a node to its parse', I + 'parsing/parse_target.hpp'),
      ('results tuple indexed by child', I + 'mode.hpp')],
     ['router arguments'], MODEL_TECH, MODEL_NOTE)
prop('P05', 'Value counts, end markers and forwarding are respected exactly',
     'An argument is accepted only with a number of value tokens within its declared minimum and maximum (exactly the '
     'declared number if fixed); too few is an error and surplus tokens are never swallowed. A token end marker ends '
     'a list and is itself not a value, and everything after a forwarding marker reaches the router verbatim. Tokens '
     'beyond an ended or full list are interpreted as further arguments.',
     ['inputs', 'programs'],
     'For every combination of count bounds, end markers and following nodes, and every token sequence.',
     'Tests cover single nodes with a few counts; the boundaries depend on what follows the list and on its position.',
     [I + 'policy/min_max_count.hpp', I + 'policy/token_end_marker.hpp', I + 'multi_arg.hpp',
      I + 'multi_arg_base.hpp', I + 'positional_arg.hpp', I + 'forwarding_arg.hpp'],
     [('min/max count check and token transfer', I + 'policy/min_max_count.hpp'),
      ('end marker search', I + 'policy/token_end_marker.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P06', 'Missing arguments: required fails, otherwise the default is delivered',
     'If a required argument (or one that is runtime required) is absent from the command line the parse fails naming '
     'it and no router runs. If an optional one is absent its router argument is its declared default, or the value '
     'initialised default of its type if none is declared. An argument that is present never yields its default.',
     ['inputs', 'programs'],
     'For every subset of a tree\'s arguments that a command line may omit.',
     'The number of present/absent combinations is exponential; tests check one omitted argument at a time.',
     [I + 'policy/required.hpp', I + 'policy/default_value.hpp', I + 'mode.hpp', I + 'policy/runtime_enable.hpp'],
     [('missing phase run for every unset child', I + 'mode.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P07', 'Values outside their declared bounds never reach the router',
     'A value (or repeat count) is accepted if and only if it lies within the argument\'s declared inclusive minimum '
     'and maximum, whether the bounds are compile time or runtime and whichever signedness, width or floating type '
     'the value has. A violation fails the parse with the minimum or maximum error naming the argument.',
     ['inputs'],
     'For every bound and value representable in the value type, and every node kind that can carry bounds.',
     'Tests use one or two int values per policy, not the edges of each type nor bounds on counted, defaulted, '
     'positional, aliased or exclusive arguments.',
     [I + 'policy/min_max_value.hpp', I + 'tree_node.hpp', I + 'mode.hpp', I + 'counting_flag.hpp'],
     [('validation phase', I + 'policy/min_max_value.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P08', 'An alias means exactly its targets',
     'Using an alias is indistinguishable, in values delivered, in validation and in duplicate detection, from using '
     'each of its targets once with the alias\'s value tokens; the alias itself delivers nothing. Too few values '
     'following an alias is an error.',
     ['inputs', 'programs'],
     'For every alias to one or several targets of any node kind, at any position among other arguments.',
     'Tests use fixed lines with one alias; interplay with repeated, counted, bounded and dependent targets is '
     'unbounded.',
     [I + 'policy/alias.hpp', I + 'mode.hpp', I + 'parsing/parse_target.hpp'],
     [('alias adds sub-targets for each aliased node', I + 'policy/alias.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P09', 'A dependent argument needs what it depends on, earlier on the line',
     'An argument declared dependent on others is accepted only if each of those has already appeared (directly or '
     'through an alias or group) earlier on the command line in the same mode; otherwise the parse fails with an '
     'error naming the missing argument. Arguments not declared dependent are never rejected for this reason.',
     ['inputs', 'programs'],
     'For every dependency graph among a mode\'s arguments and every order of tokens.',
     'Tests try one present and one absent case; orderings, chains and groups multiply.',
     [I + 'policy/dependent.hpp', I + 'mode.hpp'],
     [('pre-parse search of processed sub-targets', I + 'policy/dependent.hpp')],
     ['exception', 'router arguments'], MODEL_TECH, MODEL_NOTE)
prop('P10', 'Exclusive and equivalent argument groups resolve to one value',
     'Of a group of mutually exclusive arguments at most one kind may be used in a parse: using two different members '
     'fails naming the group, using one delivers that member\'s value in the alternative belonging to it, and using '
     'none delivers the group\'s default or fails if it is required. A group of equivalent arguments accepts any one '
     'of its members and delivers the same single value; each parse is judged on its own tokens only.',
     ['inputs', 'programs', 'histories'],
     'For every group composition (types may repeat), every choice and order of members and surrounding arguments.',
     'Tests use groups of two or three members and single lines.',
     [I + 'dependency/one_of.hpp', I + 'dependency/alias_group.hpp', I + 'dependency/detail.hpp', I + 'mode.hpp'],
     [('validator wrapper checks already selected sub-targets', I + 'dependency/one_of.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P11', 'Repeatable flags count every occurrence, in any spelling',
     'The value delivered for a counting flag is the number of times it appears, however those appearances are spelt '
     '(long, short, inside short form groups, through aliases) or interleaved with other arguments; its declared '
     'default is delivered only when it does not appear at all. Bounds on the count apply to the final total.',
     ['inputs'],
     'For every number and arrangement of occurrences that the value type can represent.',
     'Tests count up to three adjacent repetitions.',
     [I + 'counting_flag.hpp', I + 'policy/multi_stage_value.hpp', I + 'policy/short_form_expander.hpp', I + 'mode.hpp'],
     [('merge of successive values', I + 'policy/multi_stage_value.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P12', 'A runtime disabled node behaves as if it were not in the tree',
     'Under every combination of runtime toggles, a disabled argument, group member or mode is never matched by its '
     'own names, never suggested for a mistyped token and never blocks another node from matching; its router '
     'argument, if it has one, holds its default. Enabled nodes behave exactly as if they had no toggle.',
     ['configurations', 'inputs'],
     'For every toggle assignment of a tree and every token sequence.',
     'Tests toggle one node and parse one or two lines.',
     [I + 'policy/runtime_enable.hpp', I + 'parsing/unknown_argument_handling.hpp', I + 'mode.hpp', I + 'tree_node.hpp'],
     [('pre-parse phase skips disabled nodes', I + 'policy/runtime_enable.hpp')],
     ['router arguments', 'exception'], MODEL_TECH, MODEL_NOTE)
prop('P18', 'A rejected command line is reported with the right error, tokens and suggestion',
     'The exception thrown for an invalid command line carries the error category of the first rule violated in left '
     'to right order, together with the offending tokens or the display name of the argument concerned. For an '
     'unrecognised token the suggestion is an enabled argument or mode reachable at that point whose name has the '
     'smallest edit distance, counted in user perceived characters, together with the modes leading to it.',
     ['inputs', 'programs'],
     'For every invalid token sequence over every tree.',
     'Tests assert messages for selected lines; precedence among simultaneous errors and nearest names over whole '
     'trees are not sampled.',
     [I + 'parsing/unknown_argument_handling.hpp', I + 'exception.hpp', I + 'utility/exception_formatter.hpp',
      I + 'utility/utf8/levenshtein_distance.hpp', I + 'policy/exception_translator.hpp', I + 'mode.hpp'],
     [('nearest name search', I + 'parsing/unknown_argument_handling.hpp'),
      ('message formatting', I + 'utility/exception_formatter.hpp')],
     ['exception text'], MODEL_TECH, MODEL_NOTE)

prop('P01', 'No command line makes parse misbehave',
     'For any sequence of byte strings given to any parse overload, parsing terminates and either succeeds or leaves '
     'by a parse_exception (or by whatever the router threw): no out of bounds or uninitialised access, undefined '
     'behaviour, crash, leak, unbounded run or foreign exception. Parsing the same line again gives the same result.',
     ['inputs'],
     'For every token sequence, including malformed UTF-8, empty tokens, embedded NULs and very long tokens or lines.',
     'Tests use well formed tokens and no sanitizers; memory errors hide behind particular bytes at particular places.',
     [I + 'root.hpp', I + 'mode.hpp', I + 'parsing/parsing.hpp', I + 'parsing/dynamic_token_adapter.hpp',
      I + 'parsing/parse_target.hpp', I + 'utility/utf8.hpp', I + 'utility/unsafe_any.hpp', I + 'parsing/global_parser.hpp',
      I + 'policy/short_form_expander.hpp'],
     [('token classification and prefix removal', I + 'parsing/parsing.hpp'),
      ('code point iteration', I + 'utility/utf8.hpp')],
     ['sanitizer reports', 'process termination', 'allocation balance', 'exception leaving parse'],
     'runtime monitoring: ASan/UBSan, memcheck and allocation accounting under hostile and coverage guided inputs',
     'Held on the executions observed only. libFuzzer explores one feature rich tree, byte level mutation five others; '
     'memcheck covers one tree. Trusts clang 18 sanitizers and valgrind.')
prop('P15', 'Help describes exactly the requested part of the tree',
     'Requesting help for a path of argument and mode names (or none) produces one entry for the node it names and one '
     'for every enabled descendant the formatter settings make visible, in declaration order, each carrying that '
     'node\'s own label (names, separator, count, value range, choices) and full description; nothing disabled or '
     'outside the requested subtree appears. A path that names no enabled node fails with the unknown argument error.',
     ['inputs', 'programs', 'configurations'],
     'For every tree, every path of names, every runtime toggle assignment and formatter setting.',
     'Tests compare the text of a few hand written trees.',
     [I + 'help.hpp', I + 'policy/default_help_formatter.hpp', I + 'utility/compile_time_string.hpp', I + 'tree_node.hpp',
      I + 'policy/min_max_value.hpp', I + 'utility/compile_time_optional.hpp', I + 'mode.hpp', I + 'arg.hpp'],
     [('help data tree generation', I + 'tree_node.hpp'), ('formatting', I + 'policy/default_help_formatter.hpp')],
     ['help text', 'exception text'],
     'runtime monitoring: help text monitor against a reference help model',
     'Held on the executions observed only. Trusts vt/helpmodel.py, written from the documented help format; trees are '
     'six handcrafted ones and random ones. Text layout is compared at the widths listed in the evidence.')
prop('P16', 'Help text is laid out within the terminal without losing content',
     'Whatever the terminal width, help output holds every word of every label and description in order, starts each '
     'description in one common column, and keeps every line within the width unless a single unbreakable unit or the '
     'reserved minimum column does not fit. Redirected output is not wrapped to any terminal, colour sequences are '
     'balanced and take no width.',
     ['inputs', 'configurations', 'programs'],
     'For every tree and description text (any script), every terminal width including very narrow ones.',
     'Tests fix the width at a few values; wrapping errors depend on the combination of width, indent and text.',
     [I + 'policy/default_help_formatter.hpp', I + 'policy/colour_help_formatter.hpp', I + 'utility/utf8/line_break.hpp',
      I + 'utility/terminal.hpp', I + 'utility/utf8.hpp'],
     [('description line splitting', I + 'policy/default_help_formatter.hpp'),
      ('line iterator', I + 'utility/utf8.hpp')],
     ['help text on a pseudo terminal of known width'],
     'runtime monitoring: help layout monitor over pseudo terminals of many widths',
     'Held on the executions observed only. Widths from 0 to 200 are sampled; display width follows the library\'s '
     'documented wide character rule.')

prop('P04', 'Equivalent spellings, orders and parse overloads agree',
     'Rewriting a command line within the documented equivalences (long or short name, separate flags or one short form '
     'group, reordering of independent named arguments whose extent does not depend on what follows) leaves the outcome '
     'unchanged: the same router with the same arguments, or the same error. Every parse overload (argc/argv, string '
     'container, iterators, token vector) gives the same outcome for the same tokens.',
     ['inputs', 'programs'],
     'For every tree, every command line and every equivalent rewriting of it.',
     'Tests parse one spelling of each line through mostly one overload; the equivalence relates unboundedly many pairs.',
     [I + 'root.hpp', I + 'parsing/global_parser.hpp', I + 'policy/short_form_expander.hpp', I + 'policy/long_name.hpp',
      I + 'policy/short_name.hpp', I + 'mode.hpp'],
     [('parse overloads', I + 'root.hpp'), ('group expansion', I + 'policy/short_form_expander.hpp')],
     ['router arguments', 'exception'],
     'runtime monitoring: metamorphic monitor over recorded parses of equivalent lines',
     'Held on the executions observed only; the equivalences are those listed in checks/p04.py.')
prop('P13', 'Parses of one root, or of its copies, do not influence one another',
     'The outcome of a parse depends only on the tree, its runtime toggles and the tokens: not on earlier parses of the '
     'same root (successful, failed, help, or ended by an exception out of a router), nor on whether the root is a copy '
     'or was moved to.',
     ['histories', 'inputs'],
     'For every tree and every history of earlier parses.',
     'Tests build a fresh root for each line; state left behind is visible only in a later parse.',
     [I + 'root.hpp', I + 'mode.hpp', I + 'dependency/one_of.hpp', I + 'policy/multi_stage_value.hpp', I + 'tree_node.hpp'],
     [('root owns the tree by value', I + 'root.hpp'), ('results are local to a parse', I + 'mode.hpp')],
     ['outcome of each parse in a recorded history'],
     'runtime monitoring: history monitor, each outcome compared to the one observed in isolation',
     'Held on the histories observed only.')
prop('P14', 'Concurrent parses of one shared root are race free and independent',
     'Any number of threads may parse different command lines on one const root at the same time: there is no data race, '
     'and each parse has the outcome it has when it runs alone.',
     ['schedules', 'inputs'],
     'For every tree whose user callbacks are themselves thread safe, every set of lines and every interleaving.',
     'No test parses from more than one thread.',
     [I + 'root.hpp', I + 'mode.hpp', I + 'policy/exception_translator.hpp', I + 'dependency/one_of.hpp', I + 'tree_node.hpp'],
     [('const parse, no shared mutable state', I + 'root.hpp')],
     ['thread sanitizer reports', 'outcome of each concurrent parse'],
     'runtime monitoring: ThreadSanitizer and an outcome monitor over concurrent parses with injected delays',
     'Held on the schedules observed only; ThreadSanitizer sees races among the accesses executed, whatever their order.')
prop('P21', 'UTF-8 iteration is total, complete and in bounds on any bytes',
     'Iterating any byte string by code points, grapheme clusters or lines terminates, reads nothing outside it, yields '
     'non-empty pieces that are consecutive and together are the whole string, and agrees with count. Every valid code point '
     'decodes to its scalar value, with the column width and whitespace property Unicode gives it, and the edit distance of two '
     'strings is the Levenshtein distance over their user perceived characters.',
     ['inputs'],
     'For every byte string, valid UTF-8 or not, and every code point.',
     'Tests decode some tens of strings; the tables alone cover 1.1 million code points.',
     [I + 'utility/utf8.hpp', I + 'utility/utf8/code_point.hpp', I + 'utility/utf8/double_width.hpp',
      I + 'utility/utf8/zero_width.hpp', I + 'utility/utf8/whitespace.hpp'],
     [('code point iterator', I + 'utility/utf8/code_point.hpp'), ('table lookup', I + 'utility/utf8.hpp')],
     ['iterated pieces', 'sanitizer reports'],
     'runtime monitoring: address/UB sanitizers and a coverage/bounds monitor over generated byte strings; table monitor '
     'against perl\'s Unicode database',
     'Byte strings are sampled; the per code point properties are observed for all code points. Trusts perl\'s Unicode 15 '
     'data restricted to what existed in 14.0, the version of the library\'s tables.')
prop('P22', 'Text is cut only where Unicode allows',
     'Grapheme clusters are those of UAX 29, so no user perceived character is counted twice or split. A wrapped line ends at '
     'a UAX 14 line break opportunity whenever it holds one, is no wider than the limit (trailing spaces and single code points '
     'wider than it aside), and holds everything up to the last opportunity that fits.',
     ['inputs'],
     'For every text in any script and every width, for runs within the configured look back window.',
     'Tests check individual rules on small windows and a few sentences; the rules interact along the whole text.',
     [I + 'utility/utf8.hpp', I + 'utility/utf8/grapheme_cluster_break.hpp', I + 'utility/utf8/line_break.hpp'],
     [('cluster rules', I + 'utility/utf8/grapheme_cluster_break.hpp'), ('line rules', I + 'utility/utf8/line_break.hpp'),
      ('line iterator', I + 'utility/utf8.hpp')],
     ['iterated clusters and lines'],
     'runtime monitoring: break position monitor against perl\'s UAX 29 and UAX 14 implementation',
     'Held on the strings observed only. Trusts perl. Not exercised for line breaking: numeric expressions and break classes '
     'where the library documents a deviation (wide brackets), hard line breaks, zero width space and word joiner.')
prop('P23', 'A value token converts to the value it denotes, or is rejected',
     'For every supported type (integers of all widths and signedness, floating point, bool, char, enumeration choices, '
     'strings, paths, optionals, containers, explicitly constructible types and user parsers) a token in the documented form '
     'yields exactly the value it denotes. Any other token, including trailing text, overflow and empty text, fails the '
     'parse with an error naming the argument and token and never yields a wrapped, truncated or partial value.',
     ['inputs'],
     'For every token and every supported value type.',
     'Tests convert a handful of tokens per type.',
     [I + 'parsing/global_parser.hpp', I + 'policy/custom_parser.hpp', I + 'arg.hpp', I + 'multi_arg_base.hpp',
      I + 'tree_node.hpp'],
     [('parser specialisations', I + 'parsing/global_parser.hpp')],
     ['router arguments', 'exception'],
     'runtime monitoring: conversion monitor against exact arithmetic, under UB sanitizer',
     'Held on the tokens observed only. Floating point texts are judged against exact rational arithmetic (libc for long '
     'double).')

prop('P19', 'Errors speak through the translation for their error code',
     'Every parse failure reaches the user as one parse_exception whose text is the entry for its error code in the translation '
     'table given to the root, else in the fallback table, else the documented untranslated text. Placeholders are filled in order '
     'from the offending tokens (prefixes included), a bracket pair holding text takes all remaining tokens joined by that text, '
     'missing tokens leave nothing behind, and a message without placeholders has the tokens appended; tokens are never interpreted.',
     ['inputs', 'programs'],
     'For every translation table, error code (the library\'s and extensions) and token list.',
     'Tests format a few handpicked strings; positions shift with every substitution, so errors need particular lengths and counts.',
     [I + 'policy/exception_translator.hpp', I + 'utility/exception_formatter.hpp', I + 'exception.hpp', I + 'root.hpp'],
     [('table search', I + 'policy/exception_translator.hpp'), ('placeholder substitution', I + 'utility/exception_formatter.hpp')],
     ['text of the exception leaving parse'],
     'runtime monitoring: reference formatter monitor over thrown messages, under address and UB sanitizers',
     'Held on the tables and tokens observed only.')
prop('P20', 'The locale picks the tree in exactly its language, or the default one',
     'A multi-language root behaves in every way (parsing, routing, help, error texts) as the root its factory returns for the '
     'language whose identifier equals the given one, and as that of the first language if none does. Locale names are '
     'normalised by cutting the encoding and turning hyphens into underscores, nothing else.',
     ['inputs', 'programs'],
     'For every set of languages, every locale name and every command line.',
     'Tests use a few exact identifiers and never compare whole behaviour across languages.',
     [I + 'multi_lang/root.hpp', I + 'multi_lang/root_wrapper.hpp', I + 'multi_lang/iso_locale.hpp',
      I + 'multi_lang/translation.hpp', I + 'multi_lang/string_selector.hpp'],
     [('language selection', I + 'multi_lang/root.hpp'), ('normalisation', I + 'multi_lang/iso_locale.hpp')],
     ['router arguments', 'exception text', 'help text'],
     'runtime monitoring: differential monitor against the per-language reference model', MODEL_NOTE)

prop('P24', 'Token and value carriers behave as plain sequences and values under any history',
     'Under any sequence of operations the dynamic token adapter is one sequence (processed tokens then unprocessed ones), '
     'the type-erased value is a value with exactly one owner per copy, the dynamic string view equals the text it was given, '
     'and a parse target carries its tokens and sub-targets unchanged. Copy, move, assignment, swap, insertion and erasure at '
     'any position keep the contents and never leak, double-destroy, dangle or relocate an object behind its back.',
     ['inputs', 'histories'],
     'For every history of operations on the carriers, with values of any size and any special member functions.',
     'Tests exercise each operation once or twice, never sequences of them, and with trivial values.',
     [I + 'parsing/dynamic_token_adapter.hpp', I + 'utility/unsafe_any.hpp', I + 'utility/dynamic_string_view.hpp',
      I + 'parsing/parse_target.hpp', I + 'utility/compile_time_optional.hpp'],
     [('adapter iterators', I + 'parsing/dynamic_token_adapter.hpp'), ('value storage', I + 'utility/unsafe_any.hpp')],
     ['carrier operations', 'live object ledger'],
     'runtime monitoring: model-based operation histories with live object accounting, under ASan and UBSan',
     'Held on the operation histories observed only.')

prop('P25', 'Memory from the configured allocator is returned; a refusal is survived',
     'Every block the library requests from the configured allocator is returned exactly once with its requested size; after a '
     'parse, whether it succeeds or fails, none is still held. If any single request is refused, parse() ends with '
     'std::bad_alloc (never termination, a leak or a call to a router that did not get its arguments), and the same root then '
     'parses as before.',
     ['inputs', 'fault_sequences'],
     'For every tree, token list and position of a refused request.',
     'Tests use the standard allocator and no allocation ever fails in them.',
     [I + 'config.hpp', I + 'utility/unsafe_any.hpp', I + 'algorithm.hpp', I + 'root.hpp', I + 'help.hpp'],
     [('allocator macro', I + 'config.hpp'), ('parse', I + 'root.hpp')],
     ['allocator', 'exception'],
     'runtime monitoring with fault injection: ledger allocator refusing each request in turn',
     'Held on the lines observed only. Help text written through a standard stream may be cut short by a refusal, because '
     'standard streams swallow their buffer\'s exceptions.')

prop('P27', 'A generated translation header holds exactly its TOML file\'s strings',
     'For any translation file of key/string lines, comment lines, blank lines and an error_code section, the generator writes one '
     'header per language that compiles in both string modes and whose members and error code pairs are exactly the file\'s, in order, '
     'whatever characters the strings and comments contain. The result does not depend on the other files given, and a header is '
     'rewritten exactly when its content changes.',
     ['inputs', 'histories'],
     'For every file content that is valid in the documented form.',
     'Tests generate two well behaved files.',
     ['cmake/translation_generator/translation_generator_script.cmake', 'cmake/translation_generator/translation_generator.cmake',
      I + 'multi_lang/translation.hpp'],
     [('generator script', 'cmake/translation_generator/translation_generator_script.cmake')],
     ['generated header', 'compiled values'],
     'runtime monitoring: generate, compile and read back hostile translation files',
     'Held on the files observed only.')

prop('P28', 'Compiler, notation, string mode, tuning and prefixes do not change meaning',
     'The same command line gives the same outcome (router arguments, error text, help text) whichever supported compiler, '
     'optimisation level, compile-time string implementation or look-back window the tree was built with, and whichever of the '
     'equivalent notations (strings or named policies, policies in any order, children in lists) it was written in. With other configured '
     'long and short prefixes, even identical ones, a command line respelled with those prefixes gives the same outcome, with '
     'the labels in its texts respelled alike.',
     ['inputs', 'programs'],
     'For every tree, command line, supported build mode and pair of prefixes.',
     'Tests are built in one configuration with the default prefixes.',
     [I + 'config.hpp', I + 'parsing/token_type.hpp', I + 'policy/short_form_expander.hpp', I + 'policy/value_separator.hpp',
      I + 'utility/compile_time_string.hpp'],
     [('configuration constants', I + 'config.hpp'), ('prefix classification', I + 'parsing/token_type.hpp')],
     ['router arguments', 'exception text', 'help text'],
     'runtime monitoring: metamorphic monitor across differently built and configured harnesses',
     'Held on the trees, lines and configurations observed only. Unknown labels and short groups are left out under identical '
     'prefixes, where long and short labels cannot be told apart; suggestions are left out where prefix lengths differ.')

prop('P29', 'Policies are called back in the documented life cycle',
     'In one parse every pre-parse call comes before every conversion, replacement of a missing value and validation, and these before the '
     'single routing call; nothing is called after a rejection. The policies of a node are called in priority order whatever order '
     'they were declared in; each value token is converted once, each missing value replaced once, and each value the router receives has '
     'passed all its validation policies, with exactly that value. A refusal by any user policy ends the parse with that policy\'s own error.',
     ['histories', 'inputs'],
     'For every tree with user-defined policies, and every command line.',
     'Tests call phases on single nodes by hand and do not record the order of calls across a whole parse.',
     [I + 'tree_node.hpp', I + 'mode.hpp', I + 'multi_arg_base.hpp', I + 'policy/policy.hpp', 'docs/related_pages/policies.doxy'],
     [('pre-parse', I + 'tree_node.hpp'), ('conversion and validation', I + 'multi_arg_base.hpp'), ('missing values', I + 'mode.hpp')],
     ['policy calls', 'router arguments', 'exception text'],
     'runtime monitoring: recording policies on every node, offline checker of the call trace against a trace specification',
     'Held on the traces observed only. Which ancestors a policy is given beyond its node and mode is not checked.')

prop('P30', 'User-written policies, nodes and formatters are treated as the library\'s own',
     'Any policy, leaf node, help formatter, error translator or validator in a tree may be replaced by one that user code defines with '
     'the same documented methods: the tree then accepts and rejects the same command lines, routes the same values to the same places, '
     'reports the same messages and prints the same help. No method or phase of a user type is ignored or called differently because the type '
     'is not one of the library\'s. Nodes may take their names from user policies, given directly or converted from plain strings, and a help '
     'formatter without run-time help data prints what it would if every node were enabled.',
     ['programs', 'inputs'],
     'For every tree, every choice of its parts to replace by user-defined equivalents, and every command line.',
     'Tests and examples hold one user-defined policy and node, on a few command lines.',
     [I + 'traits.hpp', I + 'tree_node.hpp', I + 'tree_node_fwd.hpp', I + 'policy/policy.hpp', I + 'utility/string_to_policy.hpp', I + 'help.hpp',
      I + 'policy/validator_rule_utilities.hpp', 'docs/related_pages/policies.doxy', 'docs/related_pages/architecture.doxy'],
     [('detection of methods', I + 'traits.hpp'), ('phase dispatch', I + 'tree_node.hpp'), ('conversion of strings',
      I + 'utility/string_to_policy.hpp'), ('formatters', I + 'help.hpp')],
     ['router arguments', 'exception text', 'help text'],
     'runtime monitoring: differential oracle between a tree of library types and the same tree with user-defined equivalents, over '
     'generated command lines',
     'Held on the trees, replacements and inputs observed only. Modes, groups of nodes, aliases, dependencies, program texts and flattening are '
     'kept as the library\'s types, which it documents by type, not by method.')

prop('P26', 'A tree that breaks the library\'s rules does not compile',
     'Every tree that violates a documented structural rule (duplicate names, an alias to nothing, a required argument with a default, '
     'children after a variable length list, a policy on a node that does not support it) is rejected by the default validator at '
     'compile time. Every tree that violates none is accepted.',
     ['programs'],
     'For every tree expression.',
     'Tests compile a fixed list of malformed trees.',
     [I + 'policy/validator.hpp', I + 'policy/validator_rule_utilities.hpp'],
     [('rules', I + 'policy/validator.hpp')],
     ['compiler diagnostics'], None, None)
NA = [{'property': 'P26', 'reason': 'A claim about which programs the compiler rejects: a rejected tree has no execution to monitor. '
       '(That valid trees are accepted is seen incidentally: every check builds random valid trees.)'}]

prop('P17', 'Compile-time text is exactly the text it was made from',
     'A compile-time string made from a literal, a view, a character, an integer constant or a repeated character, or by joining and '
     'cutting others, holds exactly the text that expression denotes, of that size, in both implementations of compile-time strings. '
     'The integer helpers and the text measures give the compiler the values they give a running program.',
     ['programs'],
     'For every such expression, any characters but NUL, and any value of any integer type.',
     'Tests convert a few numbers and join a few ASCII literals.',
     [I + 'utility/compile_time_string.hpp', I + 'literals.hpp', I + 'math.hpp', I + 'utility/utf8.hpp'],
     [('both implementations', I + 'utility/compile_time_string.hpp'), ('digits and powers', I + 'math.hpp')],
     ['text held by generated compile-time strings'],
     'runtime monitoring: generated programs print compile-time values, compared with the denoted text',
     'Held on the generated expressions only.')

# --- more properties are appended above this line

P.sort(key=lambda p: p['pid'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        for x in p['files'] + [b for _, b in p['mech']]:
            assert os.path.exists(os.path.join('/repo', x)), x
        assert len(p['statement'].split('. ')) <= 3, p['pid']
        assert len(p['title']) <= 80, p['pid']
        f.write(json.dumps({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))" && clang++ --version',
    'checks': [{
        'property': p['pid'], 'quick_cmd': f"python3 check.py {p['pid']}",
        'thorough_cmd': f"python3 check.py {p['pid']} thorough", 'technique': p['technique'],
        'level': p['level'], 'level_note': p['note']} for p in P if p['technique']],
    'not_applicable': NA,
    'notes': 'No hooks in /repo are needed: everything is observed at the library boundary.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
