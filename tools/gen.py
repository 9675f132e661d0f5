#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level, observe=observe or []))

NODES = ["src/ecoli_node_%s.c" % n for n in "seq or many option once subset bypass str int any space empty none re".split()]
BASE = "Randomised search with coverage guidance and a fixed seed: no violation in the explored cases, not a proof. Trusts the reference written in /verif/lib and /verif/props, clang's sanitizers, libc's regcomp."

prop("C01", "Parsing accepts exactly the language the grammar describes",
 "For every grammar graph built from the library's node types (sequences, alternatives, repetitions, options, once, subsets, bypasses, lexers, dynamic and conditional nodes, terminals; shared and recursive included) and every vector of strings, parsing matches if and only if the documented meaning of the nodes says so, and the matched length is the number of strings that meaning consumes. Parsing never fails, crashes or loops on such an input.",
 ["inputs", "programs"], "every grammar graph (tree, shared, recursive behind a consumed token) x every string vector",
 "The unit tests parse a handful of fixed inputs with one-node grammars; nesting, sharing, recursion and back-tracking combinations are unbounded.",
 NODES + ["src/ecoli_parse.c", "src/ecoli_node_sh_lex.c", "src/ecoli_node_re_lex.c", "src/ecoli_node_cond.c", "src/ecoli_node_dynamic.c"],
 [("per-type parse callbacks", "src/ecoli_node_*.c"), ("ec_parse_child / ec_parse_strvec", "src/ecoli_parse.c")],
 "model-based PBT: random grammars and inputs vs. an independent reference parser", BASE,
 observe=["ec_parse_strvec", "ec_pnode_matches", "ec_pnode_len"])

prop("C02", "The parse tree is exactly the derivation, and its navigation is coherent",
 "A matching parse returns the tree of the nodes that matched, in order, each with exactly the strings (and their attributes) it consumed, and nothing left from abandoned attempts; a parse that does not match returns a single bare root. Parent, child, sibling, root, depth-first iteration, search by identifier, copy, link and unlink are coherent on every tree, and a copy is independent from the original.",
 ["inputs", "histories"], "every grammar and input; every sequence of link, unlink, delete, copy and attribute operations on trees",
 "The existing tests look at two fixed trees; stale children after back-tracking need particular combinations of nodes.",
 ["src/ecoli_parse.c", "include/ecoli_parse.h"] + NODES,
 [("tree building in ec_parse_child, deletion on back-tracking", "src/ecoli_parse.c"), ("__ec_pnode_iter_next, ec_pnode_find_next, ec_pnode_dup", "src/ecoli_parse.c")],
 "model-based PBT: derivation tree vs. reference parser; stateful testing of tree edition vs. a list model", BASE,
 observe=["ec_pnode_get_*", "ec_pnode_find*", "EC_PNODE_ITER_NEXT", "ec_pnode_dup", "ec_pnode_link_child"])

prop("C03", "Completion proposes exactly the possible continuations",
 "For every grammar and every input, the completion list holds exactly the items that the documented meaning of the nodes gives for the last string after every possible way of matching the strings before it: same strings, completion suffixes, displayed strings, types, issuing nodes, and the same already-parsed state, with the same number of occurrences. Completing a string is completing the one-string vector, an unclosed quote typed in a shell-lexed line is closed in the proposed items, and completion never fails, crashes or loops.",
 ["inputs", "programs"], "every grammar graph x every partially typed input",
 "Tests check the completions of a few hand-written inputs, per node type; the explored prefixes are combinatorial.",
 ["src/ecoli_complete.c", "src/ecoli_node_sh_lex.c"] + NODES,
 [("per-type complete callbacks", "src/ecoli_node_*.c"), ("ec_complete_child, ec_comp_add_item", "src/ecoli_complete.c")],
 "model-based PBT: multiset of completion items vs. an independent reference completer", BASE,
 observe=["ec_complete_strvec", "ec_complete", "EC_COMP_FOREACH"])

prop("C04", "Completion lists, groups and merges hold what was put in them",
 "Whatever items node types add during a completion, the list delivers each of them once: in groups in the order the groups were opened, an unknown-type item with no strings, partial and full items with the given strings, completion suffix and display; iteration with any type mask visits exactly the items of these types and terminates; counts agree with iteration; merging moves every item of the source after those of the destination, leaves the issuing nodes, parsing states and attributes usable, and frees each of them once; items and groups can be modified without affecting others.",
 ["inputs", "histories"], "every sequence of add, group opening, set, merge and iteration operations",
 "Tests only count the items given by a few grammars; masks, empty groups, merges after freeing the nodes are never exercised.",
 ["src/ecoli_complete.c", "include/ecoli_complete.h"],
 [("ec_comp_add_item, ec_comp_item_set_*, ec_comp_merge", "src/ecoli_complete.c"), ("ec_comp_iter_first/next, ec_comp_count", "src/ecoli_complete.c")],
 "stateful PBT: scripted custom node type vs. a list model", BASE,
 observe=["ec_comp_add_item", "ec_comp_count", "EC_COMP_FOREACH", "ec_comp_merge", "ec_comp_item_*"])

prop("C05", "Shell-like lexing splits and unquotes every line the documented way",
 "For every line, the shell lexer gives the words a POSIX-like reading of quotes, backslashes, blanks and comments gives, unquoted; with the strict flag exactly the unterminated inputs are rejected (EBADMSG) and the quote left open is reported; with the trailing-space flag an empty string is appended exactly when a new word is being started. Any vector of strings that is quoted in any equivalent way and joined with blanks is recovered. The sh_lex node matches one string exactly when its child consumes all the words of the string, and its tree holds the tree of the words.",
 ["inputs"], "every byte string (NUL excepted), every flag combination",
 "The tests lex a dozen fixed lines.",
 ["src/ecoli_strvec.c", "src/ecoli_node_sh_lex.c"],
 [("ec_strvec_sh_lex_str", "src/ecoli_strvec.c"), ("ec_node_sh_lex_parse", "src/ecoli_node_sh_lex.c")],
 "PBT: reference lexer, quoting round-trip, node vs. its child on the words", BASE,
 observe=["ec_strvec_sh_lex_str", "ec_node_sh_lex"])

prop("C06", "Regular expression nodes and lexer agree with regular expression semantics",
 "For every regular expression, the re node matches exactly the single strings that the expression matches entirely, in the POSIX extended sense. For every ordered list of patterns and every line, the re_lex node cuts the line by always taking, at the current position, the first pattern of the list that matches a non-empty piece starting there (its longest match), keeps or drops the piece as the pattern asks, tags the kept pieces with the pattern's attribute, and matches exactly when the whole line is cut this way and its child consumes all the kept pieces; a line that cannot be cut does not match. The any node with an attribute matches exactly the strings tagged with it.",
 ["inputs", "programs"], "every pattern list x every line",
 "The tests use one expression and one lexer grammar; empty matches, unmatched tails, pattern priority, dropped pieces are barely sampled.",
 ["src/ecoli_node_re.c", "src/ecoli_node_re_lex.c", "src/ecoli_node_any.c"],
 [("ec_node_re_parse", "src/ecoli_node_re.c"), ("tokenize, ec_node_re_lex_parse", "src/ecoli_node_re_lex.c"), ("ec_node_any_parse", "src/ecoli_node_any.c")],
 "PBT: generated expressions vs. a backtracking set-of-ends reference matcher and a reference tokenizer", BASE,
 observe=["ec_node_re", "ec_node_re_lex", "ec_node_any", "ec_strvec_get_attr"])

prop("C07", "Integer nodes accept exactly the integers in range, and convert them exactly",
 "An int or uint node matches exactly one string that is, entirely, an integer literal of its base with a value inside its (inclusive) bounds, whatever of the bounds is configured and at the limits of the 64-bit types; reading the value back from the parsed string gives that value. Parsing helpers report out-of-range and malformed text as failures with errno set, and leave no other trace.",
 ["inputs", "configurations"], "every string, base and pair of bounds over the whole 64-bit range",
 "The tests sample a few bounds and bases; overflow at 2^63 and 2^64, signs, prefixes, blanks and missing bounds are not covered.",
 ["src/ecoli_node_int.c", "src/ecoli_string.c"],
 [("ec_str_parse_llint, ec_str_parse_ullint", "src/ecoli_string.c"), ("ec_node_int_uint_parse, ec_node_int_getval, ec_node_uint_getval", "src/ecoli_node_int.c")],
 "PBT: 128-bit reference conversion, boundary-biased literals", BASE,
 observe=["ec_node_int", "ec_node_uint", "ec_node_int_getval", "ec_node_uint_getval", "ec_str_parse_llint", "ec_str_parse_ullint"])

prop("C08", "Expression nodes parse operators and evaluate with the right precedence",
 "For every set of operands, prefix, postfix and binary operators and parentheses given to an expression node, a parsed expression is evaluated to the value its grammar gives: a value or parenthesised expression followed by any number of postfix operators, applied in order; a prefix operator applied to the longest expression that follows it; binary operators of one level from left to right, the first operator added binding tightest; each variable and operator of the text is handed to its callback exactly once with the operand values it applies to. The language accepted and its completions are those of that expression grammar. When a callback fails, evaluation fails and every intermediate value is freed exactly once.",
 ["inputs", "programs", "fault_sequences"], "every operator set x every expression text x every failing callback",
 "The test evaluates about ten expressions of one calculator; operator chains, nesting and failing callbacks are not.",
 ["src/ecoli_node_expr.c"],
 [("ec_node_expr_build", "src/ecoli_node_expr.c"), ("eval_expression, merge_results, ec_node_expr_eval", "src/ecoli_node_expr.c")],
 "model-based PBT: reference PEG parser/evaluator, token accounting of callback values, fault injection in callbacks, completion compared with a hand-built equivalent grammar", BASE,
 observe=["ec_node_expr_eval", "ec_parse_strvec", "ec_complete_strvec"])

prop("C09", "A command string is equivalent to the grammar it abbreviates",
 "For every command description made of words, named sub-nodes, alternatives, options, unordered lists and repetitions with any parenthesising and spacing, the cmd node parses, builds the tree and completes exactly like the grammar written out by hand from basic nodes, in the same order; malformed descriptions are refused with errno set and leave nothing behind; the nodes given by the user are neither modified nor kept after the cmd node is freed.",
 ["inputs", "programs"], "every well-formed and malformed command description x every input",
 "The tests cover a dozen descriptions with the two simplest operators mixed.",
 ["src/ecoli_node_cmd.c"],
 [("ec_node_cmd_build_expr, ec_node_cmd_eval_*", "src/ecoli_node_cmd.c"), ("ec_node_cmd_set_config", "src/ecoli_node_cmd.c")],
 "PBT, differential: description rendered from a random AST vs. the basic-node grammar built from the same AST and the reference parser/completer", BASE,
 observe=["EC_NODE_CMD", "ec_parse_strvec", "ec_complete_strvec"])

prop("C10", "A cond node matches exactly when its child matches and its condition holds",
 "For every condition made of the documented functions, literals and node-set navigation, a cond node matches exactly when its child matches and the condition, evaluated on the tree as parsed so far, is true; comparison, boolean, counting and navigation functions have their documented value on every tree. A condition that does not respect the syntax is refused at configuration; one that cannot be evaluated fails the parsing rather than silently matching.",
 ["inputs", "programs"], "every condition expression x every surrounding grammar x every input",
 "The unit tests use two conditions in one grammar; navigation functions depend on the partially built tree.",
 ["src/ecoli_node_cond.c"],
 [("cond_parse / syntax grammar", "src/ecoli_node_cond.c"), ("eval_condition, eval_func_*", "src/ecoli_node_cond.c")],
 "model-based PBT: reference evaluator over the reference parse tree, generated ill-typed and ill-formed conditions", BASE,
 observe=["ec_node_cond", "ec_parse_strvec"])

prop("C12", "Node graphs live exactly as long as something references them",
 "Whatever the history of creations, clones, configurations, child additions, reconfigurations and releases, including shared nodes and graphs with loops, a node stays usable and unchanged as long as the user holds a reference to it or a reachable parent holds it, and everything is released, exactly once, when the last outside reference to its graph is dropped, in whatever order references are dropped. Adding or setting a child consumes the reference given, also on failure. Children enumeration, lookup by identifier and dump terminate and are coherent on every graph.",
 ["histories", "programs"], "every sequence of create/clone/configure/add/free operations over every graph shape",
 "The test frees one two-node loop; release order, sharing and nested loops are history dependent.",
 ["src/ecoli_node.c", "src/ecoli_config.c"] + NODES,
 [("ec_node_free, node_get_children_refs, mark/sweep free states", "src/ecoli_node.c"), ("set_config and get_child callbacks", "src/ecoli_node_*.c")],
 "stateful model-based PBT: reachability model over generated operation histories, allocation accounting, address sanitizer", BASE,
 observe=["ec_node_free", "ec_node_clone", "ec_node_set_config", "ec_node_get_child", "ec_node_find"])

prop("C13", "Running out of memory is reported and leaves nothing broken",
 "For every operation of the library (building grammars and configurations, parsing, completing, copying trees and vectors, lexing) and every allocation it makes, if that allocation fails (alone or with all the following ones), the operation either reports a failure with errno set or succeeds with its normal result; it never crashes, loops, leaks memory, frees twice or corrupts its arguments, consumed arguments are released, and the same operation done again with memory available gives the normal result.",
 ["fault_sequences", "inputs", "programs"], "every operation x every failing allocation",
 "No test makes an allocation fail; each of the several hundred allocation sites has its own cleanup path.",
 ["src/ecoli_*.c"],
 [("goto fail paths", "src/ecoli_*.c"), ("ec_malloc_register", "src/ecoli_malloc.c")],
 "PBT with systematic fault injection: every generated operation replayed with its n-th allocation failing, differential against the fault-free run, allocation accounting", BASE + " Allocations made by libc itself (regcomp, fopen) do not fail.",
 observe=["all constructors", "ec_parse_strvec", "ec_complete_strvec", "ec_pnode_dup", "ec_config_dup", "ec_strvec_*"])

prop("C14", "Dictionaries and hash tables behave like the maps they are",
 "After any history of set, get, delete, duplicate and iterate operations, a dictionary (string keys) or hash table (any byte keys, embedded zeros and prefixes included) holds exactly the last value set for each key: lookups, membership, length and iteration agree with it, each entry is visited once, values are destroyed exactly once (on overwrite, deletion, container free, and on refused sets), duplicates are independent, errors set errno, and a failed operation leaves the table as it was.",
 ["histories", "inputs", "fault_sequences"], "every operation sequence, key set (growth and collisions included), and allocation failure",
 "The tests insert a few keys; growth, collisions, destructor accounting and failures are history dependent.",
 ["src/ecoli_dict.c", "src/ecoli_htable.c", "src/ecoli_murmurhash.c"],
 [("ec_dict_set/__ec_dict_get/ec_dict_del/ec_dict_dup", "src/ecoli_dict.c"), ("ec_htable_*", "src/ecoli_htable.c"), ("murmurhash_3_32", "src/ecoli_murmurhash.c")],
 "stateful PBT vs. std::map, destructor accounting, allocation-failure injection", BASE,
 observe=["ec_dict_*", "ec_htable_*"])

prop("C15", "String vectors, pointer vectors and string helpers keep exactly their content",
 "After any history of additions, deletions, replacements, attribute changes, sorts, copies and sub-copies, a string vector holds exactly the strings and per-string attributes put in it, a vector of elements holds bitwise the elements put in it with its copy and free callbacks called exactly once per element held, copies are independent of their original, and accesses outside the bounds are refused with errno set, the object being left unchanged. The string helpers (common prefix, prefix test, blank test, formatting into a new string) satisfy their documented relation for every string.",
 ["histories", "inputs"], "every operation sequence and content, every string",
 "The tests exercise short fixed sequences; aliasing between copies and boundary arguments depend on the history.",
 ["src/ecoli_strvec.c", "src/ecoli_vec.c", "src/ecoli_string.c"],
 [("ec_strvec_* (shared reference counted elements)", "src/ecoli_strvec.c"), ("ec_vec_*", "src/ecoli_vec.c"), ("ec_str_*, ec_asprintf", "src/ecoli_string.c")],
 "stateful model-based PBT against std::vector, element accounting, address sanitizer", BASE,
 observe=["ec_strvec_*", "ec_vec_*", "ec_str_*"])

prop("C16", "Configurations hold what was set, and nodes accept exactly the valid ones",
 "After any history of set, add, remove, iterate, duplicate and compare operations, a configuration holds exactly the values put in it; duplicates are equal and independent; comparison is structural equality; the values given are consumed exactly once, also on failure. A schema accepts exactly the configurations that follow it, and ill-formed schemas are refused. A node accepts a configuration exactly when it follows its schema and its values are meaningful, then behaves as any other node given an equal configuration; a refused configuration leaves its current configuration and behaviour unchanged and sets errno.",
 ["histories", "inputs", "programs"], "every operation sequence, every schema, every configuration of every node type",
 "The tests build three configurations; acceptance is a decision over all configurations and schemas.",
 ["src/ecoli_config.c", "src/ecoli_node.c", "src/ecoli_node_helper.c"] + NODES,
 [("ec_config_*", "src/ecoli_config.c"), ("ec_config_schema_validate, ec_config_validate", "src/ecoli_config.c"), ("ec_node_set_config and the set_config callbacks", "src/ecoli_node*.c")],
 "stateful model-based PBT (value model, conformance decision), differential between nodes of equal configuration", BASE,
 observe=["ec_config_*", "ec_node_set_config", "ec_node_get_config"])

prop("C17", "A YAML document gives the grammar it describes, or an error",
 "Importing a YAML document that describes nodes of configurable types gives a graph with exactly the described nodes, types, identifiers, help, attributes, configuration, sharing and loops (anchors and aliases), which parses and completes as the same grammar built by the API, whatever the YAML style used. A document that is not well formed or does not describe a valid grammar (missing or unknown type, unknown or duplicate key, value of the wrong kind or out of range, missing mandatory value) is refused with errno set. No file content, and no allocation failure, makes the import crash, leak memory or leave a file open.",
 ["inputs", "programs", "fault_sequences"], "every document, every grammar and presentation style, every allocation failure",
 "The test imports two fixed documents; the mapping and the refusal rules range over all documents.",
 ["src/ecoli_yaml.c"],
 [("parse_ec_node, parse_ec_config*", "src/ecoli_yaml.c"), ("enode_table (anchors)", "src/ecoli_yaml.c"), ("ec_yaml_import", "src/ecoli_yaml.c")],
 "round-trip PBT: generated grammar -> generated YAML text -> import, compared with the grammar and its reference parser and completer; generated spoiled documents and mutated bytes; allocation-failure injection", BASE + " libyaml itself is trusted.",
 observe=["ec_yaml_import"])

prop("C18", "The interactive line editor offers, inserts and returns what the grammar says",
 "For every grammar and every line: the text that the completion key inserts is the longest extension common to all the completions of what precedes the cursor (with a separating space exactly when a single complete token results), otherwise the possible completions are displayed, sorted, in columns that fit the terminal; the help key shows one entry per expected item with its help text (and end of line when the line matches); the line returned by reading or parsing is exactly what was typed, without its end of line; the suggestions for a line that does not match are those valid at the error; the history holds the last distinct lines up to its size and is saved to and restored from its file. Nothing leaks or crashes, also when memory is exhausted, the input ends, or the history is changed.",
 ["inputs", "histories", "programs", "fault_sequences"], "every grammar, line, cursor position, key sequence, input stream and allocation failure",
 "The library's tests do not exercise the line editor at all.",
 ["src/ecoli_editline.c"],
 [("ec_editline_complete, ec_editline_help", "src/ecoli_editline.c"), ("ec_editline_get_helps/get_completions/append_chars/get_suggestions", "src/ecoli_editline.c"), ("ec_editline_gets, ec_editline_parse, ec_editline_set_history", "src/ecoli_editline.c")],
 "model-based PBT: generated grammars, lines and key sequences on a pseudo-terminal or pipe, oracle recomputed from the completion list and reference completer; allocation-failure injection", BASE + " libedit itself is trusted.",
 observe=["ec_editline_*"])

prop("C19", "Start-up, allocator, node-type and log registries do what was registered",
 "Init callbacks run once each, in increasing priority, up to the first failure, which is reported; exit callbacks run in the reverse order. A user allocator can be set only before initialization, with its three functions, and then every block the library allocates comes from it and goes back to it, every block being given back once objects are freed. A node type is found under its name as last registered, cannot be replaced without override, and existing nodes keep their type. A log type keeps one identifier per name; each message is formatted and given exactly once to the registered function (with its type, level and opaque pointer) or, by default, written when its level is within the threshold.",
 ["histories", "inputs"], "every set of callbacks and priorities, every registration and log history, every grammar used with a user allocator",
 "Registration order and history decide; the test binary uses one fixed order.",
 ["src/ecoli_init.c", "src/ecoli_malloc.c", "src/ecoli_log.c", "src/ecoli_node.c"],
 [("ec_init_register, ec_init, ec_exit", "src/ecoli_init.c"), ("ec_malloc_register, __ec_*", "src/ecoli_malloc.c"), ("ec_log_*, ec_vlog", "src/ecoli_log.c"), ("ec_node_type_register/lookup/dump", "src/ecoli_node.c")],
 "stateful model-based PBT, one forked process per history, recording callbacks and a block-accounting allocator", BASE,
 observe=["ec_init*", "ec_exit", "ec_malloc_register", "ec_log*", "ec_node_type_*"])

prop("C11", "Answers depend only on the grammar and the input, and stay as given",
 "Whatever was parsed, completed, dumped or abandoned half way (allocation failure) before with the same grammar, and whatever was done with earlier answers (kept, edited, freed), parsing or completing an input gives the same tree and the same completions as a fresh copy of the grammar. Parsing and completing modify neither the grammar nor the input vector; trees and completion lists already given do not change.",
 ["histories", "programs", "fault_sequences"], "every grammar and every interleaving of questions, failures and uses of the answers",
 "Tests ask each question once on a fresh grammar.",
 ["src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node.c"] + NODES,
 [("ec_parse_strvec, __ec_parse_child", "src/ecoli_parse.c"), ("ec_complete_strvec", "src/ecoli_complete.c")],
 "stateful metamorphic PBT: histories of questions on one grammar compared with fresh copies of it", BASE,
 observe=["ec_parse_strvec", "ec_complete_strvec", "ec_pnode_*", "ec_node_dump"])

prop("C20", "File name completion offers exactly the matching directory entries",
 "For every directory content and typed path (relative, absolute, through . and .., links or repeated slashes), completing a file node offers exactly the entries of the designated directory whose name starts with the last component, hidden entries only when that component starts with a dot; directories are partial completions ending with a slash, other entries are full completions; only the name is displayed. It does so anywhere in a grammar, also when the file system does not tell the type of entries. An error while reading the directory, or an allocation failure, is reported and never gives a truncated list; no file descriptor or memory leaks.",
 ["inputs", "configurations", "fault_sequences"], "every directory tree, typed path, file system behaviour, I/O and allocation failure",
 "The test replaces the system calls by one fixed directory.",
 ["src/ecoli_node_file.c"],
 [("ec_node_file_complete, split_path", "src/ecoli_node_file.c")],
 "PBT on generated scratch directories, oracle from the directory content; fault injection in readdir/opendir (linked stand-ins) and in the allocator", BASE,
 observe=["ec_complete_strvec"])

prop("C21", "Accessors, searches and dumps show grammars and results as they are",
 "For every grammar (shared and recursive nodes included), the accessors of each node give its type, identifier, description and children in order; searching an identifier from a node finds a reachable node with it exactly when there is one; dumping a grammar ends, shows each reachable node once with its children indented below it and marks repeated nodes; dumping or iterating a parse tree shows every node in order with its tokens; dumping a completion list shows its counts and every item.",
 ["programs", "inputs"], "every grammar graph, parse tree and completion list",
 "The tests dump a few graphs without looking at the output.",
 ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_strvec.c"],
 [("ec_node_dump, ec_node_find, ec_node_get_child", "src/ecoli_node.c"), ("ec_pnode_dump, EC_PNODE_ITER_NEXT", "src/ecoli_parse.c"), ("ec_comp_dump", "src/ecoli_complete.c")],
 "PBT: outputs compared with renderings of the generated grammar and of the results", BASE,
 observe=["ec_node_dump", "ec_node_find", "ec_node_get_child", "ec_pnode_dump", "ec_comp_dump"])

prop("C22", "Node types of an application work anywhere in a grammar like built-in ones",
 "For every grammar mixing built-in nodes with nodes of types an application registers: its parse callback is given its own empty parse state, linked last below that of its parent, whose ancestors and preceding nodes show what is being parsed; ec_parse_child adds exactly the matching child with the strings it consumed, and leaves the state as it was when the child does not match or fails; its complete callback starts with a group of its own, keeps it across ec_complete_child, and its items come in that one group in the order added; a type without complete callback offers an unknown item, one without parse callback cannot be parsed (ENOTSUP); an error from a callback aborts the whole parse or completion and its errno reaches the caller; the private area starts zeroed and is initialised and freed exactly once; a refused configuration changes nothing.",
 ["programs", "inputs", "fault_sequences"], "every grammar mixing built-in and application types, every input, every callback failing",
 "The tests define no node type of their own.",
 ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node_helper.c", "include/ecoli_node.h"],
 [("__ec_parse_child", "src/ecoli_parse.c"), ("ec_complete_child, ec_comp_item_add, ec_complete_unknown", "src/ecoli_complete.c"), ("ec_node_from_type, ec_node_free, ec_node_set_config, ec_node_desc", "src/ecoli_node.c"), ("ec_node_config_node_list_to_table", "src/ecoli_node_helper.c")],
 "model-based PBT: node types with self-checking callbacks in random grammars vs. the reference parser and completer; failing callbacks", BASE,
 observe=["ec_parse_strvec", "ec_complete_strvec", "ec_node_from_type", "ec_node_set_config"])

# MORE

def main():
    have = {os.path.basename(f)[:3] for f in glob.glob(V + "/props/C[0-9][0-9]_*.cpp")}
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the checks drive the public API of the library built from the working tree."}
    for p in P:
        if p["id"] in have:
            m["checks"].append({"property": p["id"], "quick_cmd": "bash bin/check " + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough bash bin/check " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
main()
