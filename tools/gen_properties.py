#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements are edited in one place).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
R="packages/compiler/src/regex.rs"; C="packages/compiler/src/circom.rs"; H="packages/compiler/src/halo2.rs"; L="packages/compiler/src/lib.rs"
S="packages/compiler/src/structs.rs"; X="packages/apis/src/extract_substrs.rs"; PD="packages/apis/src/padding.rs"; HC="packages/circom/circuits/regex_helpers.circom"
p("C01","Padding keeps the text and fills the rest with zero bytes",
  "Padding a string to a size of at least its byte length returns exactly that many bytes: the string's UTF-8 bytes, unchanged and in order, followed only by zero bytes.",
  ["inputs"],"every string and every size not smaller than its byte length",
  "No test calls the padding function; a sampled length cannot settle all strings and sizes (multi-byte text, exact fit, empty text).",
  [PD,"packages/apis/src/wasm.rs"],[("pad_string",PD)],["return value of pad_string"])
p("C02","Substring extraction returns the parts' spans in the first match",
  "For a decomposed regex, extraction finds the leftmost match of the concatenation of all parts and returns, in part order, the byte span matched by each public part (of every part when private parts are to be revealed), spans of consecutive parts being adjacent; the string variant returns exactly the text at those spans. No match, or an invalid part, is reported as an error naming the failing part, never as a wrong span or a panic.",
  ["inputs","configurations"],"every input string, every list of parts (with arbitrary groups, escapes, classes, alternations; without numbered back-references), every public/private assignment and both values of the reveal flag",
  "The tests use about ten fixed regex/text pairs, none with literal parentheses, nested groups or multi-byte text at the boundaries.",
  [X,"packages/apis/src/wasm.rs"],[("extract_substr_idxes / extract_substr",X)],["returned spans, strings and errors"])
p("C03","Preset extractors apply the published decomposed definition of their field",
  "Each ready-made extractor (e-mail address and domain, from/to header and address, subject, body hash, timestamp, message id) returns exactly what generic extraction returns for the decomposed definition published for that field, revealing public parts only, and each shipped circuit of such a field accepts the same texts and reveals the same substring as that definition.",
  ["inputs"],"every input text, every preset",
  "Tests run six presets on one text each; to_all, to_addr and subject_all are never executed, and the shipped circuits are not compared with the definitions.",
  [X,"packages/apis/src/wasm.rs","packages/apis/src/decomposed_defs"],[("extract_*_idxes",X)],["return values of the preset extractors"])
p("C04","The automaton of a regex accepts exactly the strings the regex matches",
  "For every regex without inner anchors, the automaton graph built from it is deterministic and accepts a byte string if and only if the regex matches that whole string; every byte of every transition is attributed to the right target state.",
  ["inputs","configurations"],"every supported regex (literals, classes, ranges, repetitions, alternations, escapes, non-ASCII text) and every byte string",
  "The tests check a fixed list of about 20 regexes on a few strings each; bytes whose printed form is special (quotes, '-', '=', ',', '\\\\', control and non-ASCII bytes) are barely covered.",
  [R],[("parse_states / parse_transition / handle_eoi_transitions / find_start_state",R),("sort_and_rename_states",R),("parse_char / process_edge / process_state_edges",R),("convert_dfa_to_graph",R)],["allstr.txt of a single-part regex; match_string_with_dfa_graph"],
  [("DFAGraph","states with index, accept mark and target->bytes map",S)])
p("C05","Composing parts yields a well-formed automaton for their concatenation",
  "The automaton composed from a decomposed regex has states numbered 0..n-1 with every transition leading to an existing state and at most one target per state and byte; it keeps every state of the earlier parts, and its only accept states are those inherited from the last part. If no part after the first re-enters its own start and no byte continues one part and starts the next, it accepts exactly the concatenation of the parts' languages; with such byte overlaps it still accepts nothing outside it.",
  ["inputs","configurations"],"every decomposed regex (any number of parts, any part automata), every byte string",
  "No test composes parts at all on the compiler side; the claim ranges over all part automata and all strings.",
  [R],[("get_regex_and_dfa",R),("rename_states",R),("add_dfa / process_accept_state / merge_edges / update_state_type",R)],["allstr.txt; the composed automaton"],
  [("net_dfa_graph","automaton of the parts so far",R)])
p("C06","Public transitions and boundaries of each public part are exact",
  "For the i-th public part, the i-th published transition set is exactly the set of transitions of the composed automaton that belong to that part, those leaving its start being attributed to every state in which the preceding parts end; the published start states are exactly those end states and the published end states exactly the states in which the part ends. Private parts publish nothing.",
  ["inputs","configurations"],"every decomposed regex with any public/private assignment in which no part re-enters its own start state",
  "No test looks at the published transitions or boundaries.",
  [R,H],[("process_public_regex / collect_accepting_states / collect_public_edges / collect_substr_ends / update_public_edges",R)],["substr_i.txt; the substring comment and reveal logic in the circom output"])
p("C07","Anchors bind a match to the message start and end, and are split correctly",
  "A leading ^ (alone or as an alternative of the first group) makes the automaton consume the start-of-message marker byte 255 exactly there, so that the match is tied to the message start, and the private prefix containing it is split off without changing the rest; characters ^ and $ that are escaped or inside a class are not anchors. An unescaped $ at the end of the last part ties the match to the end of the message, and an unescaped $ ending any other part is rejected as an error.",
  ["inputs","configurations"],"every decomposed regex with an anchor in a documented position, every message",
  "No compiler test uses an anchor.",
  [R,C],[("find_caret_index / process_caret_in_regex / handle_caret_regex / modify_graph_for_caret / create_simple_caret_graph",R),("validate_end_anchor",R),("generate_accept_logic",C)],["circuit output on messages with the pattern at, before and after the anchored position"])
p("C08","The circuit's constraints force its state signals to follow the automaton",
  "In every witness that satisfies the generated constraints, the state signals after each byte are exactly those of the scan that advances every active automaton state by that byte and restarts from the initial state if and only if none survives; a zero byte is consumed by no transition. In particular a match is signalled only if some substring of the message (or of marker and message) is accepted by the automaton.",
  ["inputs","configurations"],"every automaton with at least two states whose accept state is not the start (any number of states, any byte sets on its transitions), every message length, every message and every satisfying witness",
  "No test compiles or evaluates a generated circuit in this environment, and none checks all witnesses.",
  [C,HC],[("generate_state_transition_logic",C),("add_range_check / add_eq_check / add_state_transition / add_state_update",C),("add_from_zero_enabled / add_zero_starting_state_updates / add_state_changed_updates",C),("optimize_char_ranges / build_reverse_graph",C)],["generated circom constraints"],
  [("states[i][j]","automaton state j is active after i bytes","generated circom")])
p("C09","The match output is set exactly when the accept state is reached",
  "The circuit's output is 1 if and only if the automaton's accept state becomes active at some position and, with an end anchor, is active when the message's non-zero bytes are exhausted; otherwise it is 0. An automaton without exactly one accept state is rejected with an error instead of yielding a circuit.",
  ["inputs","configurations"],"every automaton with at least two states whose accept state is not the start, every message and every satisfying witness, with and without end anchor, including a message that fills the buffer",
  "No test evaluates a circuit output or generates from an automaton with zero or several accept states.",
  [C],[("generate_accept_logic",C),("build_reverse_graph",C),("get_accepted_state",R)],["signal out; error result of generation"])
p("C10","Revealed bytes are exactly the matched bytes of the public transitions",
  "For each public substring and each message position, the reveal output is that message byte if the circuit matched, the byte was consumed by one of that substring's published transitions, and the scan continued from there without restart up to the accept state; otherwise it is 0. The k-th reveal output uses exactly the k-th published transition set.",
  ["inputs","configurations"],"every automaton with at least two states whose accept state is not the start, every list of non-empty transition sets, every message and every satisfying witness",
  "No test evaluates reveal outputs of generated circuits.",
  [C],[("write_consecutive_logic / write_substr_logic / write_prev_states / write_is_substr / write_is_reveal_and_reveal / sort_ranges / add_substrs_constraints",C)],["signals reveal<k>"])
p("C11","Generated circuits are closed and fully constrained",
  "Every generated circuit is a complete template in which each declared signal and component input that is used is assigned by exactly one constraint for every message length, every index stays within its declared size, and no signal is assigned without being constrained; the text carries the pattern only as a comment that cannot be broken out of by line breaks in the pattern.",
  ["inputs","configurations"],"every automaton with at least two states and one accept state other than the start, every list of non-empty transition sets, with and without substring constraints and end anchor, every message length",
  "No test parses the generated text; a missing constraint leaves all honest witnesses valid and is invisible to example-based tests.",
  [C],[("generate_declarations / generate_init_code / gen_circom_allstr / gen_circom_template / gen_circom_string",C),("generate_state_transition_logic",C)],["generated circom text"])
p("C12","Halo2 tables list exactly the automaton and the public transitions",
  "The main table states initial state 0, the accept state and the largest state number, followed by exactly one row per (state, target, byte) of the automaton; the table of the k-th public substring states its start states, its end states and then exactly its transitions, once each and sorted. An automaton without accept state, or missing boundaries, yields an error.",
  ["inputs","configurations"],"every automaton and every set of substring definitions",
  "No test generates or reads a Halo2 table.",
  [H,L],[("dfa_to_regex_def_text / gen_halo2_tables",H),("get_accepted_state / get_max_state",R),("generate_outputs",L)],["allstr.txt, substr_k.txt"])
p("C13","Circuit helper gates compute their boolean function",
  "For every arity and every satisfying witness, the multi-input OR gate outputs 1 if and only if some input is non-zero given 0/1 inputs, the NOR gate its negation, the or-and gate (a or b) and c, and the non-zero accumulator adds 1 exactly for a non-zero byte.",
  ["inputs","configurations"],"every arity below the field size, every 0/1 input vector, every field element for the accumulator's byte, every witness satisfying the constraints",
  "The repository's circuit tests need an external circom compiler and only compare sample outputs; they cannot show that no other witness satisfies the constraints.",
  [HC],[("MultiOR / MultiNOR / ORAnd / IsNotZeroAcc",HC)],["template outputs"])
p("C14","Malformed definitions are reported as errors, never as panics",
  "Compiling any decomposed regex, raw regex or substring-definition file either succeeds or returns an error: no definition, however malformed (no parts, unbalanced groups, dangling escapes, invalid syntax, empty language, misplaced anchors, missing boundaries), makes the compiler panic.",
  ["inputs","configurations"],"every list of parts with arbitrary strings as regexes, every raw regex, every definition file content, both output kinds",
  "No test feeds the compiler a malformed definition.",
  [R,C,H,L],[("find_caret_index / process_caret_in_regex",R),("parse_char / process_edge / parse_transition",R),("build_reverse_graph / generate_accept_logic",C),("load_substring_definitions_json / generate_outputs",L)],["result of the gen_* entry points"])
p("C15","Entry points write exactly the requested outputs with the documented defaults",
  "Each generation entry point writes exactly the requested files, with the requested template name and pattern: the circom text of the automaton plus, if and only if substrings are requested (default: no for decomposed, yes for raw), the substring constraints, and the Halo2 tables with one substring file per public part under the same rule. Every entry point given the same definition produces the same automaton and circuit.",
  ["inputs","configurations"],"every definition, every combination of output paths, template name and substring flag, every entry point",
  "No test calls an entry point of the compiler.",
  [L,C,H,"packages/compiler/src/bin/compiler.rs","packages/compiler/src/wasm.rs"],[("gen_from_decomposed / gen_from_raw / gen_circom_from_decomposed_regex / generate_outputs / load_substring_definitions_json",L),("gen_circom_template / gen_circom_string",C)],["files written and their content"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
