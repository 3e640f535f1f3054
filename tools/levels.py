P = "deductive verification (Verus) of the extracted real functions against contracts; concrete failing inputs searched against an independent oracle"
B = "bounded: differential search of the real code against an independent oracle (stand-in where no contract is in reach)"
LV = {
 "C01": ("proof", P, "pad_string proved for every string and size; the JavaScript binding padString is proved to return its bytes (model of js_sys::Array assumed) and also run in node (bounded)."),
 "C04": ("proof", P, "From the automaton the library builds to the graph: every function between create_dfa_graph_from_regex and parse_char proved, and that the graph accepts the strings the pattern matches, relative to the assumption on the library stated as axiom_dfa. The library itself is covered by the bounded search."),
 "C05": ("proof", P, "get_regex_and_dfa and everything it calls proved: numbering, determinism, and the language of the composition (a lemma over the contracts)."),
 "C06": ("proof", P, "process_public_regex and its helpers, and get_regex_and_dfa which publishes their results, proved (parts that do not re-enter their start)."),
 "C07": ("proof", P, "Anchor splitting and the anchor automata proved; that the circuit realises them is covered by the bounded search. Two known findings."),
 "C11": ("proof", P, "Every function that writes the circuit proved, for every automaton with a start that is not accepting and published ranges that fit: each cell that is written is written once and declared, what is read is an input or written, each input of each instance is written once, for every message length. The order of the statements, and circom's own view of the text, are covered by the bounded search."),
 "C12": ("proof", P, "Both table writers and generate_outputs proved: the exact bytes of every table, for every automaton and publication; what the operating system does with a successful write is assumed."),
 "C15": ("proof", P, "Every library entry point proved to write exactly the requested files; which call made a text is recorded by an assumed relation. The command line and the compiler's JavaScript bindings are proved to pass every option on (clap, serde and wasm-bindgen assumed) and are also executed (bounded)."),
 "C14": ("proof", P, "Freedom from panics proved for every function under contract; the remaining functions are covered by the bounded search."),
 "C08": ("proof", P, "Every function that writes the circuit proved, for every automaton: any assignment that satisfies the written statements scans the message. The statement meaning of each generated text line is trusted (vlib/textsem.py), the gates are proved with them; that a satisfying assignment exists is covered by the bounded search."),
 "C09": ("proof", P, "As C08, with the accept logic: the output of every satisfying assignment, and an error without exactly one accept state, proved for every automaton."),
 "C10": ("proof", P, "As C08, with the substring constraints: what every satisfying assignment reveals, for every automaton and published transition set, proved. Combination with the published sets is C06."),
 "C13": ("proof", P, "Each template of regex_helpers.circom is translated on every run into its constraint system (vlib/gates.py) and its contract proved for every arity and every satisfying assignment; circomlib's IsZero, OR, AND are assumed, satisfiability is covered by the bounded evaluation."),
 "C02": ("proof", P, "extract_substr_idxes and extract_substr proved relative to assumed contracts of fancy_regex (which leftmost match a pattern has, its groups; axiom_groups: the wrapping groups of a match follow one another). The JavaScript bindings are proved to return the same lists or throw. The library itself is covered by the bounded search against an independent matcher."),
 "C03": ("proof", P, "Every preset proved to be extract_substr_idxes of the definition file of its field with private parts hidden. The ten JavaScript presets are proved to be the presets of their names. The meaning of the definition files and the shipped circuits are compared in the bounded search."),
}
