From 69964f20ee494bf89e647483ffb05213e6e8c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 01/15] fix: close the circom template when no substring
 constraints are generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..b30ed6e 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -980,6 +980,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From 5debd0c304e9a4fc217523d08b2ff26d6d6b5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 02/15] fix: group a raw regex before anchoring it, so a
 top-level alternation is anchored as a whole

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..9f08e41 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1014,7 +1014,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From ca10bc44a51d5e4f35244cff936b4232211cab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 03/15] fix: find the caret of a part with nested groups,
 character classes or a malformed tail

---
 packages/compiler/src/regex.rs | 37 +++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9f08e41..de4ce9c 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -40,7 +40,8 @@ fn create_dfa_config() -> Config {
 /// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut parenthesis_depth = 0usize;
+    let mut class_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
@@ -49,25 +50,37 @@ fn find_caret_index(regex: &str) -> Option<usize> {
             b'\\' => {
                 idx += 2;
             }
-            b'(' => {
-                is_in_parenthesis = true;
+            b'[' => {
+                // A caret (negation) or a closing bracket right after the opening one
+                // belongs to the character class.
+                class_depth += 1;
                 idx += 1;
+                if regex_bytes.get(idx) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx) == Some(&b']') {
+                    idx += 1;
+                }
             }
-            b'[' => {
-                idx += 2;
+            b']' if class_depth > 0 => {
+                class_depth -= 1;
+                idx += 1;
+            }
+            b'(' if class_depth == 0 => {
+                parenthesis_depth += 1;
+                idx += 1;
             }
-            b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
+            b')' if class_depth == 0 => {
+                parenthesis_depth = parenthesis_depth.saturating_sub(1);
                 idx += 1;
-                if caret_found {
+                if caret_found && parenthesis_depth == 0 {
                     break;
                 }
             }
-            b'^' => {
+            b'^' if class_depth == 0 => {
                 caret_found = true;
                 idx += 1;
-                if !is_in_parenthesis {
+                if parenthesis_depth == 0 {
                     break;
                 }
             }
@@ -78,7 +91,7 @@ fn find_caret_index(regex: &str) -> Option<usize> {
     }
 
     if caret_found {
-        Some(idx)
+        Some(idx.min(regex_bytes.len()))
     } else {
         None
     }
-- 
2.43.0


From 3e4918abd71e6c00fb00e32f136c546276772359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 04/15] fix: report a decomposed regex without parts as an
 error

---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index de4ce9c..9a018b6 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -109,7 +109,10 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
+    let first_part = decomposed_regex.parts.front().ok_or_else(|| {
+        CompilerError::GenericError("Invalid regex, there must be at least one part".to_string())
+    })?;
+    let caret_position = find_caret_index(&first_part.regex_def);
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-- 
2.43.0


From 51bb57b9f26eed7fdfa5138cc01b4acea22700e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 05/15] fix: do not take an escaped dollar sign for the end
 anchor

---
 packages/compiler/src/regex.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9a018b6..ccd212b 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -127,6 +127,17 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks whether a regex ends with the end anchor ($), as opposed to an escaped dollar sign.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    match regex.strip_suffix('$') {
+        Some(rest) => {
+            let backslashes = rest.bytes().rev().take_while(|&b| b == b'\\').count();
+            backslashes % 2 == 0
+        }
+        None => false,
+    }
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -144,7 +155,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1111,7 +1122,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From 19fa8de7efcb94cf29c62428c9cbb8dfa371df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 06/15] fix: define no substring when a raw regex comes without
 substring definitions

---
 packages/compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..5b6b522 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -33,7 +33,7 @@ fn load_substring_definitions_json(
             serde_json::from_reader(file).map_err(CompilerError::JsonParseError)
         }
         None => Ok(SubstringDefinitionsJson {
-            transitions: vec![vec![]],
+            transitions: vec![],
         }),
     }
 }
-- 
2.43.0


From 47c41a60158fb5c2bd01d19f580af61bbc765608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 07/15] fix: report a missing accept state or missing substring
 boundaries in halo2 tables as an error

---
 packages/compiler/src/halo2.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..94c71c3 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,10 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result containing the text representation of the DFA, or a CompilerError if it accepts nothing.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +31,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -51,7 +52,7 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
@@ -64,7 +65,11 @@ pub(crate) fn gen_halo2_tables(
             .substrings
             .substring_boundaries
             .as_ref()
-            .unwrap()[idx];
+            .ok_or_else(|| {
+                CompilerError::GenericError(
+                    "Halo2 substring tables need a decomposed regex".to_string(),
+                )
+            })?[idx];
 
         writeln!(
             writer,
-- 
2.43.0


From 548b2c002d6cbbb1736a26fca77d822a3f141c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 08/15] fix: build no transition constraint for an edge that no
 message byte can take

---
 packages/compiler/src/circom.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b30ed6e..1a6c144 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -479,6 +479,10 @@ fn generate_state_transition_logic(
         zero_starting_and_idxes.insert(i, vec![]);
 
         for (prev_i, chars) in rev_graph.get(&i).unwrap_or(&BTreeMap::new()) {
+            // A padding byte (zero) never matches, so an edge without any other byte is dead.
+            if chars.iter().all(|&x| x == 0) {
+                continue;
+            }
             if *prev_i == 0 {
                 zero_starting_states.push(i);
             }
-- 
2.43.0


From 7ecc0f139ccdb5693f30c49a1e403797540ab3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 09/15] fix: accept an end-anchored match that ends with the
 last byte of a full message buffer

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 1a6c144..aa73eea 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -698,9 +698,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -710,7 +710,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From 164226a3e1494798b559e47f8853cc322624d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 10/15] fix: extract substrings of parts with escaped, classed
 or special parentheses

---
 packages/apis/src/extract_substrs.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..09d21f2 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -44,24 +44,26 @@ pub fn extract_substr_idxes(
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
     // Validate each regex part individually, to throw better errors
+    let mut group_counts = vec![];
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
-        })?;
+        let part_regex =
+            Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            })?;
+        // The group that wraps the part, and the groups within it
+        group_counts.push(part_regex.captures_len());
     }
 
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
     for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -72,13 +74,14 @@ pub fn extract_substr_idxes(
     let mut public_idxes = vec![];
 
     // Iterate over each part to extract the relevant indices
+    let mut group_index = 1; // Capture group indices are 1-based
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(group_index) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
+        group_index += group_counts[i];
     }
 
     Ok(public_idxes)
-- 
2.43.0


From 53bc67f6dafde0263b9b50fee7dbad2daedf399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 11/15] fix: free -h for the Halo2 directory, which the help
 flag of the subcommands also claimed

---
 packages/compiler/src/bin/compiler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..67a674a 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -57,7 +57,10 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    #[command(disable_help_flag = true)]
     Decomposed {
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
         #[arg(short, long)]
         decomposed_regex_path: String,
         #[arg(short, long)]
@@ -69,7 +72,10 @@ enum Commands {
         #[arg(short, long)]
         gen_substrs: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
         #[arg(short, long)]
         raw_regex: String,
         #[arg(short, long)]
@@ -100,6 +106,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +130,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From 03ce8349c891c59219a2871ffe32bf34a593c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 12/15] fix: end an empty public substring in the accepting
 states before it

---
 packages/compiler/src/regex.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index ccd212b..725c3b8 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -859,7 +859,13 @@ fn process_public_regex(
 
     let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
     let mut public_edges = collect_public_edges(graph);
-    let substring_ends = collect_substr_ends(graph);
+    let mut substring_ends = collect_substr_ends(graph);
+
+    // The start of a later part is not a state of its own: it stands for the accepting states
+    // of the parts before it.
+    if previous_max_state_id != 0 && substring_ends.remove(&previous_max_state_id) {
+        substring_ends.extend(&substring_starts);
+    }
 
     update_public_edges(&mut public_edges, previous_max_state_id, &accepting_states);
 
-- 
2.43.0


From a2a73d3735df2802665ad87e6a94743c4ab499fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 13/15] fix: report a regex that matches nothing as an error

---
 packages/compiler/src/regex.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 725c3b8..9a528a9 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -557,6 +557,12 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
     let start_state = find_start_state(&dfa_str)?;
     dfa_info = sort_and_rename_states(&mut dfa_info, start_state);
 
+    if dfa_info.states.is_empty() {
+        return Err(CompilerError::GraphError(
+            "The regex does not match any string".to_string(),
+        ));
+    }
+
     let mut graph = DFAGraph { states: Vec::new() };
     for state in &dfa_info.states {
         let edges = process_state_edges(&state.edges)?;
-- 
2.43.0


From d20f26cc99646c9d7accdae2ed80df22b2cc84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 14/15] fix: reject a regex whose end looks at a byte after the
 match instead of panicking

---
 packages/compiler/src/regex.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9a528a9..af96fd2 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -554,6 +554,19 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 
     handle_eoi_transitions(&mut dfa_info);
 
+    // A state without any transition is left out above. Only a line anchor, which looks at a byte
+    // outside of the match, makes a byte lead to such a state.
+    let state_ids: BTreeSet<usize> = dfa_info.states.iter().map(|state| state.source).collect();
+    for state in &dfa_info.states {
+        for dst in state.edges.values() {
+            if !state_ids.contains(dst) {
+                return Err(CompilerError::GraphError(
+                    "Line anchors are not supported at the end of a regex".to_string(),
+                ));
+            }
+        }
+    }
+
     let start_state = find_start_state(&dfa_str)?;
     dfa_info = sort_and_rename_states(&mut dfa_info, start_state);
 
-- 
2.43.0


From 4792ba3cafed1ae35463409b11a4c1f5c525fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:09 +0000
Subject: [PATCH 15/15] fix: report a halo2 substring table that could not be
 written

The buffered writer was dropped without being flushed, so a write error at
that point (for instance a full disk) was lost and the truncated table was
reported as success.
---
 packages/compiler/src/halo2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 94c71c3..062304a 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -95,6 +95,7 @@ pub(crate) fn gen_halo2_tables(
         for &(cur, next) in &sorted_defs {
             writeln!(writer, "{} {}", cur, next)?;
         }
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0

