From 592ab0d0523de40e5a21573b45f95d3ba5040afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 01/27] fix: bounded repetition in match and multipass patterns
 respects its upper bound

---
 src/translator/regexp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 57ac88d..c1dcf49 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -215,13 +215,18 @@ impl Regexp {
                 for _ in 0..*min {
                     regexp.emit(instructions, character_classes);
                 }
-                let pos = instructions.len();
-                instructions.push(Instruction::Split(pos + 1, 0));
+                // every repetition beyond `min` is optional, and skipping one skips all the
+                // remaining ones
+                let mut splits = Vec::new();
                 for _ in *min..*max {
+                    splits.push(instructions.len());
+                    instructions.push(Instruction::Split(0, 0));
                     regexp.emit(instructions, character_classes);
                 }
-                instructions.push(Instruction::Jump(pos));
-                instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                let end = instructions.len();
+                for pos in splits {
+                    instructions[pos] = Instruction::Split(pos + 1, end);
+                }
             }
             Regexp::Capture(regexp) => {
                 instructions.push(Instruction::CaptureStart);
-- 
2.43.0


From 9478dcd75a862f1df0bc56145b72dc7f3331d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 02/27] fix: negating a group that contains a negated pattern
 no longer panics

---
 src/translator/regexp.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index c1dcf49..aae1541 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -104,8 +104,9 @@ impl Regexp {
             // its negation can therefore never succeed.
             Regexp::Any => Regexp::Never,
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotCharacterClass(_) => unreachable!(),
+            // the parser rejects a direct double negation, but a negated group can still contain
+            // a negated class
+            Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
             Regexp::RepeatExactly(n, regexp) => Regexp::RepeatExactly(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeast(n, regexp) => Regexp::RepeatAtLeast(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeastAtMost(n, m, regexp) => {
@@ -114,14 +115,14 @@ impl Regexp {
             // unreachable: the parser rejects negating a capture before it reaches here
             Regexp::Capture(_) => unreachable!(),
             Regexp::String(s) => Regexp::NotString(s),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotString(_) => unreachable!(),
+            // the parser rejects a direct double negation, but a negated group can still contain
+            // a negated string
+            Regexp::NotString(s) => Regexp::String(s),
             // unreachable: only ever built from a match rule's `chars` operand, which is parsed
             // separately from `pre`/`post` as a plain string and never goes through `Pattern::Negate`
             Regexp::CaseInsensitiveString(_) => unreachable!(),
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::NotVariableEqual(slot, value) => Regexp::VariableEqual(slot, value),
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
-- 
2.43.0


From ff417059d30e607a2eb29f41373eb2585ace1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/27] fix: multipass variable comparisons other than equality
 no longer panic

---
 src/translator/context_pattern.rs |  7 +++----
 src/translator/regexp.rs          | 26 ++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index c34604f..efb11b6 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -54,10 +54,9 @@ impl Regexp {
             TestInstruction::Lookback { .. } => Regexp::Empty,
             TestInstruction::Variable { var, op, operand } => match op {
                 Operator::Eq => Regexp::VariableEqual(*var, *operand),
-                // FIXME: operands other than equal do not seem to exist in the wild (at least not
-                // in the tables that are shipped with liblouis), so maybe that feature should be
-                // removed
-                _ => todo!(),
+                Operator::Gt | Operator::Lt | Operator::GtEq | Operator::LtEq => {
+                    Regexp::VariableCompare(*var, op.clone(), *operand)
+                }
             },
             TestInstruction::String { s } => Regexp::String(s.to_string()),
             TestInstruction::Dots { dots } => Regexp::String(dots.to_string()),
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index aae1541..239661e 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -15,6 +15,7 @@ use std::collections::HashSet;
 
 use smallvec::SmallVec;
 
+use crate::parser::multipass::test::Operator;
 use crate::translator::{
     ResolvedTranslation,
     effect::Environment,
@@ -59,6 +60,8 @@ pub enum Regexp {
     VariableEqual(VariableIndex, u8),
     /// Check whether variable at index is not equal to given value
     NotVariableEqual(VariableIndex, u8),
+    /// Check how the variable at index compares to the given value
+    VariableCompare(VariableIndex, Operator, u8),
     Group(Box<Regexp>),
     /// To support empty captures, we need an empty AST
     Empty,
@@ -123,6 +126,13 @@ impl Regexp {
             Regexp::CaseInsensitiveString(_) => unreachable!(),
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
             Regexp::NotVariableEqual(slot, value) => Regexp::VariableEqual(slot, value),
+            Regexp::VariableCompare(slot, op, value) => match op {
+                Operator::Eq => Regexp::NotVariableEqual(slot, value),
+                Operator::Gt => Regexp::VariableCompare(slot, Operator::LtEq, value),
+                Operator::Lt => Regexp::VariableCompare(slot, Operator::GtEq, value),
+                Operator::GtEq => Regexp::VariableCompare(slot, Operator::Lt, value),
+                Operator::LtEq => Regexp::VariableCompare(slot, Operator::Gt, value),
+            },
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
@@ -255,6 +265,9 @@ impl Regexp {
             Regexp::NotVariableEqual(index, value) => {
                 instructions.push(Instruction::NotVariableEqual(*index, *value))
             }
+            Regexp::VariableCompare(index, op, value) => {
+                instructions.push(Instruction::VariableCompare(*index, op.clone(), *value))
+            }
             Regexp::Group(regexp) => {
                 regexp.emit(instructions, character_classes);
             }
@@ -303,6 +316,8 @@ pub enum Instruction {
     VariableEqual(VariableIndex, u8),
     /// Test whether a variable is not equal to a value
     NotVariableEqual(VariableIndex, u8),
+    /// Test how a variable compares to a value
+    VariableCompare(VariableIndex, Operator, u8),
     /// Zero-width assertion: succeeds only if there is no input left
     AssertEnd,
     /// Zero-width assertion: succeeds only if there is still input left
@@ -434,6 +449,17 @@ impl CompiledRegexp {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
+            Instruction::VariableCompare(var, ref op, expected) => {
+                if env.get(var).is_some_and(|&actual| match op {
+                    Operator::Eq => actual == expected,
+                    Operator::Gt => actual > expected,
+                    Operator::Lt => actual < expected,
+                    Operator::GtEq => actual >= expected,
+                    Operator::LtEq => actual <= expected,
+                }) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
             Instruction::AssertEnd => {
                 if sp == input_len {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
-- 
2.43.0


From 569d392a9792582a4e85002486abff855fd5a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 04/27] fix: the order of equally weighted candidates no longer
 depends on hash seeds

---
 src/translator/trie.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..bbb68cf 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -1,6 +1,6 @@
 //! Store and find simple translation rules using a prefix tree ([Trie](https://en.wikipedia.org/wiki/Trie))
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::{
     parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence},
@@ -11,7 +11,7 @@ use super::ResolvedTranslation;
 
 /// The union of one or more character classes, pre-resolved to their actual member
 /// characters.
-#[derive(Debug, PartialEq, Eq, Hash, Clone, Default)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
 pub struct ResolvedClasses {
     /// The characters contained in this character class
     chars: Vec<char>,
@@ -58,7 +58,7 @@ pub enum Transition {
 
 /// The resolved, trie-internal counterpart of [`Transition`] plus the transitions that only ever
 /// arise while inserting a plain character sequence.
-#[derive(Debug, PartialEq, Eq, Hash, Clone)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
 enum ResolvedTransition {
     Character(char),
     Start(ResolvedClasses),
@@ -78,7 +78,8 @@ pub enum ClassConstraint {
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
-    transitions: HashMap<ResolvedTransition, TrieNode>,
+    /// Ordered, so that equally good candidates are always found in the same order
+    transitions: BTreeMap<ResolvedTransition, TrieNode>,
 }
 
 impl TrieNode {
-- 
2.43.0


From 87bcc7d36cf785b6a73a9989764c9d0fc5917b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 05/27] fix: trace and query print unordered sets in a stable
 order

---
 src/metadata.rs              |  6 +++---
 src/parser/match_rule.rs     | 26 ++++++++++++--------------
 src/parser/multipass/test.rs |  9 +++++----
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 37d1928..b04d009 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeSet, HashMap, HashSet},
     fs,
     path::PathBuf,
 };
@@ -16,11 +16,11 @@ type Query = Vec<(String, String)>;
 
 type Index = HashMap<(String, String), HashSet<PathBuf>>;
 
-pub fn find(index: &Index, query: Query) -> HashSet<&PathBuf> {
+pub fn find(index: &Index, query: Query) -> BTreeSet<&PathBuf> {
     let candidates: Vec<_> = query.into_iter().map(|(k, v)| index.get(&(k, v))).collect();
     // if any of the queries was not found in the index then the whole query is empty
     if candidates.iter().any(|c| c.is_none()) {
-        HashSet::new()
+        BTreeSet::new()
     } else {
         let candidates: Vec<_> = candidates.iter().flatten().collect();
         // get the intersection of all sets
diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 8e48c46..501eee7 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -88,24 +88,22 @@ impl std::fmt::Display for Pattern {
             Pattern::Boundary(Side::Post) => write!(f, "$"),
             Pattern::Any => write!(f, "."),
             Pattern::Set(chars) => {
-                write!(f, "[")?;
-                for c in chars {
-                    write!(f, "{}", c)?;
-                }
-                write!(f, "]")?;
-                Ok(())
+                // a set has no order of its own, so always print it in the same one
+                let mut chars: Vec<char> = chars.iter().copied().collect();
+                chars.sort_unstable();
+                write!(f, "[{}]", chars.into_iter().collect::<String>())
             }
             Pattern::Attributes(attributes) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                Ok(())
+                let mut attributes: Vec<String> =
+                    attributes.iter().map(|attr| attr.to_string()).collect();
+                attributes.sort_unstable();
+                write!(f, "{}", attributes.concat())
             }
             Pattern::AttributesOrBoundary(attributes, side) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                write!(f, "{}", Pattern::Boundary(*side))
+                let mut attributes: Vec<String> =
+                    attributes.iter().map(|attr| attr.to_string()).collect();
+                attributes.sort_unstable();
+                write!(f, "{}{}", attributes.concat(), Pattern::Boundary(*side))
             }
             Pattern::Group(patterns) => write!(f, "({})", patterns),
             Pattern::Negate(pattern) => write!(f, "!{}", pattern),
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 0d05eee..9715e4c 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -554,10 +554,11 @@ mod display {
                     write!(f, "@{}", dots)
                 }
                 TestInstruction::Attributes { attrs, quantifier } => {
-                    write!(f, "$")?;
-                    for attr in attrs {
-                        write!(f, "{}", attr)?;
-                    }
+                    // a set has no order of its own, so always print it in the same one
+                    let mut attrs: Vec<String> =
+                        attrs.iter().map(|attr| attr.to_string()).collect();
+                    attrs.sort_unstable();
+                    write!(f, "${}", attrs.concat())?;
                     if let Some(q) = quantifier {
                         write!(f, "{}", q)?;
                     }
-- 
2.43.0


From 534f1177a9c73d612b24b50cadbe493d99273e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 06/27] fix: querying with a term that lacks a value no longer
 panics

---
 src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 31c1fff..ff3ca7e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -438,14 +438,15 @@ fn main() {
         } => check_yaml(yaml_files, summary),
         Commands::Query { query } => match metadata::index() {
             Ok(index) => {
-                let query = query
+                let query: Option<Vec<_>> = query
                     .split(',')
-                    .map(|s| {
-                        let parts: Vec<_> = s.split('=').collect();
-                        (parts[0].to_string(), parts[1].to_string())
-                    })
+                    .map(|s| s.split_once('='))
+                    .map(|pair| pair.map(|(k, v)| (k.to_string(), v.to_string())))
                     .collect();
-                println!("{:?}", metadata::find(&index, query));
+                match query {
+                    Some(query) => println!("{:?}", metadata::find(&index, query)),
+                    None => eprintln!("Invalid query: expected key=value[,key=value...]"),
+                }
             }
             Err(e) => {
                 eprint!("Could not index all tables: {:?}", e)
-- 
2.43.0


From 74678f698fcee5b228b053074b3a49006bdae805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 07/27] fix: zero-length rules apply again after a character is
 passed through

---
 src/translator/table/multipass.rs | 1 +
 src/translator/table/primary.rs   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index 03353c0..d0c060f 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -160,6 +160,7 @@ impl MultipassTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 // no translation rule found, just pass the character through
                 let translation = ResolvedTranslation::new(
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 5b027b7..150a275 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1619,6 +1619,7 @@ impl PrimaryTable {
             {
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
+                seen.clear();
                 // move the iterator forward by the number of characters in the translation
                 chars.nth(nocross.length() - 1);
                 prev = translation.input().chars().last();
@@ -1650,6 +1651,7 @@ impl PrimaryTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 char_pos += 1;
                 // no translation rule found
-- 
2.43.0


From 81e3e2c8b68d3b7332c502d9e3709d95261892a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 08/27] fix: tracing no longer panics on rules whose opcode had
 no printed form

---
 src/parser.rs | 108 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 107 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6dc7110..37ebdcc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -794,6 +794,12 @@ pub enum Rule {
     },
 }
 
+/// Join the given `items` with commas, the way the swap opcodes list their dot patterns
+fn comma_separated<T: std::fmt::Display>(items: impl IntoIterator<Item = T>) -> String {
+    let items: Vec<String> = items.into_iter().map(|item| item.to_string()).collect();
+    items.join(",")
+}
+
 impl std::fmt::Display for Rule {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -905,7 +911,98 @@ impl std::fmt::Display for Rule {
                 dots,
                 ..
             } => write!(f, "match {} {} {} {}", pre, chars, post, dots),
-            _ => todo!(),
+            Rule::Include { file } => write!(f, "include {}", file),
+            Rule::IncludeHyphenation { path } => write!(f, "include {}", path.display()),
+            Rule::Display {
+                character, dots, ..
+            } => write!(f, "display {} {}", character, dots),
+            Rule::Multind { dots, names, .. } => {
+                write!(f, "multind {} {}", dots, names.join(" "))
+            }
+            Rule::Grouping {
+                name,
+                chars,
+                left,
+                right,
+            } => write!(f, "grouping {} {} {},{}", name, chars, left, right),
+            Rule::Modeletter { name, dots, .. } => write!(f, "modeletter {} {}", name, dots),
+            Rule::Begmodeword { name, dots, .. } => write!(f, "begmodeword {} {}", name, dots),
+            Rule::Capsmodechars { chars } => write!(f, "capsmodechars {}", chars),
+            Rule::Begcapsphrase { dots } => write!(f, "begcapsphrase {}", dots),
+            Rule::Endcapsphrase { position, dots } => {
+                write!(f, "endcapsphrase {} {}", position, dots)
+            }
+            Rule::Lencapsphrase { number } => write!(f, "lencapsphrase {}", number),
+            Rule::Noletsignbefore { chars } => write!(f, "noletsignbefore {}", chars),
+            Rule::Noletsignafter { chars } => write!(f, "noletsignafter {}", chars),
+            Rule::Numericnocontchars { chars } => write!(f, "numericnocontchars {}", chars),
+            Rule::Numericmodechars { chars } => write!(f, "numericmodechars {}", chars),
+            Rule::Midendnumericmodechars { chars } => write!(f, "midendnumericmodechars {}", chars),
+            Rule::Begmodephrase { name, dots } => write!(f, "begmodephrase {} {}", name, dots),
+            Rule::Endmodephrase {
+                name,
+                position,
+                dots,
+            } => write!(f, "endmodephrase {} {} {}", name, position, dots),
+            Rule::Lenmodephrase { name, number } => write!(f, "lenmodephrase {} {}", name, number),
+            Rule::Seqdelimiter { chars } => write!(f, "seqdelimiter {}", chars),
+            Rule::Seqbeforechars { chars } => write!(f, "seqbeforechars {}", chars),
+            Rule::Seqafterchars { chars } => write!(f, "seqafterchars {}", chars),
+            Rule::Seqafterpattern { chars } => write!(f, "seqafterpattern {}", chars),
+            Rule::Seqafterexpression { chars } => write!(f, "seqafterexpression {}", chars),
+            Rule::Class { name, chars } => write!(f, "class {} {}", name, chars),
+            Rule::Emphclass { name } => write!(f, "emphclass {}", name),
+            Rule::Begemph { name, dots, .. } => write!(f, "begemph {} {}", name, dots),
+            Rule::Endemph { name, dots, .. } => write!(f, "endemph {} {}", name, dots),
+            Rule::Noemphchars { name, chars } => write!(f, "noemphchars {} {}", name, chars),
+            Rule::Emphletter { name, dots } => write!(f, "emphletter {} {}", name, dots),
+            Rule::Begemphword { name, dots } => write!(f, "begemphword {} {}", name, dots),
+            Rule::Endemphword { name, dots } => write!(f, "endemphword {} {}", name, dots),
+            Rule::Emphmodechars { name, chars } => write!(f, "emphmodechars {} {}", name, chars),
+            Rule::Begemphphrase { name, dots } => write!(f, "begemphphrase {} {}", name, dots),
+            Rule::Endemphphrase {
+                name,
+                position,
+                dots,
+            } => write!(f, "endemphphrase {} {} {}", name, position, dots),
+            Rule::Lenemphphrase { name, number } => write!(f, "lenemphphrase {} {}", name, number),
+            Rule::Begcomp { dots, .. } => write!(f, "begcomp {}", dots),
+            Rule::Endcomp { dots, .. } => write!(f, "endcomp {}", dots),
+            Rule::Capsnocont {} => write!(f, "capsnocont"),
+            Rule::Nocont { chars } => write!(f, "nocont {}", chars),
+            Rule::Replace { chars, replacement } => match replacement {
+                Some(replacement) => write!(f, "replace {} {}", chars, replacement),
+                None => write!(f, "replace {}", chars),
+            },
+            Rule::Repeated { chars, dots, .. } => write!(f, "repeated {} {}", chars, dots),
+            Rule::Repword { chars, dots } => write!(f, "repword {} {}", chars, dots),
+            Rule::Rependword { chars, dots, other } => {
+                write!(f, "rependword {} {},{}", chars, dots, other)
+            }
+            Rule::Syllable { chars, dots } => write!(f, "syllable {} {}", chars, dots),
+            Rule::Joinword { chars, dots } => write!(f, "joinword {} {}", chars, dots),
+            Rule::Lowword { chars, dots, .. } => write!(f, "lowword {} {}", chars, dots),
+            Rule::Exactdots { chars } => write!(f, "exactdots {}", chars),
+            Rule::Joinnum { chars, dots, .. } => write!(f, "joinnum {} {}", chars, dots),
+            Rule::Swapcd { name, chars, dots } => {
+                write!(f, "swapcd {} {} {}", name, chars, comma_separated(dots))
+            }
+            Rule::Swapdd {
+                name,
+                dots,
+                replacement,
+            } => write!(
+                f,
+                "swapdd {} {} {}",
+                name,
+                comma_separated(dots.iter()),
+                comma_separated(replacement)
+            ),
+            Rule::Swapcc {
+                name,
+                chars,
+                replacement,
+            } => write!(f, "swapcc {} {} {}", name, chars, replacement),
         }
     }
 }
@@ -1091,6 +1188,15 @@ pub enum Position {
     After,
 }
 
+impl std::fmt::Display for Position {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Position::Before => write!(f, "before"),
+            Position::After => write!(f, "after"),
+        }
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum EscapingContext {
     Default,
-- 
2.43.0


From 70b64cc5e975e7b5f55d28005ca876e53476b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 09/27] fix: the fallback cells for 3 and 9 are no longer the
 same

---
 src/parser/braille.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/braille.rs b/src/parser/braille.rs
index 544b971..6c803df 100644
--- a/src/parser/braille.rs
+++ b/src/parser/braille.rs
@@ -220,7 +220,7 @@ pub fn fallback(ch: char) -> char {
             '8',
             BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot3 | BrailleDot::Dot6),
         ),
-        ('9', BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot5)),
+        ('9', BrailleChar(BrailleDot::Dot3 | BrailleDot::Dot5)),
         ('a', BrailleChar(enum_set!(BrailleDot::Dot1))),
         ('b', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot2)),
         ('c', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot4)),
-- 
2.43.0


From 15af2f0cec4791a87895adb327311e1ade160805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 10/27] fix: classes defined with the class opcode take effect

---
 src/translator/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 34b7580..4111075 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -175,7 +175,7 @@ impl TableContext {
                         }
                     }
                 }
-                Rule::Attribute { name, chars } => {
+                Rule::Attribute { name, chars } | Rule::Class { name, chars } => {
                     let class = CharacterClass::from(name.as_str());
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
-- 
2.43.0


From ce06fdc158b336d27d2fa2ee5fc535f8586785d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 11/27] fix: swap classes also hold for the cells they stand
 for

---
 src/translator/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 4111075..3728e30 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -225,7 +225,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -243,7 +243,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -263,11 +263,7 @@ impl TableContext {
                     let class = CharacterClass::from(name.as_str());
                     for c in dots.to_string().chars() {
                         character_classes.insert(class.clone(), c);
-                        dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
-                            c,
-                            &character_definitions,
-                        );
+                        dots_classes.insert(class.clone(), c);
                     }
                     let replacements: Vec<String> =
                         replacement.iter().map(|b| b.to_string()).collect();
-- 
2.43.0


From 6603f24967ac905f061972cdb68639302ff14982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 12/27] fix: increment and decrement actions change their
 variable

---
 src/parser/multipass/action.rs    | 10 ++++++++--
 src/translator/context_pattern.rs |  9 +++++----
 src/translator/effect.rs          | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 5df2528..8b3d6f5 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -249,8 +249,14 @@ impl<'a> Parser<'a> {
                     value: self.ascii_number()?,
                 })
             }
-            Some('+') => Ok(ActionInstruction::Increment { variable }),
-            Some('-') => Ok(ActionInstruction::Decrement { variable }),
+            Some('+') => {
+                self.consume('+')?;
+                Ok(ActionInstruction::Increment { variable })
+            }
+            Some('-') => {
+                self.consume('-')?;
+                Ok(ActionInstruction::Decrement { variable })
+            }
             c => Err(ParseError::InvalidOperator { found: c.copied() }),
         }
     }
diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index efb11b6..bcad385 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -186,10 +186,11 @@ impl Effects {
     }
 
     fn from_instruction(value: ActionInstruction) -> Option<Effect> {
-        if let ActionInstruction::Assignment { variable, value } = value {
-            Some(Effect::new(variable, value))
-        } else {
-            None
+        match value {
+            ActionInstruction::Assignment { variable, value } => Some(Effect::new(variable, value)),
+            ActionInstruction::Increment { variable } => Some(Effect::increment(variable)),
+            ActionInstruction::Decrement { variable } => Some(Effect::decrement(variable)),
+            _ => None,
         }
     }
 }
diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index 3641d07..b494f28 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -20,6 +20,20 @@ impl Effect {
             kind: EffectKind::Set(value),
         }
     }
+
+    pub fn increment(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Increment,
+        }
+    }
+
+    pub fn decrement(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Decrement,
+        }
+    }
 }
 
 pub struct Environment(HashMap<u8, u8>);
@@ -37,7 +51,10 @@ impl Environment {
         let slot = effect.slot;
         match effect.kind {
             EffectKind::Increment => {
-                self.0.entry(slot).and_modify(|v| *v += 1).or_insert(1);
+                self.0
+                    .entry(slot)
+                    .and_modify(|v| *v = v.saturating_add(1))
+                    .or_insert(1);
             }
             EffectKind::Decrement => {
                 self.0
-- 
2.43.0


From fb969e3f2587b61573b4c40a005f719535340879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 13/27] fix: variables of context and multipass rules start out
 as zero

---
 src/translator/effect.rs | 5 +++--
 src/translator/regexp.rs | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index b494f28..0c72a80 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -43,8 +43,9 @@ impl Environment {
         Environment(HashMap::new())
     }
 
-    pub fn get(&self, slot: u8) -> Option<&u8> {
-        self.0.get(&slot)
+    /// The value of the variable `slot`. All variables start out as zero.
+    pub fn get(&self, slot: u8) -> u8 {
+        self.0.get(&slot).copied().unwrap_or_default()
     }
 
     pub fn apply(&mut self, effect: &Effect) {
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 239661e..5cbb3ee 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -440,23 +440,24 @@ impl CompiledRegexp {
                 self.add_thread(list, pc + 1, (capture.0, sp), sp, input_len, at_start, env)
             }
             Instruction::VariableEqual(var, expected) => {
-                if env.get(var) == Some(&expected) {
+                if env.get(var) == expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::NotVariableEqual(var, expected) => {
-                if env.get(var).is_some_and(|&actual| actual != expected) {
+                if env.get(var) != expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::VariableCompare(var, ref op, expected) => {
-                if env.get(var).is_some_and(|&actual| match op {
+                let actual = env.get(var);
+                if match op {
                     Operator::Eq => actual == expected,
                     Operator::Gt => actual > expected,
                     Operator::Lt => actual < expected,
                     Operator::GtEq => actual >= expected,
                     Operator::LtEq => actual <= expected,
-                }) {
+                } {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
-- 
2.43.0


From 5f44dc4df33326233739e63cc80d1862d62b3a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 14/27] fix: a rule that replaces a lower ranked one keeps its
 full weight

---
 src/translator/trie.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index bbb68cf..3942eac 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -234,7 +234,7 @@ impl Trie {
                 current_node.translation = Some(ResolvedTranslation::new(
                     from,
                     to,
-                    from.chars().count(),
+                    length,
                     stage,
                     origin.clone(),
                 ));
-- 
2.43.0


From cb91b3e3bfee06afba3ca5fa7b9afccd4c6e0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 15/27] fix: math and litdigit name the predefined classes

---
 src/parser/character_class.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/character_class.rs b/src/parser/character_class.rs
index a72da42..4623ff7 100644
--- a/src/parser/character_class.rs
+++ b/src/parser/character_class.rs
@@ -39,11 +39,13 @@ impl From<&str> for CharacterClass {
         match value {
             "space" => CharacterClass::Space,
             "digit" => CharacterClass::Digit,
+            "litdigit" => CharacterClass::Litdigit,
             "letter" => CharacterClass::Letter,
             "uppercase" => CharacterClass::Uppercase,
             "lowercase" => CharacterClass::Lowercase,
             "punctuation" => CharacterClass::Punctuation,
             "sign" => CharacterClass::Sign,
+            "math" => CharacterClass::Math,
             "seqdelimiter" => CharacterClass::Seqdelimiter,
             "seqbeforechars" => CharacterClass::Seqbeforechars,
             "seqafterchars" => CharacterClass::Seqafterchars,
-- 
2.43.0


From 815003b75a975ec5d1854283d24ca30188db76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 16/27] fix: rules with uppercase characters match like all
 others, ignoring case

---
 src/translator/trie.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 3942eac..63f1aa1 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -75,6 +75,16 @@ pub enum ClassConstraint {
     End(CharacterClass),
 }
 
+/// Character transitions are always case insensitive. Characters that do not map to a single
+/// lowercase character only match themselves.
+fn fold_case(c: char) -> char {
+    let mut lowercase = c.to_lowercase();
+    match (lowercase.next(), lowercase.next()) {
+        (Some(single), None) => single,
+        _ => c,
+    }
+}
+
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
@@ -84,15 +94,8 @@ struct TrieNode {
 
 impl TrieNode {
     fn char_transition(&self, c: char) -> Option<&TrieNode> {
-        // FIXME: we ignore characters that do not map to a single
-        // character lowercase character
-        if c.to_lowercase().count() != 1 {
-            return None;
-        };
-        // character transitions are always case insensitive
-        let lowercase = c.to_lowercase().next().unwrap();
         self.transitions
-            .get(&ResolvedTransition::Character(lowercase))
+            .get(&ResolvedTransition::Character(fold_case(c)))
     }
 
     fn any_transition(&self) -> Option<&TrieNode> {
@@ -207,7 +210,7 @@ impl Trie {
         for c in from.chars() {
             current_node = current_node
                 .transitions
-                .entry(ResolvedTransition::Character(c))
+                .entry(ResolvedTransition::Character(fold_case(c)))
                 .or_default();
         }
 
-- 
2.43.0


From d6d6cb9eea0e33fef1ed527390b81297cba49092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 17/27] fix: match the characters of a match rule regardless of
 their case

Only the character of the input was lowercased, so a match rule with an uppercase
character could never match.
---
 src/translator/regexp.rs | 20 ++++++++++----------
 src/translator/trie.rs   |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 5cbb3ee..64fddc6 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -20,12 +20,13 @@ use crate::translator::{
     ResolvedTranslation,
     effect::Environment,
     translation::{Resolve, Translation},
+    trie::fold_case,
 };
 
-/// Whether `actual` matches `expected` case-insensitively, lowercasing only `actual`.
-/// A character without a single-character lowercase mapping never matches.
+/// Whether `actual` matches `expected` case-insensitively. A character without a
+/// single-character lowercase mapping only matches itself.
 fn chars_match_case_insensitive(actual: char, expected: char) -> bool {
-    actual.to_lowercase().count() == 1 && actual.to_lowercase().next() == Some(expected)
+    fold_case(actual) == fold_case(expected)
 }
 
 /// Abstract syntax tree representation of regular expressions
@@ -48,13 +49,12 @@ pub enum Regexp {
     String(String),
     /// Convenience that is unrolled into a sequence of [`NotChar`](Instruction#variant.NotChar)
     NotString(String),
-    /// Like [`String`](Regexp::String), but each character is compared case-insensitively —
-    /// mirroring [`trie::TrieNode::char_transition`](crate::translator::trie::TrieNode), which
-    /// lowercases the *input* character before comparing against the (by table-author
-    /// convention, already lowercase) stored one, rather than folding both sides. liblouis' own
-    /// `match` opcode does the same for its literal `chars` field: it's found via the same
-    /// case-insensitive `validMatch`/`toLowercase` used for every other opcode, and only the
-    /// `pre`/`post` context patterns go through the strictly case-sensitive pattern matcher.
+    /// Like [`String`](Regexp::String), but each character is compared case-insensitively, just
+    /// like the characters of any other rule (see
+    /// [`trie::fold_case`](crate::translator::trie::fold_case)). liblouis' own `match` opcode does
+    /// the same for its literal `chars` field: it's found via the same case-insensitive
+    /// `validMatch`/`toLowercase` used for every other opcode, and only the `pre`/`post` context
+    /// patterns go through the strictly case-sensitive pattern matcher.
     CaseInsensitiveString(String),
     /// Check whether variable at index is equal to given value
     VariableEqual(VariableIndex, u8),
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 63f1aa1..ec10476 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -77,7 +77,7 @@ pub enum ClassConstraint {
 
 /// Character transitions are always case insensitive. Characters that do not map to a single
 /// lowercase character only match themselves.
-fn fold_case(c: char) -> char {
+pub fn fold_case(c: char) -> char {
     let mut lowercase = c.to_lowercase();
     match (lowercase.next(), lowercase.next()) {
         (Some(single), None) => single,
-- 
2.43.0


From 7fa0ea910200282c0eaf2d74e2a3a26bd24e0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 18/27] fix: let the attribute a of a test match any character

It was compiled to an empty character class, so a test with $a could never match.
---
 src/translator/context_pattern.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index bcad385..b035ff8 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -103,6 +103,7 @@ impl Regexp {
         ctx: &CharacterClasses,
     ) -> Self {
         let mut characters: HashSet<char> = HashSet::default();
+        let mut any = false;
         for attr in attrs {
             match attr {
                 Attribute::Class(class) => {
@@ -112,25 +113,24 @@ impl Regexp {
                 }
                 Attribute::Boundary => (),   // TODO
                 Attribute::ByOrder(_) => (), // TODO
-                Attribute::Any => (),        // TODO
+                Attribute::Any => any = true,
             }
         }
+        let characters = if any {
+            Regexp::Any
+        } else {
+            Regexp::CharacterClass(characters)
+        };
         if let Some(quantifier) = quantifier {
             match quantifier {
-                Quantifier::Number(n) => {
-                    Regexp::RepeatExactly(*n, Box::new(Regexp::CharacterClass(characters)))
-                }
-                Quantifier::Range(min, max) => Regexp::RepeatAtLeastAtMost(
-                    *min,
-                    *max,
-                    Box::new(Regexp::CharacterClass(characters)),
-                ),
-                Quantifier::OneOrMore => {
-                    Regexp::OneOrMore(Box::new(Regexp::CharacterClass(characters)))
+                Quantifier::Number(n) => Regexp::RepeatExactly(*n, Box::new(characters)),
+                Quantifier::Range(min, max) => {
+                    Regexp::RepeatAtLeastAtMost(*min, *max, Box::new(characters))
                 }
+                Quantifier::OneOrMore => Regexp::OneOrMore(Box::new(characters)),
             }
         } else {
-            Regexp::CharacterClass(characters)
+            characters
         }
     }
 }
-- 
2.43.0


From fcd06f90882d68f0a5a32538239d481051470001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 19/27] fix: report a missing class name as such

A line ending in before or after was reported as missing an opcode, the
error about the missing class name was thrown away.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 37ebdcc..97e9901 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1742,7 +1742,7 @@ impl<'a> RuleParser<'a> {
 
     pub fn rule(&mut self) -> Result<Rule, ParseError> {
         let constraints = self.constraints();
-        let classes = self.with_classes().unwrap_or_default().unwrap_or_default();
+        let classes = self.with_classes()?.unwrap_or_default();
         let matches = self.with_matches();
         let opcode = self.opcode()?;
         let rule = match opcode {
-- 
2.43.0


From 6657d0e670aa0349dfdb867a46b7a5c45ad02a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 20/27] fix: keep the precedence of a rule in the trie

A rule put into the trie was stored with the default precedence, so a
second rule for the same characters replaced the first one although the
first is to win, and an indicator replaced a translation rule although it
ranks below it.
---
 src/translator/translation.rs |  5 +++++
 src/translator/trie.rs        | 33 ++++++++++++---------------------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/translator/translation.rs b/src/translator/translation.rs
index 150a882..4d1209e 100644
--- a/src/translator/translation.rs
+++ b/src/translator/translation.rs
@@ -287,6 +287,11 @@ impl ResolvedTranslation {
         Self { weight, ..self }
     }
 
+    /// Set the `precedence` of a translation.
+    pub fn with_precedence(self, precedence: Precedence) -> Self {
+        Self { precedence, ..self }
+    }
+
     /// Set the `output` of a translation.
     pub fn with_output(self, output: &str) -> Self {
         Self {
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index ec10476..6bd525f 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -234,33 +234,24 @@ impl Trie {
         if let Some(translation) = &current_node.translation {
             // this node already contains a translation
             if precedence > translation.precedence() {
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(
+                    ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                        .with_precedence(precedence),
+                );
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
                 // last rule wins
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(
+                    ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                        .with_precedence(precedence),
+                );
             }
         } else {
-            current_node.translation = Some(ResolvedTranslation::new(
-                from,
-                to,
-                length,
-                stage,
-                origin.clone(),
-            ));
+            current_node.translation = Some(
+                ResolvedTranslation::new(from, to, length, stage, origin.clone())
+                    .with_precedence(precedence),
+            );
         }
     }
 
-- 
2.43.0


From 0c2542e846e989f03f754d0cb798c531c577abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 21/27] fix: keep nocross rules out of computer braille and
 numbers

---
 src/translator/table/primary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 150a275..359ccc5 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1515,6 +1515,12 @@ impl PrimaryTable {
             let nocross_candidate = self
                 .nocross_candidates(chars.as_str(), prev, char_pos, &constraints)
                 .into_iter()
+                // like any other candidate it has no place in computer braille and a
+                // contraction has none in a numeric run
+                .filter(|t| {
+                    !constraints.use_comp6_at(char_pos)
+                        && (t.length() <= 1 || !constraints.dont_contract_at(char_pos))
+                })
                 .max_by_key(|t| t.weight());
 
             // given an input query the trie for matching translations. Then split off the
-- 
2.43.0


From ac117f505e6367c5fee0375ac348485a8b2e9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:09 +0000
Subject: [PATCH 22/27] fix: get past a compbrl trigger that starts with a
 whitespace

---
 src/translator/table/primary.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 359ccc5..0383c20 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -75,8 +75,9 @@ impl CompbrlScanner {
                 if !spans.contains(&new_span) {
                     spans.push(new_span);
                 }
-                // Skip to end of word to avoid adding duplicate spans for the same word.
-                pos = word_end;
+                // Skip to end of word to avoid adding duplicate spans for the same word. A trigger
+                // can start with a whitespace, so always move on by at least one character.
+                pos = word_end.max(pos + 1);
             } else {
                 pos += 1;
             }
-- 
2.43.0


From 1a8ad6c92dc8bb7c3b99fec936e95a504f88eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:18 +0000
Subject: [PATCH 23/27] fix: end emphasis before other emphasis begins at the
 same position

---
 src/translator/indication/emphasis.rs | 43 ++++++++++++++++++---------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 8d853d9..16f6305 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -24,7 +24,7 @@ fn make_translation(dots: &str, origin: &AnchoredRule) -> ResolvedTranslation {
 /// `Open`/`Close` events are for `begemph`/`endemph` indicators and carry the
 /// span's `run_end` so that same-position events can be sorted into the correct
 /// LIFO (stack) order across multiple emphasis classes.  All other indicator
-/// types (word, phrase, letter) use `Unordered` and retain their original
+/// types (word, phrase, letter) use `Begin`/`End` and retain their original
 /// class-definition order.
 #[derive(Debug)]
 enum EmitKind {
@@ -35,8 +35,22 @@ enum EmitKind {
     /// (begemph) was emitted.  Used to sort same-position closes in inverse
     /// open order (later open = closes first).
     Close { emit_start: usize },
-    /// All other indicators — ordering within a position is preserved as-is.
-    Unordered,
+    /// All other indicators that start something — ordering within a position is preserved as-is.
+    Begin,
+    /// All other indicators that end something — ordering within a position is preserved as-is.
+    End,
+}
+
+impl EmitKind {
+    /// Whatever ends at a position has to end before anything else starts there.
+    fn rank(&self) -> u8 {
+        match self {
+            EmitKind::End => 0,
+            EmitKind::Close { .. } => 1,
+            EmitKind::Open { .. } => 2,
+            EmitKind::Begin => 3,
+        }
+    }
 }
 
 /// Compiled indicator data for one emphasis class (e.g. "italic").
@@ -237,7 +251,7 @@ impl ClassIndicator {
         if let Some(begemphphrase) = &self.begemphphrase
             && words.len() >= self.len_phrase
         {
-            result.push((words[0].0, begemphphrase.clone(), EmitKind::Unordered));
+            result.push((words[0].0, begemphphrase.clone(), EmitKind::Begin));
 
             if self.endemphphrase_before {
                 // BANA-style: phrase covers all but the last word; the last
@@ -249,7 +263,7 @@ impl ClassIndicator {
             } else {
                 // Phrase brackets all words; explicit endemph after the last.
                 if let Some(end_t) = &self.endemphphrase {
-                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::Unordered));
+                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::End));
                 }
             }
             return;
@@ -270,11 +284,11 @@ impl ClassIndicator {
         if word_end - word_start == 1
             && let Some(t) = &self.emphletter
         {
-            result.push((word_start, t.clone(), EmitKind::Unordered));
+            result.push((word_start, t.clone(), EmitKind::Begin));
             return;
         }
         if let Some(t) = &self.begemphword {
-            result.push((word_start, t.clone(), EmitKind::Unordered));
+            result.push((word_start, t.clone(), EmitKind::Begin));
         }
         // No endemphword: word ends at a space/boundary, so terminator is implicit.
     }
@@ -293,32 +307,32 @@ impl ClassIndicator {
         if total_chars == 1
             && let Some(t) = &self.emphletter
         {
-            result.push((words[0].0, t.clone(), EmitKind::Unordered));
+            result.push((words[0].0, t.clone(), EmitKind::Begin));
             return;
         }
 
         if let Some(t) = &self.begemphword {
-            result.push((run_start, t.clone(), EmitKind::Unordered));
+            result.push((run_start, t.clone(), EmitKind::Begin));
             // endemphword is only needed when emphasis ends mid-word (the next
             // character is not a word boundary and not end-of-string).
             if let Some(end_t) = &self.endemphword
                 && run_end < chars.len()
                 && !self.is_emphasis_word_separator(chars[run_end])
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((run_end, end_t.clone(), EmitKind::End));
             }
             return;
         }
 
         // Phrase-only class (e.g. underline): no word indicator, use phrase indicators.
         if let Some(t) = &self.begemphphrase {
-            result.push((run_start, t.clone(), EmitKind::Unordered));
+            result.push((run_start, t.clone(), EmitKind::Begin));
             // Phrase indicators always need explicit closing; emit at run_end
             // unless we're at end-of-string.
             if let Some(end_t) = &self.endemphphrase
                 && run_end < chars.len()
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((run_end, end_t.clone(), EmitKind::End));
             }
         }
     }
@@ -445,6 +459,7 @@ impl Indicator {
     /// * Closes at the same position: sorted in the inverse of the open order,
     ///   i.e. the class whose run ends **earliest** closes first.  Tiebreaker:
     ///   first-defined class closes first.
+    /// * Closes come before opens at the same position.
     pub fn precompute(
         &self,
         input: &str,
@@ -483,8 +498,8 @@ impl Indicator {
                 (EmitKind::Close { emit_start: es_a }, EmitKind::Close { emit_start: es_b }) => {
                     es_b.cmp(es_a).then(a.3.cmp(&b.3))
                 }
-                // All other combinations: preserve original order.
-                _ => Ordering::Equal,
+                // All other combinations: ends before starts, else preserve original order.
+                (kind_a, kind_b) => kind_a.rank().cmp(&kind_b.rank()),
             }
         });
 
-- 
2.43.0


From 8995bb945f2651e62dbee8d62c55031b03413173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:35 +0000
Subject: [PATCH 24/27] fix: computer braille ends before it begins again at
 the same position

The indicators of a position came in the order of the caller's spans, so that with spans given in
another order than that of the text begcomp of the following span was put before endcomp of the
preceding one.
---
 src/translator/indication/computer_braille.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/translator/indication/computer_braille.rs b/src/translator/indication/computer_braille.rs
index d25dee8..ec68c4a 100644
--- a/src/translator/indication/computer_braille.rs
+++ b/src/translator/indication/computer_braille.rs
@@ -64,14 +64,16 @@ impl Indicator {
     ///
     /// Emits `begcomp` at `span.range.start` and `endcomp` at `span.range.end`
     /// (clamped to `n`) for each span with `class == "computer_braille"`.
-    /// Only emits for spans where `start < end`. Result is sorted by position.
+    /// Only emits for spans where `start < end`. Result is sorted by position,
+    /// at one position ends come before starts.
     pub fn precompute(
         &self,
         input: &str,
         spans: &[EmphasisSpan],
     ) -> Vec<(usize, ResolvedTranslation)> {
         let n = input.chars().count();
-        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
+        // (position, starts a span, translation)
+        let mut events: Vec<(usize, bool, ResolvedTranslation)> = Vec::new();
 
         for span in spans {
             if span.class != "computer_braille" {
@@ -82,14 +84,19 @@ impl Indicator {
             if start >= end {
                 continue;
             }
-            result.push((start, self.begcomp.clone()));
+            events.push((start, true, self.begcomp.clone()));
             if let Some(ref endcomp) = self.endcomp {
-                result.push((end, endcomp.clone()));
+                events.push((end, false, endcomp.clone()));
             }
         }
 
-        result.sort_by_key(|(pos, _)| *pos);
-        result
+        // Whatever ends at a position has to end before anything else starts there, no matter in
+        // which order the caller gave the spans.
+        events.sort_by_key(|(pos, starts, _)| (*pos, *starts));
+        events
+            .into_iter()
+            .map(|(pos, _, translation)| (pos, translation))
+            .collect()
     }
 }
 
-- 
2.43.0


From 219ebe7dfec4366925aa8f3066bd4d69f332d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 25/27] fix: no match across the begin or the end of capitals,
 emphasis or computer braille

The indicators of a position inside of a match were never put out: of "the" with "he" in computer
braille and a rule for "the" only endcomp was left, of "tHe" no capital sign. As in liblouis such a
match is no candidate now.
---
 src/translator/indication.rs    | 29 ++++++++++++++++++++++++-----
 src/translator/table/primary.rs |  5 +++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/translator/indication.rs b/src/translator/indication.rs
index 77ced47..c322764 100644
--- a/src/translator/indication.rs
+++ b/src/translator/indication.rs
@@ -76,11 +76,21 @@ pub struct Indicators(Vec<Indicator>);
 /// Holds per-position braille translations to emit, indexed by
 /// character position (with one extra slot at index `n` for translations that
 /// must appear after all input characters, e.g. `endemph` at end of string).
-pub struct PrecomputedIndications(Vec<Vec<ResolvedTranslation>>);
+pub struct PrecomputedIndications {
+    translations: Vec<Vec<ResolvedTranslation>>,
+    /// The positions where capitalisation, emphasis or computer braille begin or end
+    boundaries: Vec<bool>,
+}
 
 impl PrecomputedIndications {
     pub fn translations_at(&self, pos: usize) -> Vec<ResolvedTranslation> {
-        self.0.get(pos).cloned().unwrap_or_default()
+        self.translations.get(pos).cloned().unwrap_or_default()
+    }
+
+    /// Returns true if capitalisation, emphasis or computer braille begin or end between the
+    /// characters of a match that starts at `pos` and is `length` characters long.
+    pub fn boundary_inside(&self, pos: usize, length: usize) -> bool {
+        (pos + 1..pos + length).any(|inside| self.boundaries.get(inside).is_some_and(|b| *b))
     }
 }
 
@@ -91,7 +101,8 @@ impl Indicators {
 
     pub fn precompute(&self, input: &str, spans: &[EmphasisSpan]) -> PrecomputedIndications {
         let n = input.chars().count();
-        let mut indications: Vec<Vec<ResolvedTranslation>> = vec![vec![]; n + 1];
+        let mut translations: Vec<Vec<ResolvedTranslation>> = vec![vec![]; n + 1];
+        let mut boundaries = vec![false; n + 1];
 
         for indicator in &self.0 {
             let pairs: Vec<(usize, ResolvedTranslation)> = match indicator {
@@ -102,12 +113,20 @@ impl Indicators {
                 Indicator::LetterSign(i) => i.precompute(input),
                 Indicator::NoContract(i) => i.precompute(input),
             };
+            let is_boundary = matches!(
+                indicator,
+                Indicator::ComputerBraille(_) | Indicator::Emphasis(_) | Indicator::Uppercase(_)
+            );
             for (pos, t) in pairs {
-                indications[pos].push(t);
+                translations[pos].push(t);
+                boundaries[pos] |= is_boundary;
             }
         }
 
-        PrecomputedIndications(indications)
+        PrecomputedIndications {
+            translations,
+            boundaries,
+        }
     }
 }
 
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 0383c20..715a0fc 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1521,6 +1521,7 @@ impl PrimaryTable {
                 .filter(|t| {
                     !constraints.use_comp6_at(char_pos)
                         && (t.length() <= 1 || !constraints.dont_contract_at(char_pos))
+                        && !indications.boundary_inside(char_pos, t.length())
                 })
                 .max_by_key(|t| t.weight());
 
@@ -1586,6 +1587,10 @@ impl PrimaryTable {
                 candidates.extend(self.comp6_trie.find_translations(chars.as_str(), prev));
             }
 
+            // A match across the begin or the end of capitalisation, emphasis or computer braille
+            // would lose its indicator. Like in liblouis there is no such match.
+            candidates.retain(|t| !indications.boundary_inside(char_pos, t.length()));
+
             // Backward caps mode: capitalize the output of whichever candidate wins below.
             // `Uppercase` (begcapsword span) capitalizes every character a cell resolves
             // to; `TitleCase` (capsletter) capitalizes only the first — a cell can
-- 
2.43.0


From 65710f60f40b36177023778b1f114c4cc3a76342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:16 +0000
Subject: [PATCH 26/27] fix: no match across the begin or the end of computer
 braille

Even where the table has no begcomp and endcomp the characters in computer braille have to be
translated by comp6 rules, and those outside of it by the others.
---
 src/translator/position_constraints.rs | 6 ++++++
 src/translator/table/primary.rs        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/translator/position_constraints.rs b/src/translator/position_constraints.rs
index 5ffbad8..35b0ce7 100644
--- a/src/translator/position_constraints.rs
+++ b/src/translator/position_constraints.rs
@@ -92,6 +92,12 @@ impl PositionConstraints {
             .is_some_and(|f| f.contains(Constraint::UseComp6))
     }
 
+    /// Returns true if computer braille begins or ends between the characters of a match that
+    /// starts at `pos` and is `length` characters long.
+    pub fn comp6_changes_inside(&self, pos: usize, length: usize) -> bool {
+        (pos + 1..pos + length).any(|inside| self.use_comp6_at(inside) != self.use_comp6_at(pos))
+    }
+
     pub fn uppercase_at(&self, pos: usize) -> bool {
         self.0
             .get(pos)
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 715a0fc..4486a1e 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1522,6 +1522,7 @@ impl PrimaryTable {
                     !constraints.use_comp6_at(char_pos)
                         && (t.length() <= 1 || !constraints.dont_contract_at(char_pos))
                         && !indications.boundary_inside(char_pos, t.length())
+                        && !constraints.comp6_changes_inside(char_pos, t.length())
                 })
                 .max_by_key(|t| t.weight());
 
@@ -1590,6 +1591,8 @@ impl PrimaryTable {
             // A match across the begin or the end of capitalisation, emphasis or computer braille
             // would lose its indicator. Like in liblouis there is no such match.
             candidates.retain(|t| !indications.boundary_inside(char_pos, t.length()));
+            // The same goes for computer braille that the table has no indicator for.
+            candidates.retain(|t| !constraints.comp6_changes_inside(char_pos, t.length()));
 
             // Backward caps mode: capitalize the output of whichever candidate wins below.
             // `Uppercase` (begcapsword span) capitalizes every character a cell resolves
-- 
2.43.0


From 4b7f4acc23398d00a3a3333c488f9b5ddfd38540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:48 +0000
Subject: [PATCH 27/27] fix: keep prepunc and postpunc rules for the same
 characters apart

---
 src/translator/table/primary.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 4486a1e..d43fd40 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -126,6 +126,11 @@ pub struct PrimaryTable {
     /// A prefix tree that contains comp6 (computer braille) translation rules.
     /// These are only consulted when `UseComp6` is set at a character position.
     comp6_trie: Trie,
+    /// `prepunc` and `postpunc` rules for the same characters differ only in where they
+    /// apply (see [`PunctuationConstrainer`](crate::translator::position_constraints::PunctuationConstrainer)),
+    /// so each opcode has a trie of its own
+    prepunc_trie: Trie,
+    postpunc_trie: Trie,
     match_patterns: MatchPatterns,
     context_patterns: ContextPatterns,
     /// All the nocross translation rules are stored in a separate trie
@@ -150,6 +155,8 @@ struct PrimaryTableBuilder {
     character_translations: CharacterTranslation,
     trie: Trie,
     comp6_trie: Trie,
+    prepunc_trie: Trie,
+    postpunc_trie: Trie,
     nocross_trie: Trie,
     match_patterns: MatchPatternsBuilder,
     context_patterns: ContextPatternsBuilder,
@@ -179,6 +186,8 @@ impl PrimaryTableBuilder {
             character_translations: CharacterTranslation::new(),
             trie: Trie::new().with_context(trie_ctx.clone()),
             comp6_trie: Trie::new().with_context(trie_ctx.clone()),
+            prepunc_trie: Trie::new().with_context(trie_ctx.clone()),
+            postpunc_trie: Trie::new().with_context(trie_ctx.clone()),
             nocross_trie: Trie::new().with_context(trie_ctx),
             match_patterns: MatchPatternsBuilder::new(),
             context_patterns: ContextPatternsBuilder::new(),
@@ -202,7 +211,11 @@ impl PrimaryTableBuilder {
         if rule.is_nocross() {
             &mut self.nocross_trie
         } else {
-            &mut self.trie
+            match rule.rule {
+                Rule::Prepunc { .. } => &mut self.prepunc_trie,
+                Rule::Postpunc { .. } => &mut self.postpunc_trie,
+                _ => &mut self.trie,
+            }
         }
     }
 
@@ -341,6 +354,8 @@ impl PrimaryTableBuilder {
             fallback_definitions: ctx.character_definitions().clone(),
             trie: self.trie,
             comp6_trie: self.comp6_trie,
+            prepunc_trie: self.prepunc_trie,
+            postpunc_trie: self.postpunc_trie,
             nocross_trie: self.nocross_trie,
             match_patterns: self.match_patterns.build(),
             context_patterns: self.context_patterns.build(),
@@ -1422,9 +1437,9 @@ impl PrimaryTable {
         input: &str,
         prev: Option<char>,
     ) -> (Vec<ResolvedTranslation>, Vec<ResolvedTranslation>) {
-        self.trie
-            .find_translations(input, prev)
+        [&self.trie, &self.prepunc_trie, &self.postpunc_trie]
             .into_iter()
+            .flat_map(|trie| trie.find_translations(input, prev))
             .partition(|t| t.offset() == 0)
     }
 
-- 
2.43.0

