From 521b2b6558b513adb32e159351961e9454a608d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:12 +0000
Subject: [PATCH 01/33] fix: exit with a nonzero status when a command fails

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4ff2c63..6ab539c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,9 +13,13 @@ fn main() {
     match flags::CommandFlags::parse_from_env() {
         Ok(f) => {
             if let Err(e) = f.execute() {
-                eprintln!("{e}")
+                eprintln!("{e}");
+                std::process::exit(1);
             }
         }
-        Err(e) => eprintln!("{e}"),
+        Err(e) => {
+            eprintln!("{e}");
+            std::process::exit(1);
+        }
     }
 }
-- 
2.43.0


From 836caf938c4e0c875400a62756be68359409cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 02/33] fix: whitespace before a journal comment is not part of
 the line

---
 src/envelope.rs   | 8 ++++++--
 src/ledger/mod.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..1835f21 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -452,14 +452,18 @@ impl Envelope {
         for line in body.lines() {
             let trimmed_line = utils::remove_comments(line).trim();
             let line_split = trimmed_line.split_whitespace().collect::<Vec<&str>>();
-            let key = line_split[0];
+
+            // blank lines and lines with nothing but a comment don't define anything
+            let Some(&key) = line_split.first() else {
+                continue;
+            };
 
             // get the index of the first space (because that's where the values begins)
 
             let Some(idx) = trimmed_line.find(' ') else {
                 let message = format!(
                     "the property `{}` to an envelope (`{}` in {}) is blank",
-                    line_split[0], self.name, account_name
+                    key, self.name, account_name
                 );
                 let err = ParseError {
                     message: Some(message),
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..c433f5f 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -71,7 +71,7 @@ impl Ledger {
         // split lines
         let lines = s.lines();
         for mut line in lines {
-            line = utils::remove_comments(line.trim_end());
+            line = utils::remove_comments(line).trim_end();
 
             // if the first character of this line is whitespace, it is part of the current chunk.
             // if there is no first character, nothing happens
-- 
2.43.0


From 5c76abb56bbedef78620b450ae54f9f014547583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:14 +0000
Subject: [PATCH 03/33] fix: whitespace before a rules comment is not part of
 the rule

---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..ae84eb3 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -143,7 +143,7 @@ impl Rules {
         let mut parsing_subrules_rules = false;
 
         for mut line in s.lines() {
-            line = utils::remove_comments(line);
+            line = utils::remove_comments(line).trim_end();
 
             // if line contains nothing, continue
             if line.trim().is_empty() {
-- 
2.43.0


From 9ebdda0f668ad8561bca35d3f418a09c97f41c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:16 +0000
Subject: [PATCH 04/33] fix: split rules at byte positions, not character
 counts

---
 src/importer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index ae84eb3..9bc78ef 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -196,9 +196,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some(i) = line.find(|c: char| c.is_whitespace()) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(line[i..].trim_start()))
                     } else {
                         unreachable!()
                     }
@@ -219,7 +219,7 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+        let split_index = if let Some(i) = line.find(|c: char| c.is_whitespace()) {
             i
         } else {
             return Err(SilverfoxError::from(ParseError {
@@ -235,7 +235,7 @@ impl Rules {
         let rule_name = &line[..split_index];
 
         // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
+        let rule_value = String::from(&line[split_index..])
             .trim_start()
             .to_string();
 
-- 
2.43.0


From 1ec194b42b97dc4b3b23481141cc9f1c000f3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:17 +0000
Subject: [PATCH 05/33] fix: a decimal_symbol rule without a value is an error,
 not a panic

---
 src/importer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 9bc78ef..89d5f71 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -291,15 +291,16 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    let mut chars = rule_value.trim().chars();
+                    if let (Some(c), None) = (chars.next(), chars.next()) {
+                        self.decimal_symbol = c;
+                    } else {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
                             ),
                             context: Some(line.to_string()),
                         }));
-                    } else {
-                        self.decimal_symbol = rule_value.chars().next().unwrap();
                     }
                 }
                 "description" => self.description = rule_value,
-- 
2.43.0


From 6079d4f0445b4901ce4cde9453f60c8b857ec837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:18 +0000
Subject: [PATCH 06/33] fix: reject a negative skip rule instead of skipping
 every record

---
 src/importer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 89d5f71..7db7aae 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -51,7 +51,7 @@ impl CsvImporter {
 
         let rules = Rules::from_str(rules_str)?;
         let mut records: VecDeque<csv::StringRecord> = VecDeque::new();
-        for result in reader.records().skip(rules.skip as usize) {
+        for result in reader.records().skip(rules.skip) {
             match result {
                 Ok(r) => records.push_back(r),
                 Err(e) => {
@@ -93,7 +93,7 @@ struct Rules {
     decimal_symbol: char,
     fields: LinkedList<String>,
     payee: String,
-    skip: i32,
+    skip: usize,
     status: String,
     subrules: Vec<Subrules>,
 }
@@ -321,7 +321,7 @@ impl Rules {
                 "include" | "use" => self.add_from_file(&PathBuf::from(rule_value))?,
                 "payee" => self.payee = rule_value,
                 "skip" => {
-                    self.skip = match rule_value.parse::<i32>() {
+                    self.skip = match rule_value.parse::<usize>() {
                         Ok(n) => n,
                         Err(e) => {
                             return Err(SilverfoxError::from(ParseError {
-- 
2.43.0


From e040de5f89a7407e4d1e41c6b8808180db463f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:54 +0000
Subject: [PATCH 07/33] fix: imported postings come out in a fixed order

---
 src/importer.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 7db7aae..b025a2c 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -2,7 +2,7 @@ use crate::entry::{Entry, EntryStatus};
 use crate::errors::*;
 use crate::posting::{ClassicPosting, Posting};
 use crate::utils;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::collections::{LinkedList, VecDeque};
 use std::fs;
 use std::path::{Path, PathBuf};
@@ -84,8 +84,8 @@ impl Iterator for CsvImporter {
 
 #[derive(Clone, Debug, PartialEq)]
 struct Rules {
-    accounts: HashMap<String, String>,
-    amount_strs: HashMap<String, String>,
+    accounts: BTreeMap<String, String>,
+    amount_strs: BTreeMap<String, String>,
     comment: String,
     description: String,
     date_format: String,
@@ -100,8 +100,8 @@ struct Rules {
 
 impl Default for Rules {
     fn default() -> Self {
-        let amount_strs: HashMap<String, String> = Default::default();
-        let accounts: HashMap<String, String> = Default::default();
+        let amount_strs: BTreeMap<String, String> = Default::default();
+        let accounts: BTreeMap<String, String> = Default::default();
 
         Rules {
             accounts,
@@ -383,7 +383,7 @@ impl Rules {
         }
 
         // create the variables map by reading from the fields in the csv record
-        let mut variables: HashMap<String, String> = HashMap::new();
+        let mut variables: BTreeMap<String, String> = BTreeMap::new();
         for (field_name, field_value) in self.fields.iter().zip(record.iter()) {
             // no duplicate variables are allowed
             if variables.contains_key(field_name) {
@@ -448,9 +448,6 @@ impl Rules {
             }
         }
 
-        // reverse, because.
-        postings.reverse();
-
         // validate number of postings
         match postings.len() {
             1 => {
@@ -479,7 +476,7 @@ impl Rules {
         }
     }
 
-    fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
+    fn inject_variables(s: &str, variables: &BTreeMap<String, String>) -> String {
         let mut result = String::from(s);
 
         for (v_name, v_value) in variables.iter() {
-- 
2.43.0


From 53c3f6df359b3707b5da657f2e0f2a6e8cd03050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:55 +0000
Subject: [PATCH 08/33] fix: accounts are filled and reported on in a fixed
 order

---
 src/ledger/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index c433f5f..bbf09a3 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -6,7 +6,7 @@ use crate::importer::CsvImporter;
 use crate::posting::Posting;
 use crate::utils;
 use chrono::{Local, NaiveDate};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::fmt::Formatter;
 use std::fs;
@@ -20,7 +20,7 @@ pub struct Ledger {
     file_path: PathBuf,
     entries: Vec<Entry>,
     date_format: String, // default = "%Y/%m/%d"
-    accounts: HashMap<String, Account>,
+    accounts: BTreeMap<String, Account>,
     default_currency: String,
     decimal_symbol: char,
 }
@@ -32,7 +32,7 @@ impl Ledger {
             file_path: PathBuf::new(),
             date_format: String::from("%Y/%m/%d"),
             entries: Vec::new(),
-            accounts: HashMap::new(),
+            accounts: BTreeMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
         }
-- 
2.43.0


From b0fd3f1e967621bd434de80472d7368ea3218f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:56 +0000
Subject: [PATCH 09/33] fix: envelope postings do not count towards balances

---
 src/ledger/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index bbf09a3..461c3bd 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -224,6 +224,11 @@ impl Ledger {
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
             for posting in entry.get_postings() {
+                // envelope postings are virtual; they don't move real money
+                if posting.is_envelope() {
+                    continue;
+                }
+
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From 3d4a12016a1daac3ef460d2468c3a0a621cef972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:58 +0000
Subject: [PATCH 10/33] fix: a blank posting counts even when it is the first
 for its account

---
 src/ledger/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 461c3bd..5f904db 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -247,13 +247,13 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
-                    if let Some(a) = posting_amount {
-                        totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
+                    // key's value. otherwise, use the amount inferred for the blank posting.
+                    let amount = if let Some(a) = posting_amount {
+                        a.clone()
                     } else {
-                        totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
-                    }
+                        entry.get_blank_amount()?.unwrap_or_else(Amount::zero)
+                    };
+                    totals_map.insert(posting_account.to_owned(), AmountPool::from(amount));
                 }
             }
         }
-- 
2.43.0


From ba478111b6aeb15c5c551032697a838c12476b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 11/33] fix: envelope postings do not count in the register

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..900b43b 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -423,7 +423,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut negative_names = HashSet::new();
             let mut focused_amount = AmountPool::new();
 
-            for p in &self.postings {
+            for p in self.postings.iter().filter(|p| !p.is_envelope()) {
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
-- 
2.43.0


From 8dcc035c0a3a090faa87bca5e7b049da36acbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:00 +0000
Subject: [PATCH 12/33] fix: infer a blank amount from the real postings alone

---
 src/entry.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 900b43b..9b72b0d 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,7 +222,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -242,7 +242,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
                 // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
@@ -255,9 +255,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                         unreachable!()
                     }
                 } else {
-                    // shouldn't be reachable, since there'd better be at least one non-blank
-                    // amount
-                    unreachable!()
+                    // there are no other amounts, so there's nothing to balance out
+                    return Ok(Some(Amount::zero()));
                 };
 
                 // subtract the rest of the postings
@@ -373,8 +372,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
-            let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
+            let symbol_to_match = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
                 } else {
-- 
2.43.0


From 5af724aad4389b9207db873060f5ba5c37c241ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 13/33] fix: reject entries that do not balance

---
 src/entry.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 9b72b0d..6440948 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -281,9 +281,14 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
-        for posting in &self.postings {
+        let mut sum = 0.0;
+        let mut largest = 0.0_f64;
+        for posting in self.postings.iter().filter(|p| p.is_classic()) {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
+                sum += a.mag;
+                largest = largest.max(a.mag.abs());
+
                 // if so, add its symbol to the set if it exists
                 if let Some(s) = &a.symbol {
                     symbol_set.insert(s);
@@ -307,6 +312,17 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             return Err(ValidationError::default().set_message("silverfox can't infer the amount of a blank posting when other postings have mixed currencies").set_context(context));
         }
 
+        // amounts in one currency have to balance if there's no blank amount to even them out
+        // (floating-point sums aren't exact, so leave room for rounding)
+        if blank_amounts == 0
+            && !self.has_mixed_currencies()
+            && sum.abs() > 1e-8_f64.max(largest * 1e-9)
+        {
+            return Err(ValidationError::default()
+                .set_message("this entry isn't balanced; the sum of its postings isn't zero")
+                .set_context(context));
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 79465f9b0a84dca788b6a46e4fb3d89b92af7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:03 +0000
Subject: [PATCH 14/33] fix: an entry header without a status is an error, not
 a panic

---
 src/entry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 6440948..5af219a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,7 +177,13 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let Some(raw_status) = header_tokens.get(1) else {
+            return Err(ParseError {
+                message: Some("silverfox requires statuses on entries, but this entry doesn't have one".to_string()),
+                context: Some(clean_header.to_string()),
+            });
+        };
+        let status = raw_status.parse::<EntryStatus>()?;
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
-- 
2.43.0


From 2a18d4513fec7cad55bbe43dfe03c3b1f69a0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:04 +0000
Subject: [PATCH 15/33] fix: a closing bracket before the opening one is an
 error, not a panic

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 5af219a..133fad9 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -188,7 +188,7 @@ impl Entry {
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|&j| j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From bd1ba32a0a73e5e7c4be494f89ef428fd4eea6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:00 +0000
Subject: [PATCH 16/33] fix: report register errors instead of panicking

---
 src/flags.rs      | 2 +-
 src/ledger/mod.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..1059aa4 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,7 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None)?,
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 5f904db..bf48463 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -335,7 +335,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -343,7 +343,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From f6963ca30fdb5eb96744f5c6d36082564d34e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:01 +0000
Subject: [PATCH 17/33] fix: only resolve paths relative to a journal file
 while reading that file

---
 src/ledger/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index bf48463..053bbac 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -55,12 +55,24 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
-        // change directory to parent after reading to string, and before parsing
-        let parent_dir = file_path.parent().unwrap();
+        // change directory to parent after reading to string, and before parsing, so that paths in
+        // this file are relative to it
+        let parent_dir = match file_path.parent() {
+            Some(p) if !p.as_os_str().is_empty() => p,
+            _ => return self.add_from_str(&s),
+        };
+
+        let original_dir = std::env::current_dir()
+            .and_then(|d| std::env::set_current_dir(parent_dir).map(|_| d))
+            .map_err(|e| SilverfoxError::file_error(parent_dir, e))?;
+
+        let result = self.add_from_str(&s);
 
-        std::env::set_current_dir(parent_dir).unwrap_or(());
+        // change back afterwards, because other paths aren't relative to this file
+        std::env::set_current_dir(&original_dir)
+            .map_err(|e| SilverfoxError::file_error(&original_dir, e))?;
 
-        self.add_from_str(&s)
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From 207716584338bbe473f85d1d4bcbda9b255c5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 18/33] fix: write to the journal only once every new entry is
 known to be good

---
 src/ledger/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 053bbac..2f3d6c1 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -193,19 +193,27 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
-    fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
+    /// Adds the entries to the Ledger, then appends them to the file of the Ledger. Nothing is
+    /// written unless every entry can be read back and processed.
+    fn append_entries(&mut self, entries: Vec<Entry>) -> Result<(), SilverfoxError> {
+        let mut text = String::new();
+        for entry in entries {
+            let parsable = entry.as_parsable(&self.date_format);
+            self.parse_entry(&parsable)?;
+            text.push('\n');
+            text.push_str(&parsable);
+        }
+
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
+        if let Err(e) = write!(file, "{text}") {
             return Err(SilverfoxError::Basic(format!("{e}")));
         }
 
-        self.add_entry(entry)
+        Ok(())
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
@@ -311,7 +319,7 @@ impl Ledger {
             Some(String::from("automatically generated by silverfox")),
         );
 
-        self.append_entry(entry)
+        self.append_entries(vec![entry])
     }
 
     pub fn import_csv(
@@ -327,16 +335,15 @@ impl Ledger {
             CsvImporter::from_file(csv_file, account_set)
         }?;
 
+        let mut entries = Vec::new();
         for result in imp {
             match result {
-                Ok(e) => {
-                    self.append_entry(e)?;
-                }
+                Ok(e) => entries.push(e),
                 Err(e) => return Err(e),
             }
         }
 
-        Ok(())
+        self.append_entries(entries)
     }
 
     /// Display a register of all transactions from `begin_date` (inclusive) to `end_date` (also
-- 
2.43.0


From 9572b1b64b8f72cf8c5335603651c0c58725f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:04 +0000
Subject: [PATCH 19/33] fix: reject a second definition of an account

---
 src/ledger/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 2f3d6c1..6300c72 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -218,6 +218,15 @@ impl Ledger {
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
         let a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
+        if self.accounts.contains_key(a.get_name()) {
+            return Err(SilverfoxError::from(ValidationError {
+                message: Some(format!(
+                    "there's a duplicate account definition for `{}`",
+                    a.get_name()
+                )),
+                context: None,
+            }));
+        }
         self.accounts.insert(a.get_name().to_string(), a);
 
         Ok(())
-- 
2.43.0


From ea6e865abb7ea0dd866fa226d8b73e828093e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 20/33] fix: an unusable date format is an error, not a panic

---
 src/ledger/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 6300c72..ab177f9 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -9,6 +9,7 @@ use chrono::{Local, NaiveDate};
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::fmt::Formatter;
+use std::fmt::Write as _;
 use std::fs;
 use std::io::prelude::*;
 use std::path::{Path, PathBuf};
@@ -144,6 +145,14 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // formatting a date with a bad format panics later on, so try it out first
+            if write!(String::new(), "{}", NaiveDate::default().format(d)).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    context: Some(d.to_string()),
+                    message: Some("this date format isn't valid".to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From aa775678bbd02959f75377ab8731b430b997b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:06 +0000
Subject: [PATCH 21/33] fix: envelope postings need a defined account too

---
 src/posting.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/posting.rs b/src/posting.rs
index 86ec071..ac9ec69 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -29,7 +29,7 @@ impl EnvelopePosting {
     pub fn parse(
         line: &str,
         decimal_symbol: char,
-        _accounts: &HashSet<&String>,
+        accounts: &HashSet<&String>,
     ) -> Result<Self, ParseError> {
         let mut tokens = line.split_whitespace().skip(1);
 
@@ -42,6 +42,15 @@ impl EnvelopePosting {
             });
         };
 
+        if !accounts.contains(&account_name) {
+            return Err(ParseError {
+                message: Some(format!(
+                    "the account `{account_name}` is not defined in your journal"
+                )),
+                context: Some(line.to_string()),
+            });
+        }
+
         let envelope_name = if let Some(e) = tokens.next() {
             String::from(e)
         } else {
-- 
2.43.0


From 7f94c5f29010e41160f3d7d60b77597d06bd87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 22/33] fix: a refund puts money back into its envelope

---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 1835f21..9dd6b61 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -725,6 +725,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From e2533bd69d599aaab45bafa76c1742aadab33bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:08 +0000
Subject: [PATCH 23/33] fix: an amount converted to native currency has no
 symbol

---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 9dd6b61..f9eb314 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -704,6 +704,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From 12835e76a131216e0557a1edf0969fe5306918d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:10 +0000
Subject: [PATCH 24/33] fix: an envelope posting in another currency is an
 error, not a panic

---
 src/envelope.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index f9eb314..eef4eb3 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -611,14 +611,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -632,10 +631,20 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        return Err(ProcessingError::default()
+                            .set_message(
+                                "this envelope posting doesn't use the currency of its envelope",
+                            )
+                            .set_context(&entry.as_full_string()));
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 6887406ccfd133da59a07d89936566d45f08353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:11 +0000
Subject: [PATCH 25/33] fix: entries out of date order do not make an envelope
 fill twice a day

---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index eef4eb3..95467b5 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -782,7 +782,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        self.last_transaction_date = self.last_transaction_date.max(date);
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 907401cf4edbf4f8f0b00d71bf60524c5e6dbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:12 +0000
Subject: [PATCH 26/33] fix: months without the due day do not cause a panic

---
 src/envelope.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 95467b5..97d90a1 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -225,6 +225,14 @@ impl Frequency {
         }
     }
 
+    /// Returns the date with the year, month, and day, or the last date of the month if the month
+    /// doesn't have the day.
+    fn date_in_month(year: i32, month: u32, day: u32) -> NaiveDate {
+        NaiveDate::from_ymd_opt(year, month, day).unwrap_or_else(|| {
+            Self::get_last_date_of_month(NaiveDate::from_ymd_opt(year, month, 1).unwrap())
+        })
+    }
+
     fn subtract_months(date: NaiveDate, num: i32) -> NaiveDate {
         let mut new_month0 = date.month0() as i32 - num;
         let mut new_year = date.year();
@@ -236,7 +244,7 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        Self::date_in_month(new_year, new_month0 as u32 + 1, date.day())
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
-- 
2.43.0


From 863919560e56342676ed77ece518fc5ec942395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:14 +0000
Subject: [PATCH 27/33] fix: annual envelopes stay due every year, leap days
 included

---
 src/envelope.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 97d90a1..1a26dbb 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -213,7 +213,11 @@ impl Frequency {
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
                 Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
                 Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::date_in_month(
+                    next_date.year() - 1,
+                    d.month(),
+                    d.day(),
+                )),
                 _ => None,
             }
         } else {
@@ -314,7 +318,13 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    let (month, day) = (starting_date.month(), starting_date.day());
+                    let this_year = Self::date_in_month(today.year(), month, day);
+                    if this_year > today {
+                        Some(this_year)
+                    } else {
+                        Some(Self::date_in_month(today.year() + 1, month, day))
+                    }
                 }
             }
         }
-- 
2.43.0


From 48fb6bd18e152c3285fb971ee92be59635053d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:15 +0000
Subject: [PATCH 28/33] fix: the next due date of an every-other envelope is
 the first one after today

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 1a26dbb..3bfb702 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -279,6 +279,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
@@ -294,7 +298,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From 0afc8d7e528ff8bdba1e170441b58f0e73478c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 29/33] fix: only a line whose first word is exactly `if` opens
 a block of conditional import rules

---
 src/importer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index b025a2c..6a913aa 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -194,7 +194,10 @@ impl Rules {
                 }
             }
 
-            if line.starts_with("if") {
+            if line
+                .strip_prefix("if")
+                .is_some_and(|rest| rest.is_empty() || rest.starts_with(char::is_whitespace))
+            {
                 parsing_subrules = Some(Subrules::from(&*self));
                 if let Some(i) = line.find(|c: char| c.is_whitespace()) {
                     if let Some(s) = parsing_subrules.as_mut() {
-- 
2.43.0


From be7b6983b31a3ba0d41154eeab0fd02e49f28db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:20 +0000
Subject: [PATCH 30/33] fix: an every-other schedule keeps the weekday or day
 of the month it names

---
 src/envelope.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 3bfb702..4920096 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -119,7 +119,7 @@ pub enum Frequency {
     Weekly(chrono::Weekday),
     Biweekly(NaiveDate),
     Monthly(u32),
-    Bimonthly(NaiveDate),
+    Bimonthly(NaiveDate, u32),
     // Quarterly(NaiveDate),
     // Semiannually(NaiveDate),
     Annually(NaiveDate),
@@ -133,19 +133,26 @@ impl Frequency {
     ) -> Result<Self, ParseError> {
         if let Some(what) = s.strip_prefix("every other ") {
             // stop if "starting" isn't given, since it's required here
-            if starting_date.is_none() {
+            let Some(start) = starting_date else {
                 return Err(ParseError {
                     context: Some(s.to_string()),
                     message: Some("a `starting` clause is required for `every other` frequencies so silverfox knows which weeks or months to use".to_string())
                 });
-            }
+            };
 
-            // parse "every others"
+            // parse "every others", which begin on the first such day that isn't before the
+            // starting date
             // remember: the `starting` clause is already trimmed
-            if Self::parse_weekday(what).is_some() {
-                Ok(Self::Biweekly(starting_date.unwrap()))
-            } else if Self::parse_day_of_month(what).is_some() {
-                Ok(Self::Bimonthly(starting_date.unwrap()))
+            if let Some(w) = Self::parse_weekday(what) {
+                let mut first = start;
+                while first.weekday() != w {
+                    first += chrono::Duration::days(1);
+                }
+
+                Ok(Self::Biweekly(first))
+            } else if let Some(d) = Self::parse_day_of_month(what) {
+                let first = Self::next_date_by_day_of_month(start - chrono::Duration::days(1), d);
+                Ok(Self::Bimonthly(first, d))
             } else {
                 Err(ParseError {
                     context: Some(s.to_string()),
@@ -212,7 +219,7 @@ impl Frequency {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
                 Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                Self::Bimonthly(..) => Some(Self::subtract_months(next_date, 2)),
                 Self::Annually(d) => Some(Self::date_in_month(
                     next_date.year() - 1,
                     d.month(),
@@ -291,12 +298,11 @@ impl Frequency {
             Self::Monthly(day_of_month) => {
                 Some(Self::next_date_by_day_of_month(today, *day_of_month))
             }
-            Self::Bimonthly(starting_date) => {
+            Self::Bimonthly(starting_date, day_of_month) => {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
                     // brute force method until we find something better to do...
-                    let day_of_month = starting_date.day();
                     let mut date = *starting_date;
                     while date <= today {
                         let month0_plus_two = date.month0() + 2;
@@ -305,7 +311,7 @@ impl Frequency {
 
                         // basically create a new date with the month, year and day
                         date = if let Some(x) =
-                            NaiveDate::from_ymd_opt(new_year, new_month, day_of_month)
+                            NaiveDate::from_ymd_opt(new_year, new_month, *day_of_month)
                         {
                             x
                         } else {
-- 
2.43.0


From 139d8f06908e70695b9286ea09033567d22869f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:16 +0000
Subject: [PATCH 31/33] fix: an envelope property may be followed by a tab

---
 src/envelope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 4920096..fdfad69 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -486,9 +486,9 @@ impl Envelope {
                 continue;
             };
 
-            // get the index of the first space (because that's where the values begins)
+            // get the index of the first white space (because that's where the values begins)
 
-            let Some(idx) = trimmed_line.find(' ') else {
+            let Some(idx) = trimmed_line.find(char::is_whitespace) else {
                 let message = format!(
                     "the property `{}` to an envelope (`{}` in {}) is blank",
                     key, self.name, account_name
-- 
2.43.0


From bf64b1c6e0a0538d9af425f0c22751f950ca8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:13 +0000
Subject: [PATCH 32/33] fix: the last due date of a monthly envelope keeps its
 day after a short month

---
 src/envelope.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index fdfad69..b5975db 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -218,8 +218,15 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(..) => Some(Self::subtract_months(next_date, 2)),
+                // the next date might not be on the day of the month (if its month is too short)
+                Self::Monthly(day) => {
+                    let month = Self::subtract_months(next_date, 1);
+                    Some(Self::date_in_month(month.year(), month.month(), *day))
+                }
+                Self::Bimonthly(_, day) => {
+                    let month = Self::subtract_months(next_date, 2);
+                    Some(Self::date_in_month(month.year(), month.month(), *day))
+                }
                 Self::Annually(d) => Some(Self::date_in_month(
                     next_date.year() - 1,
                     d.month(),
-- 
2.43.0


From 1e3697fa2b62a5a4c621048db17f49f094338219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 33/33] fix: an envelope with a starting date is due on its
 schedule, and not at all when it has no dates left

---
 src/envelope.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index b5975db..f235184 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -268,7 +268,11 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let today = Local::now().date_naive();
+        self.get_due_date_after(Local::now().date_naive())
+    }
+
+    /// Calculates and returns the first due date after `today`.
+    fn get_due_date_after(&self, today: NaiveDate) -> Option<NaiveDate> {
         match self {
             Self::Never => None,
             Self::Once(date) => {
@@ -910,19 +914,15 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     }
 
     fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let starting_date = if let Some(d) = self.starting_date {
-            d
-        } else {
-            return self.freq.get_next_due_date();
-        };
+        let today = Local::now().date_naive();
 
-        let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
-            d
-        } else {
-            return Some(starting_date);
-        };
+        // nothing is due before the starting date
+        let before = self
+            .starting_date
+            .and_then(|d| d.pred_opt())
+            .map_or(today, |d| d.max(today));
 
-        Some(starting_date.max(freq_next_date))
+        self.freq.get_due_date_after(before)
     }
 
     pub fn get_freq(&self) -> &Frequency {
-- 
2.43.0

