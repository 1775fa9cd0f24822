From 32af091754956f16f18b005aa3a38b3e8e741f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 01/39] fix: the inverse of a negative amount is positive, of
 zero is zero

---
 src/amount.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..d902d53 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,20 +74,14 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
-        } else {
-            self.quantity
-        };
-
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        let mut result = *self;
+        result.invert();
+        result
     }
 
-    /// Inverts the sign on the amount.
+    /// Inverts the sign on the amount. Zero stays (positive) zero.
     pub fn invert(&mut self) {
-        if self.quantity.is_sign_positive() {
+        if self.quantity.is_sign_positive() && !self.quantity.is_zero() {
             self.quantity.set_sign_negative();
         } else {
             self.quantity.set_sign_positive();
-- 
2.43.0


From deb1b11a83d3261dacc5112abf5fb0fc4587fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 02/39] fix: do not dereference the null commodity when adding
 and multiplying amounts

---
 src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index d902d53..04e770b 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -117,7 +117,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -161,7 +161,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From 2b07789a1f63780cec091ccded9ae5ffca28dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:29 +0000
Subject: [PATCH 03/39] fix: keep pointers to accounts valid when an account
 gets more children

---
 src/account.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..dba63e2 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,9 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    /// Child accounts by name. Boxed, because the other entities hold pointers
+    /// to the accounts, which have to stay valid when the map grows.
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +41,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +102,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(&**found);
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +122,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = &**account_opt;
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +176,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| &**acc).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From 4e5a2d903c3c93cd4b16f6e31a099e093e59212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:47 +0000
Subject: [PATCH 04/39] fix: keep pointers to commodities valid when the pool
 grows

---
 src/pool.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..20e2763 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,9 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    // Boxed, because amounts and the price graph hold pointers to the commodities,
+    // which have to stay valid when the map grows.
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -77,12 +79,12 @@ impl CommodityPool {
         }
 
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        self.commodities.insert(symbol.to_string(), Box::new(c));
         // get the new address.
         let new_commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
-        let cdty_ptr = new_commodity as *const Commodity;
+        let cdty_ptr = &**new_commodity as *const Commodity;
         // log::debug!("commodity pointer: {:?} for {:?}", cdty_ptr, symbol);
         let i = self.commodity_history.add_commodity(cdty_ptr);
 
@@ -98,7 +100,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| &**c)
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +130,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            &**c
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From 0da37a2b9f92e190787317c08e79c6d2d0e955b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 05/39] fix: keep an account's pointers to its posts valid when
 a transaction gets more posts

---
 src/journal.rs | 2 +-
 src/xact.rs    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..486bb5a 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -42,7 +42,7 @@ impl Journal {
     }
 
     pub fn all_posts(&self) -> Vec<&Post> {
-        self.xacts.iter().flat_map(|x| x.posts.iter()).collect()
+        self.xacts.iter().flat_map(|x| x.posts.iter().map(|p| &**p)).collect()
     }
 
     pub fn get_account(&self, acct_ptr: *const Account) -> &Account {
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..6a50426 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -15,7 +15,9 @@ pub struct Xact {
     pub date: Option<NaiveDate>,
     pub aux_date: Option<NaiveDate>,
     pub payee: String,
-    pub posts: Vec<Post>,
+    /// Boxed, because accounts hold pointers to their posts, which have to stay
+    /// valid when more posts are added.
+    pub posts: Vec<Box<Post>>,
     pub note: Option<String>,
     // pub balance: Amount,
 }
@@ -78,7 +80,7 @@ impl Xact {
     /// Adds the post to the collection and returns the reference to it.
     pub fn add_post(&mut self, mut post: Post) -> &Post {
         post.xact_ptr = self as *const Xact;
-        self.posts.push(post);
+        self.posts.push(Box::new(post));
 
         self.posts.last().unwrap()
     }
@@ -138,7 +140,7 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         } else if !null_post.is_null() {
             todo!()
         } else {
-            null_post = post as *mut Post;
+            null_post = &mut **post as *mut Post;
         }
     }
 
-- 
2.43.0


From 7da2f8744425eecf91537bdbaedc50dd27479f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:23 +0000
Subject: [PATCH 06/39] fix: keep a post's pointer to its transaction valid
 when the journal grows

---
 src/journal.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 486bb5a..9be5621 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,7 +36,23 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        let old_location = self.xacts.as_ptr();
         self.xacts.push(xact);
+
+        // The new transaction was moved into the journal and, if the collection had
+        // to grow, so were all the others. Point their posts to the new location.
+        let moved_from = if self.xacts.as_ptr() == old_location {
+            self.xacts.len() - 1
+        } else {
+            0
+        };
+        for xact in &mut self.xacts[moved_from..] {
+            let xact_ptr = xact as *const Xact;
+            for post in &mut xact.posts {
+                post.xact_ptr = xact_ptr;
+            }
+        }
+
         //self.xacts.len() - 1
         self.xacts.last().unwrap()
     }
-- 
2.43.0


From b771c35d7c215b3165baa600a86d9995eb9c2f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:27 +0000
Subject: [PATCH 07/39] fix: parse a transaction header that ends with a date

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..41f94e4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -256,7 +256,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 
     fn create_xact(&mut self) -> *const Xact {
-        let tokens = scanner::tokenize_xact_header(&self.buffer);
+        let tokens = scanner::tokenize_xact_header(self.buffer.trim_end());
         let xact = Xact::create(tokens[0], tokens[1], tokens[2], tokens[3]);
 
         // Add xact to the journal
-- 
2.43.0


From 7a4275916aee674171ae4c174df1f8d6e73ef760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:30 +0000
Subject: [PATCH 08/39] fix: skip the blank lines that contain whitespace

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 41f94e4..6d543e7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -142,7 +142,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // }
         // let length = self.buffer.len();
         // log::debug!("line length: {:?}", length);
-        if self.buffer == "\r\n" || self.buffer == "\n" {
+        if self.buffer.trim().is_empty() {
             return Ok(());
         }
 
-- 
2.43.0


From d7a8ef48aeb9ed032b64f2b48d6895f6493fbdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:34 +0000
Subject: [PATCH 09/39] fix: read the whole cost when there is no space after
 the @ sign

---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From 078b3237edbb82d0ed44ccb69fffd39a40765910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 10/39] fix: looking up a missing sub-account finds nothing
 instead of panicking

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index dba63e2..f83fe62 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -134,7 +134,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From 48c6a8d050d7f7d0fc3b69d497e364de2293dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 11/39] fix: looking up the index of an unknown commodity finds
 nothing instead of panicking

---
 src/pool.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 20e2763..3b77aa9 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -104,8 +104,7 @@ impl CommodityPool {
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
-        let x = self.commodities.get(symbol);
-        x.unwrap().graph_index
+        self.commodities.get(symbol)?.graph_index
     }
 
     /// Finds a commodity with the given symbol, or creates one.
-- 
2.43.0


From 1fd09d27a0ad9fe6dcce541db27a629a9295959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:38 +0000
Subject: [PATCH 12/39] fix: do not read the note or the trailing spaces of a
 posting as its amount

---
 src/scanner.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..2fcb2cc 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,17 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+
+    // The note is not a part of the amount.
+    let input = &input[sep_index + 2..];
+    let input = input.split(';').next().unwrap_or("").trim();
+    if input.is_empty() {
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
-- 
2.43.0


From c4daf14ae0bbff6f7da3b20dbb80a07c6406de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:48 +0000
Subject: [PATCH 13/39] fix: do not replace the given costs with the inferred
 ones

---
 src/xact.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index 6a50426..1bef68d 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -156,15 +156,18 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         // total value of one commodity by the total value of the other.  This
         // establishes the per-unit cost for this post for both commodities.
 
+        let mut saw_cost = false;
         let mut top_post: Option<&Post> = None;
         for post in &xact.posts {
+            if post.cost.is_some() {
+                saw_cost = true;
+            }
             if post.amount.is_some() && top_post.is_none() {
                 top_post = Some(post);
             }
         }
 
-        // if !saw_cost && top_post
-        if top_post.is_some() {
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From d559992ae50e17d5293640df27d16ed2cf22ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:01 +0000
Subject: [PATCH 14/39] fix: the date of a calculated rate does not depend on
 the current time

---
 src/history.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..1976e73 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent: Option<NaiveDateTime> = None;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
@@ -174,8 +174,8 @@ impl CommodityHistory {
                 .expect("price"); // , moment, oldest);
 
             // date
-            if temp_date < least_recent {
-                least_recent = temp_date;
+            if least_recent.map_or(true, |date| temp_date < date) {
+                least_recent = Some(temp_date);
             }
 
             // calculate the amount.
@@ -188,7 +188,7 @@ impl CommodityHistory {
             temp_source = temp_target;
         }
 
-        let when = least_recent;
+        let when = least_recent.expect("at least one rate");
 
         // TODO: add to the price map.
         // self.add_price(commodity_index, datetime, price);
-- 
2.43.0


From 9e41fad3b567724e98e37320d3ee7cfdef4b5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:10 +0000
Subject: [PATCH 15/39] fix: do not take the program name for the command

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..0a1ed44 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // Without the program name.
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From b675ada188c6cd3245bcca459bcbe2d327627234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:48 +0000
Subject: [PATCH 16/39] fix: read the price directives in a journal

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6d543e7..ea6ef69 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -237,6 +237,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // the price, handled by the caller.
+            'P' if directive == "P" => (),
+
             // ptvy
             _ => {
                 todo!("handle")
@@ -252,7 +255,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // pass on to the commodity pool
         self.journal
             .commodity_pool
-            .parse_price_directive(&self.buffer);
+            .parse_price_directive(self.buffer.trim_end());
     }
 
     fn create_xact(&mut self) -> *const Xact {
-- 
2.43.0


From c48e9fb33d9d203f154208761c5abac7996ce0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:56 +0000
Subject: [PATCH 17/39] fix: read the quantities with thousands separators

---
 src/amount.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/amount.rs b/src/amount.rs
index 04e770b..24547c2 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -201,7 +201,8 @@ impl Quantity {
     pub const ONE: Quantity = Quantity(rust_decimal::Decimal::ONE);
 
     pub fn from_str(str: &str) -> Option<Self> {
-        let parsed = rust_decimal::Decimal::from_str_exact(str);
+        // The comma is the thousands separator.
+        let parsed = rust_decimal::Decimal::from_str_exact(&str.replace(',', ""));
         if parsed.is_err() {
             return None;
         }
-- 
2.43.0


From 7d24e20e587cffd1ffa7e238d3ea9126fa481a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:04 +0000
Subject: [PATCH 18/39] fix: reject the amounts and costs that cannot be read
 instead of dropping them

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ea6ef69..8ff4875 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -425,6 +425,9 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
 
     // create amount
     let amount_opt = parse_amount_parts(tokens.quantity, tokens.symbol, journal);
+    if amount_opt.is_none() && !tokens.quantity.is_empty() {
+        panic!("Invalid amount in {:?}", input);
+    }
 
     // parse and add annotations.
     {
@@ -488,10 +491,9 @@ fn parse_cost(
 
     // parse cost (per-unit vs total)
     let cost_result = parse_amount_parts(tokens.cost_quantity, tokens.cost_symbol, journal);
-    if cost_result.is_none() {
-        return None;
-    }
-    let mut cost = cost_result.unwrap();
+    let Some(mut cost) = cost_result else {
+        panic!("Invalid cost {:?}", tokens.cost_quantity)
+    };
 
     if tokens.is_per_unit {
         // per-unit cost
-- 
2.43.0


From 3c7e004b7a37daa2c5cfde11db9fef51e57decae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:11 +0000
Subject: [PATCH 19/39] fix: count only the transactions that were read from
 the given source

---
 src/journal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/journal.rs b/src/journal.rs
index 9be5621..c07e81c 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -113,10 +113,12 @@ impl Journal {
     ///
     /// returns number of transactions parsed
     pub fn read<T: Read>(&mut self, source: T) -> usize {
+        let existing = self.xacts.len();
+
         // read_textual
         parser::read_into_journal(source, self);
 
-        self.xacts.len()
+        self.xacts.len() - existing
     }
 }
 
-- 
2.43.0


From 0dc76a6ebc0823ddce8aa833b8fd3bb9004d3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 20/39] fix: adding a note keeps the existing notes

---
 src/post.rs | 6 +++++-
 src/xact.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/post.rs b/src/post.rs
index 9c70026..3757fe1 100644
--- a/src/post.rs
+++ b/src/post.rs
@@ -48,7 +48,11 @@ impl Post {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        // keep the existing note(s).
+        self.note = match self.note.take() {
+            Some(existing) => Some(format!("{}\n{}", existing, note)),
+            None => Some(note.into()),
+        };
     }
 }
 
diff --git a/src/xact.rs b/src/xact.rs
index 1bef68d..8e99571 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -74,7 +74,11 @@ impl Xact {
     }
 
     pub fn add_note(&mut self, note: &str) {
-        self.note = Some(note.into());
+        // keep the existing note(s).
+        self.note = match self.note.take() {
+            Some(existing) => Some(format!("{}\n{}", existing, note)),
+            None => Some(note.into()),
+        };
     }
 
     /// Adds the post to the collection and returns the reference to it.
-- 
2.43.0


From dd7b57cf3b44a978d8bc285c06fd9007adbc5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 21/39] fix: the basis cost of a commodity without a lot price
 is its cost

---
 src/parser.rs |  8 +++++---
 src/pool.rs   | 11 ++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8ff4875..2ff1564 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -442,9 +442,11 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
         // details.price /= amount
 
         // store annotation
-        journal
-            .commodity_pool
-            .find_or_create(tokens.symbol, Some(annotation));
+        if annotation.price.is_some() || annotation.date.is_some() {
+            journal
+                .commodity_pool
+                .find_or_create(tokens.symbol, Some(annotation));
+        }
     }
 
     // handle cost (2nd amount)
diff --git a/src/pool.rs b/src/pool.rs
index 3b77aa9..f782cc7 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -205,13 +205,10 @@ impl CommodityPool {
         };
 
         // "exchange: basis-cost    = "
-        if let Some(annotation) = annotation_opt {
-            if let Some(ann_price) = annotation.price {
-                breakdown.basis_cost = ann_price * (*amount);
-            }
-        } else {
-            breakdown.basis_cost = breakdown.final_cost;
-        }
+        breakdown.basis_cost = match annotation_opt.and_then(|annotation| annotation.price) {
+            Some(ann_price) => ann_price * (*amount),
+            None => breakdown.final_cost,
+        };
 
         breakdown.amount = *amount;
 
-- 
2.43.0


From 2016bcf56a757ce8cf867a697d6e0ad13d41ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:34 +0000
Subject: [PATCH 22/39] fix: report the missing included files instead of
 skipping them

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2ff1564..e93f502 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -363,7 +363,7 @@ impl<'j, T: Read> Parser<'j, T> {
 
         // TODO: resolve glob, i.e *.ledger
 
-        // let mut file_found = false;
+        let mut file_found = false;
         let parent_path = filename.parent().unwrap();
         if parent_path.exists() {
             if filename.is_file() {
@@ -371,12 +371,13 @@ impl<'j, T: Read> Parser<'j, T> {
 
                 // read file.
                 parse_file(filename.to_str().unwrap(), self.journal);
+                file_found = true;
             }
         }
 
-        // if !file_found {
-        //     panic!("Include file not found");
-        // }
+        if !file_found {
+            panic!("Include file not found");
+        }
     }
 
     /// Parses the trailing note from the buffer.
-- 
2.43.0


From 0cdcda561b2bccfe5259edec9c19c048b7e91686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:58 +0000
Subject: [PATCH 23/39] hook: read-only access to internals with --cfg
 ledger_verif

---
 src/lib.rs         |  2 +
 src/verif_hooks.rs | 91 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 93 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8292147..321ff1e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,8 @@ pub mod report;
 pub mod scanner;
 pub mod utilities;
 mod value;
+#[cfg(ledger_verif)]
+pub mod verif_hooks;
 pub mod xact;
 
 /// An entry point for the CLIs.
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..c9c482a
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,91 @@
+/*!
+ * Read-only access to internal state, for the external verification harness.
+ *
+ * Compiled only with `--cfg ledger_verif`.
+ */
+
+use chrono::{NaiveDate, NaiveDateTime};
+use petgraph::visit::EdgeRef;
+
+use crate::{
+    account::Account,
+    amount::{Amount, Quantity},
+    balance::Balance,
+    commodity::Commodity,
+    option,
+    pool::CommodityPool,
+};
+
+/// The parent pointer of the account.
+pub fn account_parent(account: &Account) -> *const Account {
+    account.parent
+}
+
+/// The price of the source commodity in the target commodity.
+pub fn find_price(
+    pool: &CommodityPool,
+    source: *const Commodity,
+    target: *const Commodity,
+    moment: NaiveDateTime,
+    oldest: NaiveDateTime,
+) -> Option<(NaiveDateTime, Amount)> {
+    pool.commodity_history
+        .find_price(source, target, moment, oldest)
+        .map(|point| (point.when, point.price))
+}
+
+/// All the recorded prices: commodity, price commodity, moment, rate.
+pub fn prices(
+    pool: &CommodityPool,
+) -> Vec<(*const Commodity, *const Commodity, NaiveDateTime, Quantity)> {
+    let history = &pool.commodity_history;
+    let mut result = vec![];
+    for edge in history.edge_references() {
+        let source = *history.node_weight(edge.source()).unwrap();
+        let target = *history.node_weight(edge.target()).unwrap();
+        for (moment, rate) in edge.weight() {
+            result.push((source, target, *moment, *rate));
+        }
+    }
+    result
+}
+
+/// The recorded lot annotations: symbol, price, date.
+pub fn lots(pool: &CommodityPool) -> Vec<(String, Option<Amount>, Option<NaiveDate>)> {
+    pool.annotated_commodities
+        .iter()
+        .map(|(symbol, annotation)| (symbol.to_owned(), annotation.price, annotation.date))
+        .collect()
+}
+
+/// Separates the commands from the input files.
+pub fn process_arguments(args: Vec<String>) -> (Vec<String>, Vec<String>) {
+    let (commands, options) = option::process_arguments(args);
+    (commands, options.filenames)
+}
+
+/// Adds (true) and subtracts (false) the amounts, starting with an empty balance.
+pub fn balance_of(terms: &[(bool, Amount)]) -> Vec<Amount> {
+    let mut balance = Balance::new();
+    for (is_added, amount) in terms {
+        if *is_added {
+            balance += *amount;
+        } else {
+            balance -= *amount;
+        }
+    }
+    balance.amounts
+}
+
+/// Sums up the balances of the given groups of amounts.
+pub fn balance_sum(groups: &[Vec<Amount>]) -> Vec<Amount> {
+    let mut total = Balance::new();
+    for group in groups {
+        let mut balance = Balance::new();
+        for amount in group {
+            balance.add(amount);
+        }
+        total += balance;
+    }
+    total.amounts
+}
-- 
2.43.0


From 9b6105b6d6405473826b9b169372717fbde8adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:18 +0000
Subject: [PATCH 24/39] fix: reject the amounts, costs and lot prices that have
 no number

---
 src/annotate.rs | 4 +++-
 src/parser.rs   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..551066d 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -36,8 +36,10 @@ impl Annotation {
 
         let price = if let Some(quantity) = Quantity::from_str(quantity) {
             Some(Amount::new(quantity, Some(commodity)))
-        } else {
+        } else if quantity.is_empty() && commodity_symbol.is_empty() {
             None
+        } else {
+            panic!("Invalid lot price {:?} {:?}", quantity, commodity_symbol)
         };
         
         let result = Self {
diff --git a/src/parser.rs b/src/parser.rs
index e93f502..bbffa36 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -426,7 +426,7 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
 
     // create amount
     let amount_opt = parse_amount_parts(tokens.quantity, tokens.symbol, journal);
-    if amount_opt.is_none() && !tokens.quantity.is_empty() {
+    if amount_opt.is_none() && !(tokens.quantity.is_empty() && tokens.symbol.is_empty()) {
         panic!("Invalid amount in {:?}", input);
     }
 
@@ -488,7 +488,7 @@ fn parse_cost(
     amount: &Option<Amount>,
     journal: &mut Journal,
 ) -> Option<Amount> {
-    if tokens.cost_quantity.is_empty() || amount.is_none() {
+    if amount.is_none() || (tokens.cost_quantity.is_empty() && tokens.cost_symbol.is_empty()) {
         return None;
     }
 
-- 
2.43.0


From 766e1670f78875955e1bb5d3e5ccb4f434b433d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 25/39] fix: reject unexpected text after the amount instead of
 ignoring it

---
 src/scanner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 2fcb2cc..b574f2c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -231,6 +231,9 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
         true => CostTokens::new(),
         false => scan_cost(input),
     };
+    if !input.is_empty() && (!input.starts_with('@') || !cost_tokens.remainder.is_empty()) {
+        panic!("Unexpected text after the amount: {:?}", input);
+    }
 
     // TODO: handle post comment
     // scan_xyz(input)
-- 
2.43.0


From 53d38392b250cdd6d93f00a2a58f4a07c483cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:13 +0000
Subject: [PATCH 26/39] fix: a line of tabs ends the transaction like other
 blank lines

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index bbffa36..446ac16 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -316,6 +316,10 @@ impl<'j, T: Read> Parser<'j, T> {
                             // empty line "\r\n". Exit.
                             break;
                         }
+                        _ if self.buffer.trim().is_empty() => {
+                            // blank line, with other whitespace.
+                            break;
+                        }
                         _ => {
                             panic!("should not happen")
                         }
-- 
2.43.0


From 210aa663b249bdbed5bae575cae9e81666c49553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:52 +0000
Subject: [PATCH 27/39] fix: refuse the commas that do not separate thousands

---
 src/amount.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/amount.rs b/src/amount.rs
index 24547c2..e299118 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -201,7 +201,17 @@ impl Quantity {
     pub const ONE: Quantity = Quantity(rust_decimal::Decimal::ONE);
 
     pub fn from_str(str: &str) -> Option<Self> {
-        // The comma is the thousands separator.
+        // The comma is the thousands separator. Anywhere else it is not a part of a number.
+        let (whole, fraction) = str.split_once('.').unwrap_or((str, ""));
+        if let Some((first, rest)) = whole.trim_start_matches('-').split_once(',') {
+            if first.is_empty() || first.len() > 3 || rest.split(',').any(|group| group.len() != 3) {
+                return None;
+            }
+        }
+        if fraction.contains(',') {
+            return None;
+        }
+
         let parsed = rust_decimal::Decimal::from_str_exact(&str.replace(',', ""));
         if parsed.is_err() {
             return None;
-- 
2.43.0


From d97dcf4d630e72d273fc0b16821b755186c30e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:05 +0000
Subject: [PATCH 28/39] fix: refuse a lot or a cost without the amount it
 belongs to

---
 src/parser.rs  |  3 +++
 src/scanner.rs | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 446ac16..aeb9177 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -433,6 +433,9 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
     if amount_opt.is_none() && !(tokens.quantity.is_empty() && tokens.symbol.is_empty()) {
         panic!("Invalid amount in {:?}", input);
     }
+    if amount_opt.is_none() && tokens.has_lot_or_cost() {
+        panic!("No amount before the lot or the cost in {:?}", input);
+    }
 
     // parse and add annotations.
     {
diff --git a/src/scanner.rs b/src/scanner.rs
index b574f2c..5d2ed84 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -34,6 +34,19 @@ impl PostTokens<'_> {
             is_per_unit: false,
         }
     }
+
+    /// There is a lot price, a lot date, or a cost. These belong to an amount.
+    pub fn has_lot_or_cost(&self) -> bool {
+        [
+            self.price_quantity,
+            self.price_commodity,
+            self.price_date,
+            self.cost_quantity,
+            self.cost_symbol,
+        ]
+        .iter()
+        .any(|token| !token.is_empty())
+    }
 }
 
 /// Structure for the tokens from scanning the Amount part of the Posting.
-- 
2.43.0


From 07290a6c58109000e983aedd232189eabb20f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:09 +0000
Subject: [PATCH 29/39] fix: the braces and brackets of a lot are not a part of
 the symbol

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 5d2ed84..c352209 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -376,7 +376,7 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        if c.is_whitespace() || c.is_digit(10) || "@-{}[]".contains(c) {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From 45b5d2e8f12ca34f842aaefad33c2fd0baa02959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:12 +0000
Subject: [PATCH 30/39] fix: refuse the text after a lot price or date, and an
 empty lot date

---
 src/scanner.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index c352209..5ac23a4 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -310,7 +310,10 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
             // todo: is it fixated price {=xyz}
 
             let (amount, rest) = scan_until(&input[1..], '}');
-            let (amount_tokens, _) = scan_amount(amount);
+            let (amount_tokens, remainder) = scan_amount(amount.trim_end());
+            if !remainder.is_empty() {
+                panic!("Unexpected text after the lot price: {:?}", remainder);
+            }
 
             result.quantity = amount_tokens.quantity;
             result.symbol = amount_tokens.symbol;
@@ -324,8 +327,11 @@ fn scan_annotations(input: &str) -> (AnnotationTokens, &str) {
                 panic!("Commodity specifies more than one date");
             }
             let (date_input, rest) = scan_until(&input[1..], ']');
-            let (date, _) = scan_date(date_input);
-            
+            let date = date_input.trim();
+            if date.is_empty() {
+                panic!("Lot date is missing");
+            }
+
             result.date = date;
 
             // skip the closing ]
-- 
2.43.0


From 95e818f5f23ff13006f5fc80faff6f7509951172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:15 +0000
Subject: [PATCH 31/39] fix: refuse the text after the price in a price
 directive

---
 src/scanner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 5ac23a4..28416c2 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -461,7 +461,13 @@ pub(crate) fn scan_price_directive(input: &str) -> [&str; 5] {
 
     // price, commodity
     let input = input.trim_start();
-    let (price_commodity, _input) = scan_price_element(input);
+    let (price_commodity, input) = scan_price_element(input);
+
+    // Only a note may follow.
+    let input = input.trim_start();
+    if !input.is_empty() && !input.starts_with(';') {
+        panic!("Unexpected text after the price: {:?}", input);
+    }
 
     [date, time, commodity, quantity, price_commodity]
 }
-- 
2.43.0


From 30febd5666ed8f5683b09f7d5a27db82f129dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:19 +0000
Subject: [PATCH 32/39] fix: parse_amount does not ignore the text after the
 amount

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index aeb9177..02cc2b5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -61,7 +61,10 @@ pub fn parse_datetime(iso_str: &str) -> Result<NaiveDateTime, anyhow::Error> {
 }
 
 pub fn parse_amount(amount_str: &str, journal: &mut Journal) -> Option<Amount> {
-    let (tokens, _) = scanner::scan_amount(amount_str);
+    let (tokens, remainder) = scanner::scan_amount(amount_str);
+    if !remainder.is_empty() {
+        return None;
+    }
     parse_amount_parts(tokens.quantity, tokens.symbol, journal)
 }
 
-- 
2.43.0


From d758472571015ab9b6d2f5a4f78aebf3cb9c65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:23 +0000
Subject: [PATCH 33/39] fix: an unknown directive starting with i is not a
 price

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 02cc2b5..d2a021d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -237,7 +237,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 "import" => {
                     todo!("import directive")
                 }
-                _ => (),
+                _ => {
+                    todo!("handle")
+                }
             },
 
             // the price, handled by the caller.
-- 
2.43.0


From d644290451e4af1f321c7153309a5a3859de22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:26 +0000
Subject: [PATCH 34/39] fix: refuse a journal which can not be read to its end

---
 src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d2a021d..61b071b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,8 +112,7 @@ impl<'j, T: Read> Parser<'j, T> {
         loop {
             match self.reader.read_line(&mut self.buffer) {
                 Err(err) => {
-                    println!("Error: {:?}", err);
-                    break;
+                    panic!("Error reading the journal: {:?}", err);
                 }
                 Ok(0) => {
                     // end of file
@@ -282,8 +281,7 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
                 Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
+                    panic!("Error reading the journal: {:?}", e);
                 }
                 Ok(0) => {
                     // end of file
-- 
2.43.0


From ebd2cc8179d193a625ad7e7c351e6b7a1c278d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:48 +0000
Subject: [PATCH 35/39] fix: the note of a price directive is not a part of the
 price

---
 src/scanner.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 28416c2..edc98d9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -436,8 +436,8 @@ fn scan_cost(input: &str) -> CostTokens {
 ///
 /// returns [date, time, commodity, quantity, price_commodity]
 pub(crate) fn scan_price_directive(input: &str) -> [&str; 5] {
-    // Skip the starting P and whitespace.
-    let input = input[1..].trim_start();
+    // Skip the starting P and whitespace. The note is not a part of the price.
+    let input = input[1..].split(';').next().unwrap_or("").trim();
 
     // date
     let (date, input) = scan_price_element(input);
@@ -463,9 +463,7 @@ pub(crate) fn scan_price_directive(input: &str) -> [&str; 5] {
     let input = input.trim_start();
     let (price_commodity, input) = scan_price_element(input);
 
-    // Only a note may follow.
-    let input = input.trim_start();
-    if !input.is_empty() && !input.starts_with(';') {
+    if !input.trim().is_empty() {
         panic!("Unexpected text after the price: {:?}", input);
     }
 
-- 
2.43.0


From 1ef0d6fe031085103d4eba8ec1d90438a1c68489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:09 +0000
Subject: [PATCH 36/39] fix: refuse account names with an empty part

---
 src/journal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/journal.rs b/src/journal.rs
index c07e81c..17e54dc 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -82,7 +82,7 @@ impl Journal {
     ///                                         account_t * master_account)
     ///
     pub fn register_account(&mut self, name: &str) -> Option<*const Account> {
-        if name.is_empty() {
+        if name.split(':').any(|part| part.is_empty()) {
             panic!("Invalid account name {:?}", name);
         }
 
-- 
2.43.0


From ed28a5b1b4fa5850f22baef92699d90005f96150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:28 +0000
Subject: [PATCH 37/39] fix: keep the amounts of the balance report apart

---
 src/report.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/report.rs b/src/report.rs
index af8582f..3a40ac1 100644
--- a/src/report.rs
+++ b/src/report.rs
@@ -46,6 +46,10 @@ fn get_children_lines<'a>(account: &'a Account, journal: &'a Journal) -> Vec<Str
     let mut balance_line = String::new();
     let total = account.total();
     for amount in total.amounts {
+        // Keep an amount which ends in a digit apart from the next one.
+        if balance_line.ends_with(|c: char| c.is_ascii_digit()) {
+            balance_line += " ";
+        }
         balance_line += amount.quantity.to_string().as_str();
         if amount.get_commodity().is_some() {
             if let Some(c) = amount.get_commodity() {
-- 
2.43.0


From 74b61b29369e3cdd06e45679bc734e77ab9f31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:53 +0000
Subject: [PATCH 38/39] fix: refuse option lines instead of ignoring them

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 61b071b..99a5947 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,7 +157,7 @@ impl<'j, T: Read> Parser<'j, T> {
             }
 
             '-' => {
-                // option_directive
+                todo!("option directive")
             }
 
             '0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9' => {
-- 
2.43.0


From 5d73170b42a46d58339e6ebc521713eb6bb6c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 39/39] fix: include takes the whole path, not only its first
 word

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 99a5947..f9dff6b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -229,7 +229,14 @@ impl<'j, T: Read> Parser<'j, T> {
             // bcde
             'i' => match directive {
                 "include" => {
-                    let own_argument = argument.unwrap().to_owned();
+                    argument.expect("the path to include");
+                    // the path is the rest of the line, up to the note.
+                    let path = self.buffer.trim()[directive.len()..].trim_start();
+                    let end = path
+                        .match_indices(';')
+                        .find(|(i, _)| path[..*i].ends_with(char::is_whitespace))
+                        .map_or(path.len(), |(i, _)| i);
+                    let own_argument = path[..end].trim_end().to_owned();
                     self.include_directive(&own_argument);
                     return true;
                 }
-- 
2.43.0

