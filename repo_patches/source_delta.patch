From 7f1c0e8f4dee3d96d931c14ba566e5aa0c94bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 01/31] fix: a selector that ends early is an error, not a
 panic in the pattern matchers

Selectors such as '.', '#', '[a' or ':nth-child(2' made Identity and the
single char pattern index an empty slice while the rule registry was locked,
which panicked and poisoned the registry for every later query.
---
 src/mesdoc/selector/pattern.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..334b762 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,14 +44,13 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
-			return Some(Matched {
+		match chars.first() {
+			Some(&ch) if *self == ch => Some(Matched {
 				chars: vec![ch],
 				..Default::default()
-			});
+			}),
+			_ => None,
 		}
-		None
 	}
 }
 
@@ -92,7 +91,10 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
+		let first = match chars.first() {
+			Some(&first) => first,
+			None => return None,
+		};
 		let name: &str = "identity";
 		if !(first.is_ascii_alphabetic() || first == '_') {
 			return None;
-- 
2.43.0


From 51f0c9e42be36afb5436dde62850202614413ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:40 +0000
Subject: [PATCH 02/31] fix: an unclosed nested selector is an error, not a
 panic

':not(' or ':has(a' ran off the end of the selector, returned an empty match
and made the rule's factory index past it while the registries were locked.
---
 src/mesdoc/selector/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..c2947e5 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -374,10 +374,14 @@ impl Selector {
 						}
 					}
 				}
-				break;
+				return Ok((index, matched));
 			}
 		}
-		Ok((index, matched))
+		// reached the end of the selector before the nested selector was closed
+		Err(Error::InvalidSelector {
+			context: chars.iter().collect::<String>(),
+			reason: String::from("Nested selector is not closed"),
+		})
 	}
 }
 
-- 
2.43.0


From 33b9919ff71cb5bac40df6a73870635b39a31b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:19 +0000
Subject: [PATCH 03/31] fix: an oversized number in an nth selector is an
 invalid selector, not a panic

---
 src/mesdoc/rules/pseudo.rs     | 6 +++---
 src/mesdoc/selector/pattern.rs | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..da7babe 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,11 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
+	// the nth pattern only accepts numbers in range, 0 matches nothing
 	index
 		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+		.and_then(|index| index.parse::<isize>().ok())
+		.unwrap_or(0)
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 334b762..ff3db45 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -232,6 +232,10 @@ impl Pattern for Nth {
 				matched_chars = odd;
 			}
 		}
+		// a number out of range is not a valid nth
+		if data.values().any(|num| num.parse::<i32>().is_err()) {
+			return None;
+		}
 		if !data.is_empty() {
 			return Some(Matched {
 				name: "nth",
-- 
2.43.0


From ad9e5486ea8e4a0a5b65f10e1af9a44973842ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 04/31] fix: floor and ceil division of a quotient between -1
 and 1

':nth-child(2n+3)' among two children, ':nth-child(3n-1)' and the like got a
wrong first or last position and indexed out of range or missed elements.
---
 src/mesdoc/utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..a7cd45d 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -85,14 +85,15 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	use RoundType::*;
 	match round {
 		Floor => {
-			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			// the quotient was truncated to zero, so it's only greater than
+			// the exact value when the operands have different signs
+			if remainder != 0 && (a < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
-			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			// only less than the exact value when the operands have the same sign
+			if remainder != 0 && (a < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From fa92f123263a8cce2c527261871a3d532281b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:58 +0000
Subject: [PATCH 05/31] fix: last-child style selectors on an element without
 child nodes

The start position of the backward walk underflowed for find(':last-child'),
find(':nth-last-child(n)'), find(':last-of-type') on a childless element.
---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index da7babe..1880a57 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From 05916108b2795e303dde819133ff5d9c476504c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:03 +0000
Subject: [PATCH 06/31] fix: last, slice and invalid selectors on empty sets
 and odd ranges don't panic

---
 src/mesdoc/interface/elements.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..1f1b0c6 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,7 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		if let Some(doc) = &self.get(0).and_then(|ele| ele.owner_document()) {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
@@ -2521,7 +2517,10 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		match self.get_ref().last() {
+			Some(ele) => Elements::with_node(ele),
+			None => Elements::new(),
+		}
 	}
 
 	/// Get a subset specified by a range of indices.
@@ -2584,12 +2583,15 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
 				if cur_end < end {
-					end = cur_end;
+					end = cur_end + 1;
 				}
 			}
 		}
+		// an inverted range is empty
+		if end < start {
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From 332fe91c73c60f5b325922749a92b4b66d0cfb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 07/31] fix: remove_attribute removes the attribute whatever
 the case of the name

remove_attr("CLASS") blanked the attribute but left its name behind, so it
still read as present.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..1d517ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -734,8 +734,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn remove_attribute(&mut self, name: &str) {
 		if let Some(meta) = &self.borrow().meta {
 			let mut find_index: Option<usize> = None;
+			let lc_name = name.to_ascii_lowercase();
 			if !meta.borrow().lc_name_map.is_empty() {
-				let lc_name = name.to_ascii_lowercase();
 				if let Some(&index) = meta.borrow().lc_name_map.get(&lc_name) {
 					find_index = Some(index);
 				}
@@ -744,7 +744,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta.borrow_mut().lc_name_map.remove(&lc_name);
 			}
 		}
 	}
-- 
2.43.0


From 14186789b7d1650e957e53bb6fdb7fca7a42071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:26 +0000
Subject: [PATCH 08/31] fix: setting an existing attribute also updates its
 quote

The new value was written between the old value's quotes (or none), so a value
with a quote or a space broke out of the attribute when serialised.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d517ec..3679a88 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -708,9 +708,13 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			} else {
 				None
 			};
-			// find the attribute, just set the value
+			let quote = if value.is_some() { Some(quote) } else { None };
+			// find the attribute, set the value and the quote it needs
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				attr.value = value;
+				attr.quote = quote;
+				attr.need_quote = need_quote;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
@@ -718,7 +722,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			// insert name and index into name map
 			meta.borrow_mut().lc_name_map.insert(lc_name, index);
 			// add to attrs
-			let quote = if value.is_some() { Some(quote) } else { None };
 			meta.borrow_mut().attrs.push(Attr {
 				key: Some(AttrData {
 					content: name.chars().collect(),
-- 
2.43.0


From 2403ba66c17c5743015820ba35ef528ffaa5b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:01 +0000
Subject: [PATCH 09/31] fix: attributes and html of a document root don't panic

---
 src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3679a88..96beb49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -611,10 +611,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		// the document's root node has no meta
+		let meta = node.meta.as_ref()?;
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -634,10 +632,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			// the document's root node has no meta
+			None => return vec![],
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
@@ -754,11 +753,14 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	/// impl `inner_html`
 	fn inner_html(&self) -> String {
+		// the renderer only supports a root node that has exactly one tag,
+		// otherwise the inner html of the root is the html of all it's childs
+		let inner_html = !self.is_root_element() || self.children().length() == 1;
 		self
 			.borrow()
 			.build(
 				&RenderOptions {
-					inner_html: true,
+					inner_html,
 					encode_content: true,
 					..Default::default()
 				},
-- 
2.43.0


From 1f97541a198ecfbbcbe039176c053bcd4c5b27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:48 +0000
Subject: [PATCH 10/31] fix: a removed node has no parent

Removing an element or text node twice used the stale parent and position and
removed an unrelated sibling or panicked; a removed element was still found by
its id.
---
 src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 96beb49..7bf70c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -398,14 +398,14 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
 			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
-				if let Some(parent) = parent.upgrade() {
-					if let Some(childs) = &mut parent.borrow_mut().childs {
-						// remove the text node
-						childs.remove(index);
-						// change next siblings index
-						reset_next_siblings_index(index, &childs[index..]);
-					}
+			// the removed node has no parent any more
+			let parent = self.borrow_mut().parent.take();
+			if let Some(parent) = parent.and_then(|parent| parent.upgrade()) {
+				if let Some(childs) = &mut parent.borrow_mut().childs {
+					// remove the text node
+					childs.remove(index);
+					// change next siblings index
+					reset_next_siblings_index(index, &childs[index..]);
 				}
 			}
 		}
@@ -798,8 +798,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						if index != childs.len() - 1 {
 							reset_next_siblings_index(index, &childs[index + 1..]);
 						}
-						// remove child
-						childs.remove(index);
+						// remove child, it has no parent any more
+						let removed = childs.remove(index);
+						removed.borrow_mut().parent = None;
 					}
 				}
 			}
-- 
2.43.0


From 0e86c6f50f7a33b7a848a955ed5fb4fa33dca74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 11/31] fix: child nodes replaced by set_text or set_html have
 no parent any more

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7bf70c5..a526656 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,13 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// the nodes are replaced or removed, they don't have a parent any more
+fn detach_nodes(nodes: &Option<Vec<RefNode>>) {
+	for node in nodes.iter().flatten() {
+		node.borrow_mut().parent = None;
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -266,6 +273,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
 						// set childs
+						detach_nodes(&node.childs);
 						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
 					} else {
 						node.content = Some(content.chars().collect::<Vec<char>>());
@@ -273,6 +281,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				} else {
 					// empty content
 					if no_content_tag {
+						detach_nodes(&node.childs);
 						node.childs = None;
 					} else {
 						node.content = None;
@@ -363,6 +372,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(0, &nodes);
 						}
 						// set childs as new nodes
+						detach_nodes(&target.borrow().childs);
 						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
 					} else if let Some(childs) = &mut target.borrow_mut().childs {
 						let index = self.index();
@@ -386,6 +396,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					}
 				} else {
 					// empty html, just set childs to none
+					detach_nodes(&target.borrow().childs);
 					target.borrow_mut().childs = None;
 				}
 			}
-- 
2.43.0


From 13f24701558068fce4700b4c3ccd6be211f23ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:01 +0000
Subject: [PATCH 12/31] fix: set_html of a text node with empty html only
 removes the text node

It emptied the whole parent. Html that can't be parsed is now reported to the
document's error handler instead of a panic, unclosed tags are fixed as in load.
---
 src/lib.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a526656..19d4912 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -336,17 +336,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = Doc::parse(
-					content,
-					ParseOptions {
-						auto_fix_unexpected_endtag: true,
-						auto_fix_unescaped_lt: true,
-						allow_self_closing: true,
-						allow_attr_key_starts_with_equal_sign: true,
-						..Default::default()
-					},
-				)
-				.unwrap();
+				let doc_holder = match Doc::parse(content, Vis::options()) {
+					Ok(doc_holder) => doc_holder,
+					Err(err) => {
+						Dom::halt(self, "set_html", &err.to_string());
+						return;
+					}
+				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
 					let has_not_allowed = remove_not_allowed_nodes(
@@ -391,13 +387,21 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							// then just remove self
 							childs.remove(index);
 						}
+						// the text node is replaced, it has no parent any more
+						self.borrow_mut().parent = None;
 					} else {
 						// text node's parent can't be empty
 					}
-				} else {
+				} else if is_element {
 					// empty html, just set childs to none
 					detach_nodes(&target.borrow().childs);
 					target.borrow_mut().childs = None;
+				} else if let Some(childs) = &mut target.borrow_mut().childs {
+					// empty html, just remove the text node
+					let index = self.index();
+					childs.remove(index);
+					reset_next_siblings_index(index, &childs[index..]);
+					self.borrow_mut().parent = None;
 				}
 			}
 		}
-- 
2.43.0


From 8a41d5d1e71c6d6030c362c151748578669c0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:30 +0000
Subject: [PATCH 13/31] fix: set_html of a text node directly under the root
 doesn't panic

---
 src/lib.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 19d4912..cd8aa0a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -324,15 +324,8 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// a text node's parent may be the root node, it has no tag name
+			if check_if_content_tag(&target.tag_names()) {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
@@ -345,16 +338,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
+					let has_not_allowed = remove_not_allowed_nodes(&target.tag_names(), &mut nodes);
 					let has_nodes = !nodes.is_empty();
 					if has_nodes {
 						// set nodes parent as target
-- 
2.43.0


From 4563a367ec76fd39522445c21084739c9061bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 14/31] fix: add keeps all the elements of the second set, in
 document order

---
 src/mesdoc/interface/elements.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 1f1b0c6..097c2ac 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2725,7 +2725,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
@@ -2761,6 +2761,12 @@ impl<'a> Elements<'a> {
 				}
 			}
 		}
+		// the last of first is equal to an element of second, the left of second are all behind it
+		if fir_left_index > fir_right_index {
+			for index in sec_left_index..=sec_right_index {
+				mids.push((index, fir_left_index));
+			}
+		}
 		let mids_count = mids.len();
 		let mut result = Elements::with_capacity(first_count + mids_count);
 		// add first and mids
-- 
2.43.0


From c8b61e3ea83177c084ce7a8a4f434190678cf2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:27 +0000
Subject: [PATCH 15/31] fix: traversals of more than one element keep the
 document order

---
 src/mesdoc/interface/elements.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 097c2ac..1cfbd1f 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -458,7 +458,10 @@ impl<'a> Elements<'a> {
 						ancestors.push((ele_indexs, ele));
 					}
 					ElementRelation::Descendant => {}
-					_ => unreachable!("The elements call `unique_parents` is not ordered"),
+					// elements of different trees may have the same indexs
+					_ => {
+						ancestors.push((ele_indexs, ele));
+					}
 				}
 			} else {
 				ancestors.push((ele_indexs, ele));
@@ -902,6 +905,10 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// the elements may contain each other or be siblings, keep the document order
+		if elements.length() > 1 && !matches!(cur_comb, ChildrenAll | ParentAll | Chain) {
+			result.sort_and_unique();
+		}
 		result
 	}
 
@@ -1361,13 +1368,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
 		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
+			self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
+		// the prevs executed from last to first, and may be the prevs of more than one element
 		if result.length() > 1 {
-			result.get_mut_ref().reverse();
+			result.sort_and_unique();
 		}
 		result
 	}
@@ -1473,9 +1478,13 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		let mut result =
+			self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next);
+		// may be the nexts of more than one element
+		if result.length() > 1 {
+			result.sort_and_unique();
+		}
+		result
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
-- 
2.43.0


From 93c6bd6cee232d4d439af85a3870286aa028d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:12 +0000
Subject: [PATCH 16/31] fix: replace_with refuses a node that contains the
 replaced one, and detaches it

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cd8aa0a..cce249d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -930,6 +930,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			// base validate
+			let action = "replace with";
+			if !Dom::validate_dom_change(self, node, action) {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -983,11 +988,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// it's replaced, has no parent any more
+				self.borrow_mut().parent = None;
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
 			} else {
-				let action = "replace with";
 				Dom::halt(
 					self,
 					action,
-- 
2.43.0


From 2089ff360dd24a27b23f585716f32efb7f12ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 17/31] fix: inserting a document fragment moves its child
 nodes

---
 src/lib.rs                       | 23 +++++++++++------------
 src/mesdoc/interface/elements.rs | 23 +++++++++++++++++++----
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cce249d..e117d5e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -820,11 +820,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
-						}
+						// the childs are moved out of the fragment
+						let childs = dom.borrow_mut().childs.take();
+						detach_nodes(&childs);
+						childs.unwrap_or_default()
 					}
 					_ => {
 						// remove current node from parent's childs
@@ -942,14 +941,14 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							if childs.len() == 1 {
-								replace_ele = Some(Rc::clone(&childs[0]));
-							}
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
+						// the childs are moved out of the fragment
+						let childs = dom.borrow_mut().childs.take();
+						detach_nodes(&childs);
+						let childs = childs.unwrap_or_default();
+						if childs.len() == 1 {
+							replace_ele = Some(Rc::clone(&childs[0]));
 						}
+						childs
 					}
 					_ => {
 						// remove current node from parent's childs
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 1cfbd1f..4832629 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3676,18 +3676,33 @@ impl<'a> Elements<'a> {
 	}
 	// when feature 'insertion' is open
 	cfg_feat_insertion! {
+		// the childs of a document fragment are moved when it's inserted
+		// so only the last target gets the childs, the others get a copy of them
+		fn get_inserted(&self, is_last: bool) -> Elements<'a> {
+			let mut result = Elements::with_capacity(self.length());
+			for ele in self.get_ref() {
+				if !is_last && ele.is_root_element() {
+					result.push(ele.copied());
+				} else {
+					result.push(ele.cloned());
+				}
+			}
+			result
+		}
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
-			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				for inserted in dest.get_inserted(index + 1 == total).get_ref().iter().rev() {
 					ele.insert_adjacent(position, inserted);
 				}
 			}
 		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
-				for inserted in dest.get_ref().iter().rev() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				for inserted in dest.get_inserted(index + 1 == total).get_ref().iter().rev() {
 					ele.replace_with(inserted);
 				}
 			}
-- 
2.43.0


From 8709d89de2951c660ddfb5b0a3a1b38c99cb650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:51 +0000
Subject: [PATCH 18/31] fix: inserting or replacing with several elements keeps
 their order and all of them

---
 src/mesdoc/interface/elements.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 4832629..09a7b46 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3693,8 +3693,16 @@ impl<'a> Elements<'a> {
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
 			let total = self.length();
 			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
-				for inserted in dest.get_inserted(index + 1 == total).get_ref().iter().rev() {
-					ele.insert_adjacent(position, inserted);
+				let dest = dest.get_inserted(index + 1 == total);
+				if matches!(position, InsertPosition::AfterBegin | InsertPosition::AfterEnd) {
+					// always inserted at the start, so insert from the last to the first
+					for inserted in dest.get_ref().iter().rev() {
+						ele.insert_adjacent(position, inserted);
+					}
+				} else {
+					for inserted in dest.get_ref() {
+						ele.insert_adjacent(position, inserted);
+					}
 				}
 			}
 		}
@@ -3702,8 +3710,13 @@ impl<'a> Elements<'a> {
 		fn replace(&mut self, dest: &Elements){
 			let total = self.length();
 			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
-				for inserted in dest.get_inserted(index + 1 == total).get_ref().iter().rev() {
-					ele.replace_with(inserted);
+				let dest = dest.get_inserted(index + 1 == total);
+				// the last one takes the place, the others are before it
+				if let Some((last, others)) = dest.get_ref().split_last() {
+					for inserted in others {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
+					ele.replace_with(last);
 				}
 			}
 		}
-- 
2.43.0


From bfaa2141e448c33dc22f3483eb699d19b44a05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:56 +0000
Subject: [PATCH 19/31] fix: a node that can't be inserted stays where it is

---
 src/lib.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e117d5e..410b83e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -814,9 +814,23 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if !Dom::validate_dom_change(self, node, action) {
 				return;
 			}
+			use InsertPosition::*;
+			let is_child = matches!(position, AfterBegin | BeforeEnd);
+			// there's no place for a sibling, keep the node where it is
+			if !is_child && self.parent().is_none() {
+				return;
+			}
+			let tag_name = self.tag_names();
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			if let Ok(dom) = specified.downcast::<RefNode>() {
+				// not allowed to insert, keep the node where it is
+				if is_child
+					&& matches!(node_type, INodeType::Element)
+					&& !allow_insert(&tag_name, NodeType::Tag)
+				{
+					return;
+				}
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
@@ -833,12 +847,9 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						vec![*dom]
 					}
 				};
-				// filter the node allowed
-				let tag_name = self.tag_names();
 				// insert
-				use InsertPosition::*;
 				// remove not allowed nodes, only insert childs
-				if matches!(position, AfterBegin | BeforeEnd){
+				if is_child {
 					remove_not_allowed_nodes(&tag_name, &mut nodes);
 				}
 				// check if is empty
@@ -934,6 +945,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			if !Dom::validate_dom_change(self, node, action) {
 				return;
 			}
+			// it's not in a tree, there's nothing to replace
+			if self.parent().is_none() {
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
-- 
2.43.0


From c6a3b126356e71ddf98488b47527bed599e0d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:00 +0000
Subject: [PATCH 20/31] fix: remove_class and toggle_class with several class
 names

---
 src/mesdoc/interface/elements.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 09a7b46..e2cd663 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -17,7 +17,7 @@ use crate::mesdoc::{
 };
 use crate::mesdoc::{
 	selector::rule::MatchSpecifiedHandle,
-	utils::{get_class_list, retain_by_index},
+	utils::get_class_list,
 };
 use std::collections::HashMap;
 use std::collections::HashSet;
@@ -3454,14 +3454,9 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						}
-					}
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() != total {
 						ele.set_attribute(
 							ATTR_CLASS,
 							Some(class_list_to_string(&orig_class_list).as_str()),
@@ -3509,18 +3504,16 @@ impl<'a> Elements<'a> {
 				let class_value = ele.get_attribute(ATTR_CLASS);
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
-					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
 					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
 					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
-							removed_indexs.push(index);
-						} else {
+						if !orig_class_list.contains(class_name) && !added_class_list.contains(class_name) {
 							added_class_list.push(class_name.clone());
 						}
 					}
 					let mut need_set = false;
-					if !removed_indexs.is_empty() {
-						retain_by_index(&mut orig_class_list, &removed_indexs);
+					let orig_total = orig_class_list.len();
+					orig_class_list.retain(|name| !class_list.contains(name));
+					if orig_class_list.len() != orig_total {
 						need_set = true;
 					}
 					if !added_class_list.is_empty() {
-- 
2.43.0


From 3e3694b535052b1e9adec147360d8d509b5b8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:43 +0000
Subject: [PATCH 21/31] fix: append_text and prepend_text on a node without
 content don't panic

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 410b83e..d9c114e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -412,20 +412,22 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let mut node = self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.extend(chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
-			if let Some(content) = &mut self.borrow_mut().content {
+			let mut node = self.borrow_mut();
+			if let Some(content) = &mut node.content {
 				content.splice(0..0, chars);
 			} else {
-				self.borrow_mut().content = Some(chars);
+				node.content = Some(chars);
 			}
 		}
 	}
-- 
2.43.0


From 2da07f99bea57265f5e2bfbed03663be334f0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:48 +0000
Subject: [PATCH 22/31] fix: value of a select with deeply nested childs
 doesn't overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d9c114e..95a4b8b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -488,7 +488,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				values: &mut Vec<String>,
 				option_tag: &[char],
 				is_multiple: bool,
-				level: u8,
+				level: usize,
 			) {
 				if let Some(childs) = &parent.borrow().childs {
 					for child in childs {
-- 
2.43.0


From 72d6ff3efb2dde925f9eedb6759af6cf818519c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:58 +0000
Subject: [PATCH 23/31] fix: selectors used before the first load don't panic
 nor poison the registries

---
 src/mesdoc/selector/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c2947e5..8d9001a 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -89,6 +89,8 @@ impl Selector {
 		}
 	}
 	pub fn from_str(context: &str, use_lookup: bool) -> Result<Self, Error> {
+		// the selector may be parsed before any document is loaded
+		crate::mesdoc::init();
 		let chars: Vec<char> = context.chars().collect();
 		let total_len = chars.len();
 		let mut selector = Selector::new();
@@ -288,6 +290,7 @@ impl Selector {
 	}
 	// make '*' with combinator
 	pub fn make_comb_all(comb: Combinator) -> SelectorSegment {
+		crate::mesdoc::init();
 		let mut all_rule = ALL_RULE.lock().unwrap();
 		if all_rule.is_none() {
 			let rules = RULES.lock().unwrap();
-- 
2.43.0


From cad13b60382e6492a2ffe609d3f3de4dfaf2edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:53 +0000
Subject: [PATCH 24/31] fix: closest, siblings and the until methods honour the
 whole selector

They parsed their selector with the lookup split used by find, so the part
before the split was ignored (closest, *_until) or searched along an axis
that has no inverse and panicked (siblings).
---
 src/mesdoc/interface/elements.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index e2cd663..f56997e 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -519,13 +519,14 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -1530,12 +1531,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1728,7 +1728,7 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From 398f06c7645cf21b42cb884db6721d8923ffb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 25/31] fix: id selectors follow changes of the id attributes

---
 src/lib.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 95a4b8b..d2228ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1142,10 +1142,34 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
-		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+		let has_id = |node: &RefNode| match node.get_attribute("id") {
+			Some(IAttrValue::Value(value, _)) => value == id,
+			_ => false,
+		};
+		let root = Rc::clone(&self.doc.borrow().root);
+		// the ids collected by the parser may be out of date after mutations
+		let cached = self.doc.get_element_by_id(id).filter(&has_id);
+		if let Some(node) = &cached {
+			let mut current = Some(Rc::clone(node));
+			while let Some(ancestor) = current {
+				if Node::is_same(&ancestor, &root) {
+					return Some(Box::new(Rc::clone(node)));
+				}
+				current = ancestor.borrow().parent.as_ref().and_then(|p| p.upgrade());
+			}
 		}
-		None
+		// search the document in order
+		let mut nodes = vec![root];
+		while let Some(node) = nodes.pop() {
+			if has_id(&node) {
+				return Some(Box::new(node));
+			}
+			if let Some(childs) = &node.borrow().childs {
+				nodes.extend(childs.iter().rev().cloned());
+			}
+		}
+		// or an element that was removed from the document
+		cached.map(|node| Box::new(node) as BoxDynElement)
 	}
 	// source code
 	fn source_code(&self) -> String {
-- 
2.43.0


From f58d5946fcc695198c3655c1372fc0be1cb523a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:21 +0000
Subject: [PATCH 26/31] fix: class names are only separated by ascii whitespace

---
 src/mesdoc/interface/elements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index f56997e..b1c68ed 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3343,7 +3343,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn has_class(&self, class_name: &str) -> bool {
-		let class_name = class_name.trim();
+		let class_name = class_name.trim_matches(|ch: char| ch.is_ascii_whitespace());
 		if !class_name.is_empty() {
 			let class_list = get_class_list(class_name);
 			for ele in self.get_ref() {
@@ -3447,7 +3447,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn remove_class(&mut self, class_name: &str) -> &mut Self {
-		let class_name = class_name.trim();
+		let class_name = class_name.trim_matches(|ch: char| ch.is_ascii_whitespace());
 		if !class_name.is_empty() {
 			let class_list = get_class_list(class_name);
 			for ele in self.get_mut_ref() {
@@ -3496,7 +3496,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn toggle_class(&mut self, class_name: &str) -> &mut Self {
-		let class_name = class_name.trim();
+		let class_name = class_name.trim_matches(|ch: char| ch.is_ascii_whitespace());
 		if !class_name.is_empty() {
 			let class_list = get_class_list(class_name);
 			let total = class_list.len();
-- 
2.43.0


From 48b32f94c8cdbbfb8ae968059193ac3bc8076a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 27/31] fix: copying a mutated element doesn't overflow the
 positions

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d2228ac..3c1a599 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,7 +170,12 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		// rphtml's clone makes the positions of all the descendants relative to the node's position,
+		// but after mutations the descendants may come from somewhere else, so keep the positions as they are
+		let begin_at = std::mem::take(&mut self.borrow_mut().begin_at);
+		let node = self.borrow().clone_node();
+		self.borrow_mut().begin_at = begin_at;
+		Box::new(node)
 	}
 
 	/// impl `typed`
-- 
2.43.0


From 8ed45609738e0609e753d62dc3d5cb11bfedfbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:20 +0000
Subject: [PATCH 28/31] fix: an option after a group with a selected option is
 not the default option

---
 src/mesdoc/rules/pseudo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 1880a57..a9656d9 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -963,7 +963,10 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 								// check if is the first option, condition 3
 								let mut prev = ele.previous_element_sibling();
 								while let Some(prev_ele) = &prev {
-									if is_equal_chars(&prev_ele.tag_names(), &option_tag) {
+									// or has a selected option in a previous group, condition 4
+									if is_equal_chars(&prev_ele.tag_names(), &option_tag)
+										|| check_selected_option(prev_ele, &option_tag)
+									{
 										return false;
 									}
 									prev = prev_ele.previous_element_sibling();
-- 
2.43.0


From dada1d2e82b3c790d37f766a1c2d79e156035ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 29/31] fix: filtering a text set with the text of a content
 tag doesn't panic

---
 src/mesdoc/interface/texts.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..eee01b2 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,15 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				let text = match ele.clone_node().typed() {
+					IEnumTyped::Text(text) => Some(text),
+					// the text of a content tag is an element
+					IEnumTyped::Element(ele) => ele.into_text().ok(),
+					_ => None,
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From a2c399bf576423b1e472ff1ac7e098a13f725ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:05 +0000
Subject: [PATCH 30/31] fix: sets with elements of several trees don't lose
 elements at equal positions

---
 src/mesdoc/interface/elements.rs | 80 +++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 16 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b1c68ed..958043f 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -28,18 +28,51 @@ use std::{
 };
 
 // get the ele indexs in tree
-fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
+// elements of different trees may have the same indexs, so the first is the number of the tree in the roots
+fn get_tree_indexs(ele: &BoxDynElement, roots: &mut Vec<BoxDynElement>) -> VecDeque<usize> {
 	let mut indexs: VecDeque<usize> = VecDeque::with_capacity(DEF_NODES_LEN);
-	fn loop_handle(ele: &BoxDynElement, indexs: &mut VecDeque<usize>) {
-		indexs.push_front(ele.index());
+	fn loop_handle(
+		ele: &BoxDynElement,
+		roots: &mut Vec<BoxDynElement>,
+		indexs: &mut VecDeque<usize>,
+	) {
 		if let Some(parent) = &ele.parent() {
-			loop_handle(parent, indexs);
+			indexs.push_front(ele.index());
+			loop_handle(parent, roots, indexs);
+		} else {
+			indexs.push_front(get_root_number(ele, roots));
 		}
 	}
-	loop_handle(ele, &mut indexs);
+	loop_handle(ele, roots, &mut indexs);
 	indexs
 }
 
+// get the number of the tree's root, a new root gets the next number
+fn get_root_number(root: &BoxDynElement, roots: &mut Vec<BoxDynElement>) -> usize {
+	for (number, cur_root) in roots.iter().enumerate() {
+		if cur_root.is(root) {
+			return number;
+		}
+	}
+	roots.push(root.cloned());
+	roots.len() - 1
+}
+
+// check if the elements are in the same tree
+fn is_same_tree(eles: &[BoxDynElement], roots: &mut Vec<BoxDynElement>) -> bool {
+	fn loop_handle(ele: &BoxDynElement, roots: &mut Vec<BoxDynElement>) {
+		if let Some(parent) = &ele.parent() {
+			loop_handle(parent, roots);
+		} else {
+			get_root_number(ele, roots);
+		}
+	}
+	for ele in eles {
+		loop_handle(ele, roots);
+	}
+	roots.len() < 2
+}
+
 // compare indexs
 fn compare_indexs(a: &VecDeque<usize>, b: &VecDeque<usize>) -> Ordering {
 	let a_total = a.len();
@@ -362,6 +395,7 @@ impl<'a> Elements<'a> {
 	// keep one sibling, first<asc:true> or last<asc:false>
 	fn unique_sibling(&self, asc: bool) -> Elements<'a> {
 		let total = self.length();
+		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
 		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
@@ -374,7 +408,7 @@ impl<'a> Elements<'a> {
 					}
 				}
 				// parents
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut roots);
 				// set prev parent
 				prev_parent = Some(parent);
 				// new parent
@@ -414,6 +448,7 @@ impl<'a> Elements<'a> {
 		// should first unique siblings
 		// if have two siblings, then use parent.children
 		let total = self.length();
+		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
 		let mut parents_indexs: HashMap<VecDeque<usize>, (usize, bool)> = HashMap::with_capacity(total);
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
 		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
@@ -421,7 +456,7 @@ impl<'a> Elements<'a> {
 		for ele in self.get_ref() {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
-				let indexs = get_tree_indexs(&parent);
+				let indexs = get_tree_indexs(&parent, &mut roots);
 				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
 					if !*changed {
 						let index = *index;
@@ -446,9 +481,10 @@ impl<'a> Elements<'a> {
 	// unique parent, keep the top parent
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
+		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
 		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
 		for ele in self.get_ref() {
-			let ele_indexs = get_tree_indexs(ele);
+			let ele_indexs = get_tree_indexs(ele, &mut roots);
 			let cur_len = ancestors.len();
 			if cur_len > 0 {
 				// just check the last ancestor
@@ -475,9 +511,12 @@ impl<'a> Elements<'a> {
 	}
 	// sort
 	fn sort(&mut self) {
+		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
+		// the trees keep the order of their first elements
+		is_same_tree(self.get_ref(), &mut roots);
 		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
+			let a_index = get_tree_indexs(a, &mut roots);
+			let b_index = get_tree_indexs(b, &mut roots);
 			compare_indexs(&a_index, &b_index)
 		});
 	}
@@ -2649,6 +2688,14 @@ impl<'a> Elements<'a> {
 		if eles.is_empty() {
 			return self.cloned();
 		}
+		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
+		if !is_same_tree(self.get_ref(), &mut roots) || !is_same_tree(eles.get_ref(), &mut roots) {
+			// there's no order between the trees, just keep their elements together
+			let mut result = self.cloned();
+			result.get_mut_ref().extend(eles);
+			result.sort_and_unique();
+			return result;
+		}
 		let first_eles = self;
 		let second_eles = &eles;
 		// compare first and second
@@ -2667,17 +2714,18 @@ impl<'a> Elements<'a> {
 			first_indexs: &'a mut HashMap<usize, VecDeque<usize>>,
 			first: &[BoxDynElement],
 			index: usize,
+			roots: &mut Vec<BoxDynElement>,
 		) -> &'a mut VecDeque<usize> {
 			first_indexs
 				.entry(index)
-				.or_insert_with(|| get_tree_indexs(&first[index]))
+				.or_insert_with(|| get_tree_indexs(&first[index], roots))
 		}
 		while fir_left_index <= fir_right_index && sec_left_index <= sec_right_index {
 			// the second left
 			let sec_left = &second[sec_left_index];
-			let sec_left_level = get_tree_indexs(sec_left);
+			let sec_left_level = get_tree_indexs(sec_left, &mut roots);
 			// the first left
-			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index);
+			let fir_left_level = get_first_index_cached(&mut first_indexs, first, fir_left_index, &mut roots);
 			match compare_indexs(&sec_left_level, fir_left_level) {
 				Ordering::Equal => {
 					// move forward both
@@ -2687,7 +2735,7 @@ impl<'a> Elements<'a> {
 				Ordering::Greater => {
 					// second left is behind first left
 					// if second left is also behind first right
-					let fir_right_level = get_first_index_cached(&mut first_indexs, first, fir_right_index);
+					let fir_right_level = get_first_index_cached(&mut first_indexs, first, fir_right_index, &mut roots);
 					match compare_indexs(&sec_left_level, fir_right_level) {
 						Ordering::Greater => {
 							// now second is all after first right
@@ -2705,7 +2753,7 @@ impl<'a> Elements<'a> {
 							let mut mid = (l + r) / 2;
 							let mut find_equal = false;
 							while mid != l {
-								let mid_level = get_first_index_cached(&mut first_indexs, first, mid);
+								let mid_level = get_first_index_cached(&mut first_indexs, first, mid, &mut roots);
 								match compare_indexs(&sec_left_level, mid_level) {
 									Ordering::Greater => {
 										// second left is behind middle
@@ -2744,7 +2792,7 @@ impl<'a> Elements<'a> {
 				}
 				Ordering::Less => {
 					let sec_right = &second[sec_right_index];
-					let sec_right_level = get_tree_indexs(sec_right);
+					let sec_right_level = get_tree_indexs(sec_right, &mut roots);
 					match compare_indexs(&sec_right_level, fir_left_level) {
 						Ordering::Less => {
 							// now second is all before current first left
-- 
2.43.0


From a067f57da5d792eedfd5e7e85136df8daff43a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 31/31] fix: sets that aren't in document order any more don't
 lose or repeat elements

---
 src/mesdoc/interface/elements.rs | 91 +++++++++++++++++---------------
 1 file changed, 49 insertions(+), 42 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 958043f..cf02fb7 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -20,7 +20,6 @@ use crate::mesdoc::{
 	utils::get_class_list,
 };
 use std::collections::HashMap;
-use std::collections::HashSet;
 use std::{
 	cmp::Ordering,
 	collections::VecDeque,
@@ -58,21 +57,6 @@ fn get_root_number(root: &BoxDynElement, roots: &mut Vec<BoxDynElement>) -> usiz
 	roots.len() - 1
 }
 
-// check if the elements are in the same tree
-fn is_same_tree(eles: &[BoxDynElement], roots: &mut Vec<BoxDynElement>) -> bool {
-	fn loop_handle(ele: &BoxDynElement, roots: &mut Vec<BoxDynElement>) {
-		if let Some(parent) = &ele.parent() {
-			loop_handle(parent, roots);
-		} else {
-			get_root_number(ele, roots);
-		}
-	}
-	for ele in eles {
-		loop_handle(ele, roots);
-	}
-	roots.len() < 2
-}
-
 // compare indexs
 fn compare_indexs(a: &VecDeque<usize>, b: &VecDeque<usize>) -> Ordering {
 	let a_total = a.len();
@@ -88,6 +72,23 @@ fn compare_indexs(a: &VecDeque<usize>, b: &VecDeque<usize>) -> Ordering {
 	}
 	a_total.cmp(&b_total)
 }
+
+// check if the elements are in document order, without repeats
+fn is_in_order(eles: &[BoxDynElement], roots: &mut Vec<BoxDynElement>) -> bool {
+	let mut in_order = true;
+	let mut prev_indexs: Option<VecDeque<usize>> = None;
+	for ele in eles {
+		let indexs = get_tree_indexs(ele, roots);
+		if let Some(prev_indexs) = &prev_indexs {
+			if compare_indexs(prev_indexs, &indexs) != Ordering::Less {
+				in_order = false;
+			}
+		}
+		prev_indexs = Some(indexs);
+	}
+	in_order
+}
+
 enum ElementRelation {
 	Ancestor,
 	Equal,
@@ -396,25 +397,36 @@ impl<'a> Elements<'a> {
 	fn unique_sibling(&self, asc: bool) -> Elements<'a> {
 		let total = self.length();
 		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
-		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
+		let mut parents_indexs: HashMap<VecDeque<usize>, usize> = HashMap::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
-		let mut prev_parent: Option<BoxDynElement> = None;
+		let mut prev_parent: Option<(BoxDynElement, usize)> = None;
 		let mut has_root = false;
 		let mut handle = |ele: &BoxDynElement| {
 			if let Some(parent) = ele.parent() {
-				if let Some(prev_parent) = &prev_parent {
+				let mut kept: Option<usize> = None;
+				if let Some((prev_parent, index)) = &prev_parent {
 					if parent.is(prev_parent) {
-						return;
+						kept = Some(*index);
 					}
 				}
-				// parents
-				let indexs = get_tree_indexs(&parent, &mut roots);
-				// set prev parent
-				prev_parent = Some(parent);
-				// new parent
-				if parents_indexs.get(&indexs).is_none() {
-					parents_indexs.insert(indexs);
-					uniques.push(ele.cloned());
+				if kept.is_none() {
+					// parents
+					let indexs = get_tree_indexs(&parent, &mut roots);
+					kept = parents_indexs.get(&indexs).copied();
+					// set prev parent
+					prev_parent = Some((parent, kept.unwrap_or(uniques.len())));
+					// new parent
+					if kept.is_none() {
+						parents_indexs.insert(indexs, uniques.len());
+						uniques.push(ele.cloned());
+					}
+				}
+				// the set may be not in document order, so the kept one is not always the outermost
+				if let Some(index) = kept {
+					let (cur_index, kept_index) = (ele.index(), uniques[index].index());
+					if (asc && cur_index < kept_index) || (!asc && cur_index > kept_index) {
+						uniques[index] = ele.cloned();
+					}
 				}
 			} else if !has_root {
 				has_root = true;
@@ -513,7 +525,7 @@ impl<'a> Elements<'a> {
 	fn sort(&mut self) {
 		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
 		// the trees keep the order of their first elements
-		is_same_tree(self.get_ref(), &mut roots);
+		is_in_order(self.get_ref(), &mut roots);
 		self.get_mut_ref().sort_by(|a, b| {
 			let a_index = get_tree_indexs(a, &mut roots);
 			let b_index = get_tree_indexs(b, &mut roots);
@@ -1054,15 +1066,11 @@ impl<'a> Elements<'a> {
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
-				let search_total = search.length();
 				for ele in eles {
 					if let Some(index) = search.index_of(ele, start_index) {
 						// also in search, include
 						start_index = index + 1;
 						result.push(ele.cloned());
-						if start_index >= search_total {
-							break;
-						}
 					}
 				}
 			}
@@ -2689,8 +2697,8 @@ impl<'a> Elements<'a> {
 			return self.cloned();
 		}
 		let mut roots: Vec<BoxDynElement> = Vec::with_capacity(1);
-		if !is_same_tree(self.get_ref(), &mut roots) || !is_same_tree(eles.get_ref(), &mut roots) {
-			// there's no order between the trees, just keep their elements together
+		if !is_in_order(self.get_ref(), &mut roots) || !is_in_order(eles.get_ref(), &mut roots) {
+			// the elements may be moved since they were selected, or they are in different trees
 			let mut result = self.cloned();
 			result.get_mut_ref().extend(eles);
 			result.sort_and_unique();
@@ -2859,15 +2867,14 @@ impl<'a> Elements<'a> {
 		self.get_ref().iter().any(|n| ele.is(n))
 	}
 
-	/// index of
+	/// index of, search from the start index first, then the elements before it
 	fn index_of(&self, ele: &BoxDynElement, start_index: usize) -> Option<usize> {
 		let total = self.length();
-		if start_index < total {
-			let nodes = self.get_ref();
-			for (index, cur_ele) in nodes[start_index..].iter().enumerate() {
-				if ele.is(cur_ele) {
-					return Some(start_index + index);
-				}
+		let nodes = self.get_ref();
+		for step in 0..total {
+			let index = (start_index + step) % total;
+			if ele.is(&nodes[index]) {
+				return Some(index);
 			}
 		}
 		None
-- 
2.43.0

