From 79eb726f8c7014ab22160dbbcfca60cebc24f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 01/32] fix: panic on integer overflow in unary minus instead
 of crashing

---
 src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..04ebafd 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -664,7 +664,10 @@ impl Runtime {
 
 		match (op, value) {
 			(Minus, Value::Float(ref f)) => Ok(Flow::Regular((-f).into())),
-			(Minus, Value::Int(i)) => Ok(Flow::Regular((-i).into())),
+			(Minus, Value::Int(i)) => i
+				.checked_neg()
+				.map(|i| Flow::Regular(i.into()))
+				.ok_or_else(|| Panic::integer_overflow(operand_pos)),
 			(Minus, value) => Err(Panic::type_error(value, "int or float", operand_pos)),
 
 			(Not, Value::Bool(b)) => Ok(Flow::Regular((!b).into())),
-- 
2.43.0


From e3c190bfa42e845ba4786886ff222c08c065de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 02/32] fix: drop the globals of a module that panics while
 being imported

---
 src/runtime/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 04ebafd..e4dbcee 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,14 +103,16 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
+		let result = self.eval_block(&program.statements);
+
+		// Drop global variables, even if there was a panic, as it may be caught by an importer.
+		self.stack.shrink(slots);
+
+		let value = match result? {
 			Flow::Regular(value) => value,
 			flow => panic!("invalid flow in root state: {:#?}", flow)
 		};
 
-		// Drop global variables.
-		self.stack.shrink(slots);
-
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
-- 
2.43.0


From 7aa3fce490b48334ca002e0a78826892ae1001e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 03/32] fix: return nil for negative indexes in std.substr
 instead of crashing

---
 src/runtime/lib/substr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index ea474d6..be0c662 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use gc::{Finalize, Trace};
 
 use super::{
@@ -17,9 +19,10 @@ struct Substr;
 
 impl Substr {
     fn substr(string: &[u8], start: i64, len: i64) -> Result<Value, Error> {
-        let start = start as usize;
-        let end = start + (len as usize);
-        let substr = string.get(start..end);
+        let range = usize::try_from(start)
+            .and_then(|start| usize::try_from(len).map(|len| start..start.saturating_add(len)))
+            .ok();
+        let substr = range.and_then(|range| string.get(range));
         Ok(substr.into())
     }
 }
-- 
2.43.0


From d278e4924a9b9a7efe7ccfc925aecae44fbce13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 04/32] fix: panic on empty range in std.randint instead of
 crashing

---
 src/runtime/lib/rand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..656108d 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,9 +51,13 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
-			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
+			[ Value::Int(m), Value::Int(n) ] if m <= n => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
+			[ Value::Int(_), n @ Value::Int(_) ] => Err(
+				Panic::value_error(n.copy(), "empty range", context.pos)
+			),
+			[ Value::Int(_), other ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			[ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			args => Err(Panic::invalid_args(args.len() as u32, 2, context.pos))
 		}
-- 
2.43.0


From b7c0323937fd4b4de8db435368c8c7030491d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 05/32] fix: return an error for an empty key in std.export
 instead of crashing

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From 448c079aca7493f913a8082c62e0d22bb8873fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 06/32] fix: hash 0.0 and -0.0 equally, as they are equal

---
 src/runtime/value/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index 604138e..e151730 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -68,7 +68,7 @@ impl Hash for Float {
 			if self.is_nan() {
 				f64::NAN // Make sure that the hash equals for all NaN values.
 			} else {
-				self.0
+				self.0 + 0.0 // Make sure that the hash equals for 0.0 and -0.0.
 			};
 
 		float.to_bits().hash(state)
-- 
2.43.0


From 75843c66d6c8b1632176b49bd727937c67e66e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 07/32] fix: compare a recursive function to itself without
 overflowing the stack

---
 src/runtime/value/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/function.rs b/src/runtime/value/function.rs
index 166ffcf..11f3a9a 100644
--- a/src/runtime/value/function.rs
+++ b/src/runtime/value/function.rs
@@ -111,7 +111,8 @@ impl PartialEq for HushFun {
 		// As the functions are defined in the source code, two functions can't share the same
 		// body.
 		std::ptr::eq(self.body, other.body)
-			&& self.context == other.context
+			// Recursive functions capture themselves, so we must not compare a context to itself.
+			&& (Gc::ptr_eq(&self.context, &other.context) || self.context == other.context)
 	}
 }
 
-- 
2.43.0


From ddff15fe9b29ac611e09823143d25b2517c490f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 08/32] fix: check duplicate keys separately for nested dict
 literals

---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..78bf0d9 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// Dict literals may be nested, so we must not mix the keys of the outer literal.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0


From 1a2fdfae505f029d779de9027654c3d84689d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 09/32] fix: flush std.print so that its output is not
 reordered after or lost by commands

---
 src/runtime/lib/print.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/lib/print.rs b/src/runtime/lib/print.rs
index 256db16..bae1ece 100644
--- a/src/runtime/lib/print.rs
+++ b/src/runtime/lib/print.rs
@@ -54,6 +54,10 @@ impl NativeFun for Print {
 		//writeln!(stdout)
 			//.map_err(|error| Panic::io(error, context.pos))?;
 
+		// Make sure the output precedes that of any command executed afterwards.
+		stdout.flush()
+			.map_err(|error| Panic::io(error, context.pos.copy()))?;
+
 		Ok(Value::default())
 	}
 }
-- 
2.43.0


From 45e85ea94582c71b1795669019c4332e642cc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 10/32] fix: do not discard the statements preceding a top
 level return

---
 src/syntax/parser/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..2427e68 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,11 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		// A return statement ends a block, so there may be more than one block in the input.
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			self.parse_statements(&mut statements);
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +209,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
@@ -223,6 +226,14 @@ where
 	fn parse_block(&mut self) -> ast::Block {
 		let mut block = Vec::new();
 
+		self.parse_statements(&mut block);
+
+		block.into_boxed_slice().into()
+	}
+
+
+	/// Parse the statements of a block, appending them to the given vector.
+	fn parse_statements(&mut self, block: &mut Vec<ast::Statement>) {
 		loop {
 			match &self.token {
 				// Break on eof.
@@ -248,8 +259,6 @@ where
 				}
 			}
 		}
-
-		block.into_boxed_slice().into()
 	}
 
 
-- 
2.43.0


From 1412c4f178d1d017727c33b60daa348a18b7d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 11/32] fix: do not drop empty quoted arguments in commands

---
 src/syntax/parser/command.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/syntax/parser/command.rs b/src/syntax/parser/command.rs
index 10da9ef..a9cbd15 100644
--- a/src/syntax/parser/command.rs
+++ b/src/syntax/parser/command.rs
@@ -363,6 +363,11 @@ where
 		// Push the trailing literal, if any.
 		push_literal(&mut literal, &mut parts);
 
+		// An empty literal (e.g. "") is still an argument.
+		if parts.is_empty() {
+			parts.push(ast::ArgPart::Unit(ast::ArgUnit::Literal(literal.into())));
+		}
+
 		ast::Argument {
 			parts: parts.into(),
 			pos
-- 
2.43.0


From 4e3c03601b30fb21c431557a935bd8eae4cf343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 12/32] fix: report reserved expansion characters as lexical
 errors instead of crashing

---
 src/syntax/lexer/automata/argument.rs  |  8 ++++++++
 src/syntax/lexer/automata/expansion.rs | 14 +++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/syntax/lexer/automata/argument.rs b/src/syntax/lexer/automata/argument.rs
index 94df876..ec1f9b0 100644
--- a/src/syntax/lexer/automata/argument.rs
+++ b/src/syntax/lexer/automata/argument.rs
@@ -635,6 +635,10 @@ impl ExpansionContext for Argument {
 		Transition::rollback(checkpoint, Word::from(self))
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Self::is_word(value)
 	}
@@ -662,6 +666,10 @@ impl ExpansionContext for Word<Argument> {
 		Transition::rollback(checkpoint, self)
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Argument::is_word(value)
 	}
diff --git a/src/syntax/lexer/automata/expansion.rs b/src/syntax/lexer/automata/expansion.rs
index 14eed91..01d9b90 100644
--- a/src/syntax/lexer/automata/expansion.rs
+++ b/src/syntax/lexer/automata/expansion.rs
@@ -4,6 +4,7 @@ use super::{
 	ArgExpansion,
 	Cursor,
 	Checkpoint,
+	Error,
 	State,
 	Transition,
 };
@@ -20,6 +21,8 @@ pub(super) trait ExpansionContext {
 	/// The transition to make when no expansion could be parsed.
 	/// Yield and rollback to the given checkpoint.
 	fn rollback(self, checkpoint: Checkpoint) -> Transition;
+	/// The transition to make when the expansion is invalid.
+	fn error(self, error: Error) -> Transition;
 	/// Check if a character may be consumed inside expansions.
 	fn is_expansion_word(value: u8) -> bool;
 }
@@ -83,13 +86,10 @@ where
 				self.context.produce(ArgExpansion::Percent)
 			}
 
-			Some(b'[') => {
-				todo!() // char class.
-			}
-
-			Some(b'{') => {
-				todo!() // range, collection
-			}
+			// Reserved for char classes, ranges and collections, which are not implemented yet.
+			Some(value @ (b'[' | b'{')) => self.context.error(
+				Error::unexpected(value, cursor.pos())
+			),
 
 			// Failed to parse expansion.
 			_ => self.context.rollback(self.start)
-- 
2.43.0


From 776c4293b3f3dacfa91f279680c0b979878b4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:43 +0000
Subject: [PATCH 13/32] fix: finish std.range on integer overflow instead of
 crashing or wrapping around

---
 src/runtime/lib/range.rs | 56 +++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/runtime/lib/range.rs b/src/runtime/lib/range.rs
index ba229d2..2bcc3d2 100644
--- a/src/runtime/lib/range.rs
+++ b/src/runtime/lib/range.rs
@@ -7,6 +7,7 @@ use super::{
 	keys,
 	CallContext,
 	Dict,
+	Float,
 	RustFun,
 	NativeFun,
 	Panic,
@@ -32,13 +33,13 @@ impl NativeFun for Range {
 				Ok(
 					match numbers {
 						util::Numbers::Ints([ from, to, step ]) => RangeImpl {
-							from: GcCell::new(from),
+							from: GcCell::new(Some(from)),
 							to,
 							step
 						}.into(),
 
 						util::Numbers::Floats([ from, to, step ]) => RangeImpl {
-							from: GcCell::new(from),
+							from: GcCell::new(Some(from)),
 							to,
 							step
 						}.into(),
@@ -52,9 +53,29 @@ impl NativeFun for Range {
 }
 
 
+/// Step in a range.
+trait Step: Sized {
+	/// Get the next value, or None in case of overflow.
+	fn next(&self, step: &Self) -> Option<Self>;
+}
+
+impl Step for i64 {
+	fn next(&self, step: &Self) -> Option<Self> {
+		self.checked_add(*step)
+	}
+}
+
+impl Step for Float {
+	fn next(&self, step: &Self) -> Option<Self> {
+		Some(self.copy() + step.copy())
+	}
+}
+
+
 #[derive(Trace, Finalize)]
 struct RangeImpl<T: 'static> {
-	from: GcCell<T>,
+	/// The next value, or None if it would overflow.
+	from: GcCell<Option<T>>,
 	to: T,
 	step: T,
 }
@@ -62,7 +83,7 @@ struct RangeImpl<T: 'static> {
 impl<T> NativeFun for RangeImpl<T>
 where
 	T: Trace + Finalize + 'static,
-	T: Clone + Default + Ord + std::ops::Add<Output = T>,
+	T: Clone + Default + Ord + Step,
 	T: Into<Value>,
 {
 	fn name(&self) -> &'static str { "std.range<impl>" }
@@ -76,20 +97,19 @@ where
 		let mut from = self.from.borrow_mut();
 		let mut iteration = HashMap::new();
 
-		let finished =
-			if self.step > T::default() { // Step is positive.
-				*from >= self.to
-			} else { // Step is negative.
-				*from <= self.to
-			};
-
-		let next = if finished {
-			None
-		} else {
-			let value = from.clone();
-			*from = from.clone() + self.step.clone();
-			Some(value)
-		};
+		let next = from
+			.clone()
+			.filter(
+				|from| if self.step > T::default() { // Step is positive.
+					*from < self.to
+				} else { // Step is negative.
+					*from > self.to
+				}
+			);
+
+		if let Some(value) = &next {
+			*from = value.next(&self.step);
+		}
 
 		keys::FINISHED.with(
 			|finished| iteration.insert(finished.copy(), next.is_none().into())
-- 
2.43.0


From daeb032ced4ca9d37b1f53151b175989c9521e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 14/32] fix: count all items when an expansion should result in
 a single item

---
 src/runtime/command/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f630e89..f542a8e 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -353,7 +353,7 @@ impl Runtime {
 		if args.is_empty() {
 			Ok(arg)
 		} else {
-			Err(panic(args.len() as u32))
+			Err(panic(args.len() as u32 + 1))
 		}
 	}
 
-- 
2.43.0


From 4466f26256e54c72194267ddb3bb2ebb54bbdc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:37 +0000
Subject: [PATCH 15/32] fix: keep the errors of the previous commands when a
 command fails to start

---
 src/runtime/command/exec/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..ad1058f 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -568,9 +568,11 @@ impl Block {
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		match self._exec(stdout, stderr) {
-			Ok(status) => Ok(status),
-			Err(Error::Panic(panic)) => Err(panic),
+		let mut errors = Vec::new();
+
+		match self._exec(stdout, stderr, &mut errors) {
+			Ok(()) => (),
+			Err(Error::Panic(panic)) => return Err(panic),
 			Err(Error::Io { error, pos }) => {
 				let error = ErrorStatus {
 					description: error.to_string(),
@@ -578,19 +580,24 @@ impl Block {
 					pos,
 				};
 
-				Ok(Box::new([PipelineErrors::from(error)]))
+				errors.push(PipelineErrors::from(error));
 			},
 		}
+
+		Ok(errors.into())
 	}
 
 
-	fn _exec<F, G>(self, mut stdout: F, mut stderr: G,) -> Result<Box<[PipelineErrors]>, Error>
+	fn _exec<F, G>(
+		self,
+		mut stdout: F,
+		mut stderr: G,
+		errors: &mut Vec<PipelineErrors>,
+	) -> Result<(), Error>
 	where
 		F: FnMut() -> io::Result<os_pipe::PipeWriter>,
 		G: FnMut() -> io::Result<os_pipe::PipeWriter>,
 	{
-		let mut errors = Vec::new();
-
 		let pos = self.head.pos();
 		let head = self.head.exec(
 			stdout()
@@ -604,7 +611,7 @@ impl Block {
 		}
 
 		if head.abort {
-			return Ok(errors.into())
+			return Ok(())
 		}
 
 		for command in self.tail.into_vec() { // Use vec's owned iterator.
@@ -625,6 +632,6 @@ impl Block {
 			}
 		}
 
-		Ok(errors.into())
+		Ok(())
 	}
 }
-- 
2.43.0


From 4802e23d1d1e1588e138360dda259428ac992850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:15 +0000
Subject: [PATCH 16/32] fix: wait on the commands that have already started
 when a pipeline fails to start

---
 src/runtime/command/exec/mod.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index ad1058f..f2dc600 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -466,6 +466,24 @@ impl Command {
 		self,
 		stdout: os_pipe::PipeWriter,
 		stderr: os_pipe::PipeWriter,
+	) -> Result<CommandExec, Error> {
+		let mut tail_children = Vec::new();
+
+		let result = self._exec(stdout, stderr, &mut tail_children);
+
+		// If the pipeline failed to start, wait on the commands that have already started.
+		for (child, _) in tail_children.into_iter().rev() {
+			ErrorStatus::wait_child(child);
+		}
+
+		result
+	}
+
+	fn _exec(
+		self,
+		stdout: os_pipe::PipeWriter,
+		stderr: os_pipe::PipeWriter,
+		tail_children: &mut Vec<(Child, bool)>,
 	) -> Result<CommandExec, Error> {
 		match self {
 			Command::Builtin { program, arguments, abort_on_error, pos } => {
@@ -483,9 +501,9 @@ impl Command {
 				let mut last_stdout = stdout;
 				let mut last_stderr = stderr;
 
-				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
 					let child_abort_on_error = cmd.abort_on_error;
+					let child_pos = cmd.pos.copy();
 
 					let (pipe_reader, pipe_writer) = os_pipe::pipe()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
@@ -498,11 +516,11 @@ impl Command {
 						}
 					)?;
 
+					tail_children.push((child, child_abort_on_error));
+
 					last_stdout = pipe_writer;
 					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child.pos.copy()))?;
-
-					tail_children.push((child, child_abort_on_error));
+						.map_err(|error| Error::io(error, child_pos))?;
 				}
 
 				let head_abort_on_error = head.abort_on_error;
@@ -528,7 +546,7 @@ impl Command {
 				}
 
 				// Wait on tail commands.
-				for (child, abort_on_error) in tail_children.into_iter().rev() {
+				for (child, abort_on_error) in tail_children.drain(..).rev() {
 					if let Some(error) = ErrorStatus::wait_child(child) {
 						abort |= abort_on_error;
 						errors.push(error);
-- 
2.43.0


From 54bc1c1c271d3e169bb14d2a1415bef3339cb0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:17 +0000
Subject: [PATCH 17/32] fix: do not deadlock on literal inputs that exceed the
 capacity of a pipe

---
 src/runtime/command/exec/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index f2dc600..694cad6 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -8,6 +8,7 @@ use std::{
 	io::{self, Write},
 	os::unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt},
 	process,
+	thread,
 };
 
 use crate::io::FileDescriptor;
@@ -347,11 +348,12 @@ impl BasicCommand {
 							let (reader, mut writer) = os_pipe::pipe()
 								.map_err(|error| Error::io(error, pos.copy()))?;
 
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							let mut input = source.as_bytes().to_owned();
+							input.push(b'\n');
 
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							// Write in a separate thread, as the input may exceed the capacity of the pipe.
+							// The write only fails if the command does not read its whole input.
+							thread::spawn(move || writer.write_all(&input));
 
 							reader
 						} else {
-- 
2.43.0


From 21a52e58022ba458c17604aec022786214de6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:36 +0000
Subject: [PATCH 18/32] fix: panic instead of crashing when a thread for a
 command block cannot be created

---
 src/runtime/command/exec/mod.rs |  4 +++-
 src/runtime/command/mod.rs      | 38 +++++++++++++++++++--------------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 694cad6..0b80d3b 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -353,7 +353,9 @@ impl BasicCommand {
 
 							// Write in a separate thread, as the input may exceed the capacity of the pipe.
 							// The write only fails if the command does not read its whole input.
-							thread::spawn(move || writer.write_all(&input));
+							thread::Builder::new()
+								.spawn(move || writer.write_all(&input))
+								.map_err(|error| Error::io(error, pos.copy()))?;
 
 							reader
 						} else {
diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f542a8e..84cc0d5 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -53,17 +53,21 @@ impl Runtime {
 				let (mut stderr_read, stderr_write) = os_pipe::pipe()
 					.map_err(|error| Panic::io(error, pos.copy()))?;
 
-				let stdout_reader = thread::spawn(move || {
-					let mut data = Vec::with_capacity(512);
-					stdout_read.read_to_end(&mut data)?;
-					Ok(data)
-				});
-
-				let stderr_reader = thread::spawn(move || {
-					let mut data = Vec::with_capacity(512);
-					stderr_read.read_to_end(&mut data)?;
-					Ok(data)
-				});
+				let stdout_reader = thread::Builder::new()
+					.spawn(move || {
+						let mut data = Vec::with_capacity(512);
+						stdout_read.read_to_end(&mut data)?;
+						Ok(data)
+					})
+					.map_err(|error| Panic::io(error, pos.copy()))?;
+
+				let stderr_reader = thread::Builder::new()
+					.spawn(move || {
+						let mut data = Vec::with_capacity(512);
+						stderr_read.read_to_end(&mut data)?;
+						Ok(data)
+					})
+					.map_err(|error| Panic::io(error, pos.copy()))?;
 
 				let errors = command_block
 					.exec(
@@ -123,12 +127,14 @@ impl Runtime {
 					pub static JOIN: Value = "join".into();
 				}
 
-				let join_handle = std::thread::spawn(
-					|| command_block.exec(
-						os_pipe::dup_stdout,
-						os_pipe::dup_stderr,
+				let join_handle = thread::Builder::new()
+					.spawn(
+						|| command_block.exec(
+							os_pipe::dup_stdout,
+							os_pipe::dup_stderr,
+						)
 					)
-				);
+					.map_err(|error| Panic::io(error, pos.copy()))?;
 
 				let join_handle = exec::Join
 					::new(join_handle)
-- 
2.43.0


From e919b0a85e05548aa617881686b60d7210a97527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:00 +0000
Subject: [PATCH 19/32] fix: let std.read return input that is not valid UTF-8

---
 src/runtime/lib/read.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/lib/read.rs b/src/runtime/lib/read.rs
index 7f01922..3781203 100644
--- a/src/runtime/lib/read.rs
+++ b/src/runtime/lib/read.rs
@@ -1,4 +1,4 @@
-use std::io::{self, Write};
+use std::io::{self, BufRead, Write};
 
 use gc::{Finalize, Trace};
 
@@ -19,11 +19,13 @@ struct Read;
 
 impl Read {
 	fn read() -> io::Result<Value> {
-		let mut input = String::new();
+		// The input is not required to be valid UTF-8.
+		let mut input = Vec::new();
 
 		io::stdin()
-			.read_line(&mut input)
-			.map(|_| input.into())
+			.lock()
+			.read_until(b'\n', &mut input)
+			.map(|_| input.into_boxed_slice().into())
 	}
 }
 
-- 
2.43.0


From f766ada377db855d4efdbb80dd16102c43a61fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:19 +0000
Subject: [PATCH 20/32] fix: keep the exit status when an error message cannot
 be written

---
 src/main.rs               | 19 ++++++++++---------
 src/runtime/lib/import.rs | 10 +++++-----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8081d44..c20c0b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ mod term;
 #[cfg(test)]
 mod tests;
 
-use std::os::unix::ffi::OsStrExt;
+use std::{io::Write, os::unix::ffi::OsStrExt};
 
 use term::color;
 
@@ -44,7 +44,7 @@ fn main() -> ! {
 	let command = match args::parse(std::env::args_os()) {
 		Ok(command) => command,
 		Err(error) => {
-			eprint!("{}", error);
+			write!(std::io::stderr(), "{}", error).ok();
 			std::process::exit(ExitStatus::InvalidArgs.into())
 		}
 	};
@@ -81,13 +81,14 @@ fn run(args: Args) -> ExitStatus {
 	let source = match source {
     Ok(source) => source,
     Err(error) => {
-			eprintln!(
+			writeln!(
+				std::io::stderr(),
 				"{}",
 				fmt::Show(
 					Panic::io(error, SourcePos::file(path)),
 					&interner
 				)
-			);
+			).ok();
 			return ExitStatus::Panic;
 		}
 	};
@@ -97,13 +98,13 @@ fn run(args: Args) -> ExitStatus {
 	let has_syntax_errors = !syntactic_analysis.is_ok();
 
 	if has_syntax_errors {
-		eprint!("{}", fmt::Show(
+		write!(std::io::stderr(), "{}", fmt::Show(
 			syntactic_analysis.errors,
 			syntax::AnalysisDisplayContext {
 				max_errors: Some(20),
 				interner: &interner,
 			}
-		));
+		)).ok();
 	}
 
 	if args.print_lexemes {
@@ -138,13 +139,13 @@ fn run(args: Args) -> ExitStatus {
 	let program = match semantic::Analyzer::analyze(syntactic_analysis.ast, &mut interner) {
 		Ok(program) => program,
 		Err(errors) => {
-			eprint!("{}", fmt::Show(
+			write!(std::io::stderr(), "{}", fmt::Show(
 				errors,
 				semantic::ErrorsDisplayContext {
 					max_errors: Some(20),
 					interner: &interner,
 				}
-			));
+			)).ok();
 			return ExitStatus::StaticError;
 		}
 	};
@@ -179,7 +180,7 @@ fn run(args: Args) -> ExitStatus {
 	match runtime.eval(program) {
     Ok(_) => ExitStatus::Success,
     Err(panic) => {
-			eprintln!("{}", fmt::Show(panic, runtime.interner()));
+			writeln!(std::io::stderr(), "{}", fmt::Show(panic, runtime.interner())).ok();
 			ExitStatus::Panic
 		}
 	}
diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 59712de..719914b 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -1,5 +1,5 @@
 use std::{
-	io,
+	io::{self, Write},
 	path::{Path, PathBuf},
 	ffi::OsStr,
 	os::unix::ffi::OsStrExt,
@@ -95,13 +95,13 @@ impl Import {
 		let has_syntax_errors = !syntactic_analysis.is_ok();
 
 		if has_syntax_errors {
-			eprint!("{}", fmt::Show(
+			write!(io::stderr(), "{}", fmt::Show(
 				syntactic_analysis.errors,
 				syntax::AnalysisDisplayContext {
 					max_errors: Some(20),
 					interner: context.runtime.interner(),
 				}
-			));
+			)).ok();
 			return Err(Panic::import_failed(path, context.pos.copy()));
 		}
 
@@ -112,13 +112,13 @@ impl Import {
 			)
 			.map_err(
 				|errors| {
-					eprint!("{}", fmt::Show(
+					write!(io::stderr(), "{}", fmt::Show(
 						errors,
 						semantic::ErrorsDisplayContext {
 							max_errors: Some(20),
 							interner: context.runtime.interner(),
 						}
-					));
+					)).ok();
 
 					Panic::import_failed(path, context.pos.copy())
 				}
-- 
2.43.0


From 102301ae38a5c43e081fd50629e4ffdd9f4ea6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 21/32] fix: panic on circular imports instead of overflowing
 the native stack

---
 src/runtime/lib/import.rs | 10 +++++++++-
 src/runtime/mod.rs        |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 719914b..42d5a01 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -42,7 +42,15 @@ impl Import {
 		match context.runtime.modules.get(&path) {
 			Some(module) => Ok(module.copy()), // Don't reload module if cached.
 			None => {
-				let module = Self::load(path, &mut context)?;
+				if !context.runtime.loading_modules.insert(path) {
+					// Circular import, loading the module again would recurse indefinitely.
+					return Err(Panic::import_failed(path, context.pos));
+				}
+
+				let result = Self::load(path, &mut context);
+				context.runtime.loading_modules.remove(&path);
+
+				let module = result?;
 				context.runtime.modules.insert(path, module.copy());
 				Ok(module)
 			}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e4dbcee..8d901fd 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -12,7 +12,7 @@ pub mod value;
 #[cfg(test)]
 mod tests;
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::symbol::{self, Symbol};
 use super::semantic::program;
@@ -46,6 +46,8 @@ pub struct Runtime {
 	std: Value,
 	interner: symbol::Interner,
 	modules: HashMap<Symbol, Value>,
+	/// Modules currently being loaded, to detect circular imports.
+	loading_modules: HashSet<Symbol>,
 	/// Command line arguments.
 	args: Value,
 }
@@ -70,6 +72,7 @@ impl Runtime {
 			interner,
 			std: lib::new(),
 			modules: HashMap::new(),
+			loading_modules: HashSet::new(),
 			args: args.into(),
 		}
 	}
-- 
2.43.0


From eb24b642eefa1382ec2f7dbc15eab785f09c3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:41 +0000
Subject: [PATCH 22/32] fix: resolve imports relative to the script even after
 it changed directory

---
 src/runtime/lib/import.rs | 10 +++++++---
 src/runtime/mod.rs        |  8 +++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 42d5a01..de9c6f0 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -1,6 +1,6 @@
 use std::{
 	io::{self, Write},
-	path::{Path, PathBuf},
+	path::Path,
 	ffi::OsStr,
 	os::unix::ffi::OsStrExt,
 };
@@ -29,10 +29,12 @@ struct Import;
 
 impl Import {
 	fn import(module_path: &Path, mut context: CallContext) -> Result<Value, Panic> {
+		let initial_dir = context.runtime.initial_dir.clone();
 		let path = Self
 			::resolve_path(
 				module_path,
 				context.pos.path,
+				&initial_dir,
 				context.runtime.interner_mut()
 			)
 			.map_err(
@@ -61,14 +63,16 @@ impl Import {
 	fn resolve_path(
 		target_path: &Path,
 		current_path: Symbol,
+		initial_dir: &Path,
 		interner: &mut symbol::Interner,
 	) -> io::Result<Symbol> {
-		let mut path_buf = PathBuf::from(
+		// The script may have changed directory, which must not affect relative source paths.
+		let mut path_buf = initial_dir.join(
 			OsStr::from_bytes(
 				interner
 					.resolve(current_path)
 					.expect("failed to resolve symbol")
-			).to_owned()
+			)
 		);
 		path_buf.pop(); // Remove the file name.
 		path_buf.push(target_path);
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 8d901fd..773e0ac 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -12,7 +12,10 @@ pub mod value;
 #[cfg(test)]
 mod tests;
 
-use std::collections::{HashMap, HashSet};
+use std::{
+	collections::{HashMap, HashSet},
+	path::PathBuf,
+};
 
 use crate::symbol::{self, Symbol};
 use super::semantic::program;
@@ -48,6 +51,8 @@ pub struct Runtime {
 	modules: HashMap<Symbol, Value>,
 	/// Modules currently being loaded, to detect circular imports.
 	loading_modules: HashSet<Symbol>,
+	/// The directory in which the runtime was created. Relative source paths refer to it.
+	initial_dir: PathBuf,
 	/// Command line arguments.
 	args: Value,
 }
@@ -73,6 +78,7 @@ impl Runtime {
 			std: lib::new(),
 			modules: HashMap::new(),
 			loading_modules: HashSet::new(),
+			initial_dir: std::env::current_dir().unwrap_or_default(),
 			args: args.into(),
 		}
 	}
-- 
2.43.0


From 13b5c10f7e4d639810a9c3b0e12b871100a0f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:41 +0000
Subject: [PATCH 23/32] fix: ignore SIGPIPE again after a failed exec

---
 src/runtime/command/exec/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 0b80d3b..ba30d6f 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -22,6 +22,14 @@ const IO_ERROR_STATUS: i32 = 0x7F;
 /// Offset of a signal status, according to Bash and Dash.
 const SIGNAL_STATUS_OFFSET: i32 = 0xFF;
 
+/// From signal.h.
+const SIGPIPE: i32 = 13;
+const SIG_IGN: usize = 1;
+
+extern "C" {
+	fn signal(signum: i32, handler: usize) -> usize;
+}
+
 
 /// Execution status of a single command.
 #[derive(Debug)]
@@ -214,6 +222,12 @@ impl Builtin {
 					Ok(ErrorStatus::wait_child(Child { process, pos }))
 				} else {
 					let error = command.exec();
+
+					// Preparing for exec has reset the disposition of SIGPIPE to the default one. As the
+					// script keeps running, it must be ignored again, otherwise writing to a closed pipe
+					// would kill the interpreter.
+					unsafe { signal(SIGPIPE, SIG_IGN) };
+
 					Err(io_error(error))
 				}
 			}
-- 
2.43.0


From 9177d108ec47727f53c705f095b2ec1d11bd3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:09 +0000
Subject: [PATCH 24/32] fix: capture the stderr of every command of a pipeline

---
 src/runtime/command/exec/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index ba30d6f..8972f40 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -517,11 +517,13 @@ impl Command {
 
 			Command::External { head, tail } => {
 				let mut last_stdout = stdout;
-				let mut last_stderr = stderr;
 
 				for cmd in tail.into_vec().into_iter().rev() {
 					let child_abort_on_error = cmd.abort_on_error;
-					let child_pos = cmd.pos.copy();
+
+					// All commands in the pipeline share the stderr of the block, which may be captured.
+					let child_stderr = stderr.try_clone()
+						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
 					let (pipe_reader, pipe_writer) = os_pipe::pipe()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
@@ -530,15 +532,13 @@ impl Command {
 						Stdio {
 							stdin: pipe_reader,
 							stdout: last_stdout,
-							stderr: last_stderr,
+							stderr: child_stderr,
 						}
 					)?;
 
 					tail_children.push((child, child_abort_on_error));
 
 					last_stdout = pipe_writer;
-					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child_pos))?;
 				}
 
 				let head_abort_on_error = head.abort_on_error;
@@ -550,7 +550,7 @@ impl Command {
 					Stdio {
 						stdin,
 						stdout: last_stdout,
-						stderr: last_stderr,
+						stderr,
 					}
 				)?;
 
-- 
2.43.0


From 0119d9f148c965d7a244826d065808ceec3b7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:23 +0000
Subject: [PATCH 25/32] fix: equal dicts with closures as keys must have equal
 hashes

---
 src/runtime/value/dict.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/runtime/value/dict.rs b/src/runtime/value/dict.rs
index e957bd6..f89c017 100644
--- a/src/runtime/value/dict.rs
+++ b/src/runtime/value/dict.rs
@@ -1,6 +1,6 @@
 use std::{
 	cmp::Ordering,
-	collections::{HashMap, BTreeMap},
+	collections::{hash_map::DefaultHasher, HashMap, BTreeMap},
 	hash::{Hash, Hasher},
 	ops::Deref,
 };
@@ -121,10 +121,23 @@ impl Ord for Dict {
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for Dict {
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		// This is very expensive, but there is no better way to correctly compare.
+		// Equal dicts may have different iteration orders, so the entries must be combined in
+		// an order independent fashion. Sorting is not enough, because the order does not
+		// distinguish all different keys (closures created from the same source position).
 		let _self = self.borrow();
-		let _self: BTreeMap<&Value, &Value> = _self.iter().collect();
 
-		_self.hash(state)
+		let entries = _self
+			.iter()
+			.map(
+				|entry| {
+					let mut hasher = DefaultHasher::new();
+					entry.hash(&mut hasher);
+					hasher.finish()
+				}
+			)
+			.fold(0, u64::wrapping_add);
+
+		_self.len().hash(state);
+		entries.hash(state);
 	}
 }
-- 
2.43.0


From 2ce94d0f4dfab6b5200a5cdaa8e8e924d459bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:38 +0000
Subject: [PATCH 26/32] fix: the dumps must not print a float literal as an int

---
 src/semantic/program/fmt.rs   | 2 +-
 src/syntax/ast/fmt.rs         | 2 +-
 src/syntax/lexer/token/fmt.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semantic/program/fmt.rs b/src/semantic/program/fmt.rs
index 7bf216a..f3ff694 100644
--- a/src/semantic/program/fmt.rs
+++ b/src/semantic/program/fmt.rs
@@ -93,7 +93,7 @@ impl<'a> Display<'a> for Literal {
 
 			Self::Int(i) => i.fmt(f),
 
-			Self::Float(n) => n.fmt(f),
+			Self::Float(n) => write!(f, "{:?}", n),
 
 			Self::Byte(c) => write!(f, "'{}'", color::Bold((*c as char).escape_debug())),
 
diff --git a/src/syntax/ast/fmt.rs b/src/syntax/ast/fmt.rs
index dc0c933..1c785ec 100644
--- a/src/syntax/ast/fmt.rs
+++ b/src/syntax/ast/fmt.rs
@@ -100,7 +100,7 @@ impl<'a> Display<'a> for Literal {
 
 			Self::Int(i) => i.fmt(f),
 
-			Self::Float(n) => n.fmt(f),
+			Self::Float(n) => write!(f, "{:?}", n),
 
 			Self::Byte(c) => write!(f, "'{}'", color::Bold((*c as char).escape_debug())),
 
diff --git a/src/syntax/lexer/token/fmt.rs b/src/syntax/lexer/token/fmt.rs
index ed5a408..aee968b 100644
--- a/src/syntax/lexer/token/fmt.rs
+++ b/src/syntax/lexer/token/fmt.rs
@@ -52,7 +52,7 @@ impl std::fmt::Display for Literal {
 			Self::True => color::Fg(color::Blue, "true").fmt(f),
 			Self::False => color::Fg(color::Blue, "false").fmt(f),
 			Self::Int(i) => i.fmt(f),
-			Self::Float(n) => n.fmt(f),
+			Self::Float(n) => write!(f, "{:?}", n),
 			Self::Byte(c) => write!(f, "'{}'", color::Bold((*c as char).escape_debug())),
 			Self::String(s) => write!(
 				f,
-- 
2.43.0


From d61e660a12b0b810515d5bcb14f02a0e3f4993f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 27/32] fix: the program dump inverted the ? operator of
 builtin commands

---
 src/semantic/program/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic/program/fmt.rs b/src/semantic/program/fmt.rs
index f3ff694..4634712 100644
--- a/src/semantic/program/fmt.rs
+++ b/src/semantic/program/fmt.rs
@@ -589,7 +589,7 @@ impl std::fmt::Display for Command {
 					arg.fmt(f)?;
 				}
 
-				if *abort_on_error {
+				if !*abort_on_error {
 					" ".fmt(f)?;
 					CommandOperator::Try.fmt(f)?;
 				}
-- 
2.43.0


From 03117f8091343766552f2c474a45578faad89b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:30 +0000
Subject: [PATCH 28/32] fix: state the number of suppressed static errors

When more than the maximum number of errors were found, the maximum itself was printed
instead of the number of errors that are not shown.
---
 src/semantic/error/fmt.rs | 2 +-
 src/syntax/error/fmt.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic/error/fmt.rs b/src/semantic/error/fmt.rs
index b360882..96e7de8 100644
--- a/src/semantic/error/fmt.rs
+++ b/src/semantic/error/fmt.rs
@@ -85,7 +85,7 @@ impl<'a> Display<'a> for Errors {
 					writeln!(
 						f,
 						"{} {}",
-						color::Fg(color::Red, max),
+						color::Fg(color::Red, self.0.len() - max),
 						color::Fg(color::Red, "more supressed semantic errors"),
 					)?;
 
diff --git a/src/syntax/error/fmt.rs b/src/syntax/error/fmt.rs
index 41f446b..6e659d0 100644
--- a/src/syntax/error/fmt.rs
+++ b/src/syntax/error/fmt.rs
@@ -36,7 +36,7 @@ impl<'a> Display<'a> for Errors {
 					writeln!(
 						f,
 						"{} {}",
-						color::Fg(color::Red, max),
+						color::Fg(color::Red, self.0.len() - max),
 						color::Fg(color::Red, "more supressed syntax errors"),
 					)?;
 
-- 
2.43.0


From 74726065818e8bd99095df37afe330a35e59edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:58 +0000
Subject: [PATCH 29/32] fix: no follow-up errors about names that could not be
 parsed

Two let statements without a valid name were reported as duplicates of each other, at line 0.
---
 src/semantic/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index 78bf0d9..14b86c7 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -111,12 +111,17 @@ impl<'a> Analyzer<'a> {
 		match statement {
 			// Let.
 			ast::Statement::Let { identifier, init, pos } => {
-				let slot_ix = self.scope
-					.declare(identifier, pos)
-					.map_err(
-						|error| self.report(error)
-					)
-					.ok();
+				let slot_ix =
+					if identifier.is_ill_formed() {
+						None
+					} else {
+						self.scope
+							.declare(identifier, pos)
+							.map_err(
+								|error| self.report(error)
+							)
+							.ok()
+					};
 
 				let init = self.analyze_expr(init);
 
-- 
2.43.0


From 034733f2d2c9ed75590285279ef786847a2a8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 30/32] fix: name the wrong argument when several arguments of
 std.substr have wrong types

---
 src/runtime/lib/substr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index be0c662..e6c8c48 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -37,9 +37,9 @@ impl NativeFun for Substr {
                 let result = Self::substr(string.as_ref(), *start, *len);
                 Ok(result.unwrap_or_else(Into::into))
             },
-            [ other, Value::Int(_), Value::Int(_) ] => Err(Panic::type_error(other.copy(), "string", context.pos)),
-            [ Value::String(_), other, Value::Int(_) ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
             [ Value::String(_), Value::Int(_), other ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+            [ Value::String(_), other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+            [ other, _, _ ] => Err(Panic::type_error(other.copy(), "string", context.pos)),
             args => Err(Panic::invalid_args(args.len() as u32, 3, context.pos))
         }
     }
-- 
2.43.0


From dbae0226f54bd5d47390bdea93252808bac02965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 31/32] fix: terminal colors do not leak into the values of the
 script

Error descriptions, positions and std.to_string contained escape sequences
when the standard output and error are terminals.
---
 src/runtime/command/exec/error.rs |  2 +-
 src/runtime/lib/catch.rs          | 10 ++++++----
 src/runtime/lib/to_string.rs      |  4 ++--
 src/runtime/lib/typecheck.rs      | 14 ++++++++------
 src/term/color.rs                 | 18 +++++++++++++++++-
 5 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/runtime/command/exec/error.rs b/src/runtime/command/exec/error.rs
index 9ae3c34..505a730 100644
--- a/src/runtime/command/exec/error.rs
+++ b/src/runtime/command/exec/error.rs
@@ -118,7 +118,7 @@ impl IntoValue for ErrorStatus {
 			|status| context.insert(status.copy(), Value::Int(self.status as i64))
 		);
 		POS.with(
-			|pos| context.insert(pos.copy(), Show(self.pos, interner).to_string().into())
+			|pos| context.insert(pos.copy(), color::plain(|| Show(self.pos, interner).to_string()).into())
 		);
 		let context = value::Dict::new(context).into();
 
diff --git a/src/runtime/lib/catch.rs b/src/runtime/lib/catch.rs
index 1ee9eee..b9e174a 100644
--- a/src/runtime/lib/catch.rs
+++ b/src/runtime/lib/catch.rs
@@ -1,6 +1,6 @@
 use gc::{Finalize, Trace};
 
-use crate::fmt;
+use crate::{fmt, term::color};
 
 use super::{
 	CallContext,
@@ -42,9 +42,11 @@ impl NativeFun for Catch {
 			Ok(value) => Ok(value),
 
 			Err(panic) => {
-				let description = format!(
-					"caught panic: {}",
-					fmt::Show(panic, context.interner()),
+				let description = color::plain(
+					|| format!(
+						"caught panic: {}",
+						fmt::Show(panic, context.interner()),
+					)
 				);
 
 				Ok(
diff --git a/src/runtime/lib/to_string.rs b/src/runtime/lib/to_string.rs
index f661045..42f5f91 100644
--- a/src/runtime/lib/to_string.rs
+++ b/src/runtime/lib/to_string.rs
@@ -1,6 +1,6 @@
 use gc::{Finalize, Trace};
 
-use crate::fmt::FmtString;
+use crate::{fmt::FmtString, term::color};
 use super::{
 	CallContext,
 	RustFun,
@@ -21,7 +21,7 @@ impl NativeFun for ToString {
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
 			[ Value::String(ref string) ] => Ok(string.copy().into()),
-			[ value ] => Ok(value.fmt_string(context.interner()).into()),
+			[ value ] => Ok(color::plain(|| value.fmt_string(context.interner())).into()),
 			args => Err(Panic::invalid_args(args.len() as u32, 1, context.pos))
 		}
 	}
diff --git a/src/runtime/lib/typecheck.rs b/src/runtime/lib/typecheck.rs
index e85e2f5..60631be 100644
--- a/src/runtime/lib/typecheck.rs
+++ b/src/runtime/lib/typecheck.rs
@@ -1,6 +1,6 @@
 use gc::{Finalize, Trace};
 
-use crate::fmt;
+use crate::{fmt, term::color};
 
 use super::{
 	CallContext,
@@ -100,11 +100,13 @@ impl NativeFun for TryTypecheck {
 			TypeChecked::Valid(_) => Ok(Value::default()),
 
 			TypeChecked::Invalid { value, expected_type } => {
-				let description = format!(
-					"type error: expected {}, got {} ({})",
-					expected_type,
-					value.get_type(),
-					fmt::Show(&value, context.interner()),
+				let description = color::plain(
+					|| format!(
+						"type error: expected {}, got {} ({})",
+						expected_type,
+						value.get_type(),
+						fmt::Show(&value, context.interner()),
+					)
 				);
 
 				Ok(
diff --git a/src/term/color.rs b/src/term/color.rs
index 114e46c..94193f0 100644
--- a/src/term/color.rs
+++ b/src/term/color.rs
@@ -1,4 +1,5 @@
 use std::{
+	cell::Cell,
 	io,
 	fmt::{self, Debug, Display},
 };
@@ -9,13 +10,28 @@ pub use termion::color::{Blue, Green, Red, Yellow};
 thread_local! {
 	static IS_TTY: bool = termion::is_tty(&io::stdout())
 		&& termion::is_tty(&io::stderr());
+	static PLAIN: Cell<bool> = Cell::new(false);
+}
+
+
+/// Run the given function without coloring anything that is formatted meanwhile.
+/// Text that becomes a value of the script must not depend on whether there is a terminal.
+pub fn plain<T>(format: impl FnOnce() -> T) -> T {
+	PLAIN.with(
+		|plain| {
+			let previous = plain.replace(true);
+			let result = format();
+			plain.set(previous);
+			result
+		}
+	)
 }
 
 
 macro_rules! tty_fmt {
 	($f: expr, $open: expr, $value: expr, $close: expr) => {
 		IS_TTY.with(
-			|&is_tty| if is_tty {
+			|&is_tty| if is_tty && !PLAIN.with(Cell::get) {
 				write!($f, "{}", $open)?;
 				$value.fmt($f)?;
 				write!($f, "{}", $close)
-- 
2.43.0


From 8b42f9f75ee24c6ea5586277698c4cd2108a4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 32/32] fix: dumps, help and version do not crash when the
 output cannot be written

---
 src/main.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c20c0b5..2e43925 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -19,6 +19,16 @@ use args::{Args, Command};
 use runtime::{Panic, SourcePos, Runtime};
 
 
+/// Like println, but an output that can't be written must not crash the interpreter.
+macro_rules! show {
+	($($arg: tt)*) => {
+		{
+			writeln!(std::io::stdout(), $($arg)*).ok();
+		}
+	}
+}
+
+
 #[derive(Debug)]
 enum ExitStatus {
 	Success,
@@ -52,7 +62,7 @@ fn main() -> ! {
 	let exit_status = match command {
 		Command::Run(args) => run(args),
 		Command::Help(msg) | Command::Version(msg) => {
-			println!("{}", msg);
+			show!("{}", msg);
 			ExitStatus::Success
 		},
 	};
@@ -108,31 +118,31 @@ fn run(args: Args) -> ExitStatus {
 	}
 
 	if args.print_lexemes {
-		println!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
+		show!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
 
 		let cursor = syntax::lexer::Cursor::from(&source);
 		let results: Vec<_> = syntax::lexer::Lexer::new(cursor, &mut interner).collect();
 
 		for result in results {
 			match result {
-				Ok(token) => println!("{}", fmt::Show(&token, &interner)),
-				Err(error) => println!("{}: {}", color::Fg(color::Red, "Error"), error)
+				Ok(token) => show!("{}", fmt::Show(&token, &interner)),
+				Err(error) => show!("{}: {}", color::Fg(color::Red, "Error"), error)
 			}
 		}
 
-		println!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
+		show!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
 	}
 
 	if args.print_ast {
-		println!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
-		println!(
+		show!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
+		show!(
 			"{}",
 			fmt::Show(
 				&syntactic_analysis.ast,
 				syntax::ast::fmt::Context::from(&interner)
 			)
 		);
-		println!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
+		show!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
 	}
 
 	// ----------------------------------------------------------------------------------------
@@ -151,15 +161,15 @@ fn run(args: Args) -> ExitStatus {
 	};
 
 	if args.print_program {
-		println!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
-		println!(
+		show!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
+		show!(
 			"{}",
 			fmt::Show(
 				&program,
 				semantic::program::fmt::Context::from(&interner)
 			)
 		);
-		println!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
+		show!("{}", color::Fg(color::Yellow, "--------------------------------------------------"));
 	}
 
 	// ----------------------------------------------------------------------------------------
-- 
2.43.0

