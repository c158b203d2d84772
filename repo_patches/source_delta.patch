From c3ea2645b232f93233fd48ac733812df435afdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:58 +0000
Subject: [PATCH 01/18] fix: drop the globals of a program that panics, so that
 a caught import panic leaves variables intact

---
 src/runtime/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..e239e12 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,14 +103,16 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
+		let result = self.eval_block(&program.statements);
+
+		// Drop global variables, even if the program panicked.
+		self.stack.shrink(slots);
+
+		let value = match result? {
 			Flow::Regular(value) => value,
 			flow => panic!("invalid flow in root state: {:#?}", flow)
 		};
 
-		// Drop global variables.
-		self.stack.shrink(slots);
-
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
-- 
2.43.0


From aef81d7b33a9093f275b28e6a54fcd7ab0eacff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:58 +0000
Subject: [PATCH 02/18] fix: negating the minimum int is an integer overflow
 panic, not a crash

---
 src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e239e12..bed4c0a 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -666,7 +666,10 @@ impl Runtime {
 
 		match (op, value) {
 			(Minus, Value::Float(ref f)) => Ok(Flow::Regular((-f).into())),
-			(Minus, Value::Int(i)) => Ok(Flow::Regular((-i).into())),
+			(Minus, Value::Int(i)) => i
+				.checked_neg()
+				.map(|i| Flow::Regular(i.into()))
+				.ok_or_else(|| Panic::integer_overflow(operand_pos)),
 			(Minus, value) => Err(Panic::type_error(value, "int or float", operand_pos)),
 
 			(Not, Value::Bool(b)) => Ok(Flow::Regular((!b).into())),
-- 
2.43.0


From f902d150dae8a5bb3ec318988d85c67092ee4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:19 +0000
Subject: [PATCH 03/18] fix: a range whose next position overflows is finished,
 not a crash

---
 src/runtime/lib/range.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/range.rs b/src/runtime/lib/range.rs
index ba229d2..f1f922b 100644
--- a/src/runtime/lib/range.rs
+++ b/src/runtime/lib/range.rs
@@ -7,6 +7,7 @@ use super::{
 	keys,
 	CallContext,
 	Dict,
+	Float,
 	RustFun,
 	NativeFun,
 	Panic,
@@ -52,6 +53,21 @@ impl NativeFun for Range {
 }
 
 
+/// Advance a range position. Past the end of the type's domain, the range is over, so it
+/// is fine to saturate.
+trait Advance {
+	fn advance(&self, step: &Self) -> Self;
+}
+
+impl Advance for i64 {
+	fn advance(&self, step: &Self) -> Self { self.saturating_add(*step) }
+}
+
+impl Advance for Float {
+	fn advance(&self, step: &Self) -> Self { self.copy() + step.copy() }
+}
+
+
 #[derive(Trace, Finalize)]
 struct RangeImpl<T: 'static> {
 	from: GcCell<T>,
@@ -62,7 +78,7 @@ struct RangeImpl<T: 'static> {
 impl<T> NativeFun for RangeImpl<T>
 where
 	T: Trace + Finalize + 'static,
-	T: Clone + Default + Ord + std::ops::Add<Output = T>,
+	T: Clone + Default + Ord + Advance,
 	T: Into<Value>,
 {
 	fn name(&self) -> &'static str { "std.range<impl>" }
@@ -87,7 +103,7 @@ where
 			None
 		} else {
 			let value = from.clone();
-			*from = from.clone() + self.step.clone();
+			*from = value.advance(&self.step);
 			Some(value)
 		};
 
-- 
2.43.0


From 6783ade5414943c1f1c9d8741e4fdb2e01816942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:19 +0000
Subject: [PATCH 04/18] fix: std.substr with a negative start or length is out
 of range, not a crash

---
 src/runtime/lib/substr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index ea474d6..611e854 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use gc::{Finalize, Trace};
 
 use super::{
@@ -17,9 +19,10 @@ struct Substr;
 
 impl Substr {
     fn substr(string: &[u8], start: i64, len: i64) -> Result<Value, Error> {
-        let start = start as usize;
-        let end = start + (len as usize);
-        let substr = string.get(start..end);
+        let range = usize::try_from(start).ok()
+            .zip(usize::try_from(len).ok())
+            .and_then(|(start, len)| Some(start .. start.checked_add(len)?));
+        let substr = range.and_then(|range| string.get(range));
         Ok(substr.into())
     }
 }
-- 
2.43.0


From 424a7f443ca9da78379b86d30c6663b2f69e259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:19 +0000
Subject: [PATCH 05/18] fix: std.randint with an empty range is a value error
 panic, not a crash

---
 src/runtime/lib/rand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..b08feb2 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,6 +51,9 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
+			[ Value::Int(m), Value::Int(n) ] if m > n => Err(
+				Panic::value_error(Value::Int(*n), "an int not lower than the first", context.pos)
+			),
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
-- 
2.43.0


From d226f9d7328d622b984fced3cf0037582a618993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:19 +0000
Subject: [PATCH 06/18] fix: equal float zeros hash equally, so that they are
 the same dict key

---
 src/runtime/value/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index 604138e..d90d3e9 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -67,6 +67,8 @@ impl Hash for Float {
 		let float =
 			if self.is_nan() {
 				f64::NAN // Make sure that the hash equals for all NaN values.
+			} else if self.0 == 0.0 {
+				0.0 // Positive and negative zero are equal.
 			} else {
 				self.0
 			};
-- 
2.43.0


From 2b0335baa5c9adcb3f407ea560a297bb29d1c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:19 +0000
Subject: [PATCH 07/18] fix: std.print flushes, so that its output precedes
 that of following commands

---
 src/runtime/lib/print.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/print.rs b/src/runtime/lib/print.rs
index 256db16..d5ecbcc 100644
--- a/src/runtime/lib/print.rs
+++ b/src/runtime/lib/print.rs
@@ -51,8 +51,9 @@ impl NativeFun for Print {
 				.map_err(|error| Panic::io(error, context.pos.copy()))?;
 		}
 
-		//writeln!(stdout)
-			//.map_err(|error| Panic::io(error, context.pos))?;
+		// There is no line break to flush the output, which must precede that of commands.
+		stdout.flush()
+			.map_err(|error| Panic::io(error, context.pos.copy()))?;
 
 		Ok(Value::default())
 	}
-- 
2.43.0


From ea3597c2df3f9c936b1249525d490a720b8ce8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:34 +0000
Subject: [PATCH 08/18] fix: check duplicate keys per dict literal, regardless
 of nested dicts

---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..6f70bd4 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// Dicts may be nested, and each one has it's own keys.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0


From 4512be7a8ba1ade0fa1d3ef59dfc43247cfa1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:43 +0000
Subject: [PATCH 09/18] fix: unsupported expansions in command arguments are
 syntax errors, not crashes

---
 src/syntax/lexer/automata/argument.rs  |  8 ++++++++
 src/syntax/lexer/automata/expansion.rs | 12 ++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/syntax/lexer/automata/argument.rs b/src/syntax/lexer/automata/argument.rs
index 94df876..ec1f9b0 100644
--- a/src/syntax/lexer/automata/argument.rs
+++ b/src/syntax/lexer/automata/argument.rs
@@ -635,6 +635,10 @@ impl ExpansionContext for Argument {
 		Transition::rollback(checkpoint, Word::from(self))
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Self::is_word(value)
 	}
@@ -662,6 +666,10 @@ impl ExpansionContext for Word<Argument> {
 		Transition::rollback(checkpoint, self)
 	}
 
+	fn error(self, error: Error) -> Transition {
+		Transition::error(self, error)
+	}
+
 	fn is_expansion_word(value: u8) -> bool {
 		Argument::is_word(value)
 	}
diff --git a/src/syntax/lexer/automata/expansion.rs b/src/syntax/lexer/automata/expansion.rs
index 14eed91..b983fbc 100644
--- a/src/syntax/lexer/automata/expansion.rs
+++ b/src/syntax/lexer/automata/expansion.rs
@@ -4,6 +4,7 @@ use super::{
 	ArgExpansion,
 	Cursor,
 	Checkpoint,
+	Error,
 	State,
 	Transition,
 };
@@ -20,6 +21,8 @@ pub(super) trait ExpansionContext {
 	/// The transition to make when no expansion could be parsed.
 	/// Yield and rollback to the given checkpoint.
 	fn rollback(self, checkpoint: Checkpoint) -> Transition;
+	/// The transition to make when the expansion is invalid.
+	fn error(self, error: Error) -> Transition;
 	/// Check if a character may be consumed inside expansions.
 	fn is_expansion_word(value: u8) -> bool;
 }
@@ -83,12 +86,9 @@ where
 				self.context.produce(ArgExpansion::Percent)
 			}
 
-			Some(b'[') => {
-				todo!() // char class.
-			}
-
-			Some(b'{') => {
-				todo!() // range, collection
+			// TODO: char class, range, collection.
+			Some(c @ (b'[' | b'{')) => {
+				self.context.error(Error::unexpected(c, cursor.pos()))
 			}
 
 			// Failed to parse expansion.
-- 
2.43.0


From ff04ba02e8d27cd92587b5d230dc5ca3e9a21ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:02 +0000
Subject: [PATCH 10/18] fix: an input literal larger than a pipe does not
 deadlock

---
 src/runtime/command/exec/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..79d314a 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -20,6 +20,8 @@ pub use error::{Panic, Error, PipelineErrors, IntoValue};
 const IO_ERROR_STATUS: i32 = 0x7F;
 /// Offset of a signal status, according to Bash and Dash.
 const SIGNAL_STATUS_OFFSET: i32 = 0xFF;
+/// How much may be written to a pipe before there is a reader.
+const PIPE_CAPACITY: usize = 64 * 1024;
 
 
 /// Execution status of a single command.
@@ -347,11 +349,17 @@ impl BasicCommand {
 							let (reader, mut writer) = os_pipe::pipe()
 								.map_err(|error| Error::io(error, pos.copy()))?;
 
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
-
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							let mut input = source.as_bytes().to_vec();
+							input.push(b'\n');
+
+							if input.len() <= PIPE_CAPACITY {
+								writer.write_all(&input)
+									.map_err(|error| Error::io(error, pos.copy()))?;
+							} else {
+								// The command must be running in order to consume it. It may also close
+								// the pipe without doing so, which is not an error.
+								std::thread::spawn(move || { writer.write_all(&input).ok(); });
+							}
 
 							reader
 						} else {
-- 
2.43.0


From 5f1c3e4288d30caed0b7860332870ef7b178fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:23 +0000
Subject: [PATCH 11/18] fix: wait for the started commands of a pipeline when
 another one cannot be started

---
 src/runtime/command/exec/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 79d314a..83c262e 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -42,7 +42,7 @@ impl ErrorStatus {
 				Self {
 					description: error.to_string(),
 					status: IO_ERROR_STATUS,
-					pos: child.pos,
+					pos: child.pos.copy(),
 				}
 			)
 		};
@@ -65,7 +65,7 @@ impl ErrorStatus {
 				Self {
 					description: "command returned non-zero".into(),
 					status: code,
-					pos: child.pos,
+					pos: child.pos.copy(),
 				}
 			)
 		}
@@ -439,6 +439,14 @@ pub struct Child {
 }
 
 
+/// Never leave a child behind, even if the rest of the pipeline couldn't be started.
+impl Drop for Child {
+	fn drop(&mut self) {
+		self.process.wait().ok();
+	}
+}
+
+
 #[derive(Debug)]
 pub struct CommandExec {
 	pub errors: PipelineErrors,
@@ -488,10 +496,12 @@ impl Command {
 			}
 
 			Command::External { head, tail } => {
+				// Declared first in order to be dropped last, when all pipes are closed.
+				let mut tail_children = Vec::new();
+
 				let mut last_stdout = stdout;
 				let mut last_stderr = stderr;
 
-				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
 					let child_abort_on_error = cmd.abort_on_error;
 
-- 
2.43.0


From 267004a1c150631315653ad590ad6add33cc41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:24 +0000
Subject: [PATCH 12/18] fix: empty quotes in a command are an empty argument,
 not none

---
 src/syntax/parser/command.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/syntax/parser/command.rs b/src/syntax/parser/command.rs
index 10da9ef..c47b39b 100644
--- a/src/syntax/parser/command.rs
+++ b/src/syntax/parser/command.rs
@@ -299,6 +299,7 @@ where
 	{
 		let mut parts = Vec::<ast::ArgPart>::new();
 		let mut literal = Vec::<u8>::new();
+		let mut quoted = false;
 
 		let join_owned_literal = |literal: &mut Vec<u8>, lit: Box<[u8]>| {
 			if literal.is_empty() {
@@ -331,6 +332,8 @@ where
 		};
 
 		for part in arg_parts {
+			quoted |= matches!(part, ArgPart::SingleQuoted(_) | ArgPart::DoubleQuoted(_));
+
 			match part {
 				ArgPart::SingleQuoted(lit) => join_owned_literal(&mut literal, lit),
 
@@ -363,6 +366,11 @@ where
 		// Push the trailing literal, if any.
 		push_literal(&mut literal, &mut parts);
 
+		// Empty quotes are an empty argument.
+		if parts.is_empty() && quoted {
+			parts.push(ast::ArgPart::Unit(ast::ArgUnit::Literal(literal.into())));
+		}
+
 		ast::Argument {
 			parts: parts.into(),
 			pos
-- 
2.43.0


From 42c7a50d1d853b08e4514618bc6da8177f285ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 13/18] fix: statements before a top-level return are not
 discarded, so that it is reported

---
 src/syntax/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..674d243 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,13 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			// The block may end before EOF, in which case its statements must not be lost.
+			if let ast::Block::Block(block) = self.parse_block() {
+				statements.extend(block.into_vec());
+			}
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +211,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
-- 
2.43.0


From 4377d0fbad1bcb0998264b82735a8bdd8ded9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:45 +0000
Subject: [PATCH 14/18] fix: std.export with an empty key is an error, not a
 crash

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From 5b0a1799790126198239b8c19c7809ec6b0f2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 15/18] fix: resolve imports relative to the importing file,
 also after a change of directory

---
 src/runtime/lib/import.rs | 8 +++++---
 src/runtime/mod.rs        | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 59712de..cfafb91 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -33,7 +33,8 @@ impl Import {
 			::resolve_path(
 				module_path,
 				context.pos.path,
-				context.runtime.interner_mut()
+				&context.runtime.initial_dir,
+				&mut context.runtime.interner
 			)
 			.map_err(
 				|error| Panic::io(error, context.pos.copy())
@@ -53,14 +54,15 @@ impl Import {
 	fn resolve_path(
 		target_path: &Path,
 		current_path: Symbol,
+		initial_dir: &Path,
 		interner: &mut symbol::Interner,
 	) -> io::Result<Symbol> {
-		let mut path_buf = PathBuf::from(
+		let mut path_buf: PathBuf = initial_dir.join(
 			OsStr::from_bytes(
 				interner
 					.resolve(current_path)
 					.expect("failed to resolve symbol")
-			).to_owned()
+			)
 		);
 		path_buf.pop(); // Remove the file name.
 		path_buf.push(target_path);
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index bed4c0a..b782a13 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -46,6 +46,8 @@ pub struct Runtime {
 	std: Value,
 	interner: symbol::Interner,
 	modules: HashMap<Symbol, Value>,
+	/// The directory where hush was started, which relative source paths refer to.
+	initial_dir: std::path::PathBuf,
 	/// Command line arguments.
 	args: Value,
 }
@@ -70,6 +72,7 @@ impl Runtime {
 			interner,
 			std: lib::new(),
 			modules: HashMap::new(),
+			initial_dir: std::env::current_dir().unwrap_or_default(),
 			args: args.into(),
 		}
 	}
-- 
2.43.0


From f34fe8c331961f9c9b2b661d06ea093d4cca4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 16/18] fix: panic on import cycles instead of overflowing the
 stack

---
 src/runtime/lib/import.rs | 10 +++++++++-
 src/runtime/mod.rs        |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index cfafb91..59ea461 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -42,8 +42,16 @@ impl Import {
 
 		match context.runtime.modules.get(&path) {
 			Some(module) => Ok(module.copy()), // Don't reload module if cached.
+			// An import cycle would recurse forever.
+			None if context.runtime.loading.contains(&path) => Err(
+				Panic::import_failed(path, context.pos)
+			),
 			None => {
-				let module = Self::load(path, &mut context)?;
+				context.runtime.loading.push(path);
+				let module = Self::load(path, &mut context);
+				context.runtime.loading.pop();
+
+				let module = module?;
 				context.runtime.modules.insert(path, module.copy());
 				Ok(module)
 			}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index b782a13..3f80dca 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -46,6 +46,8 @@ pub struct Runtime {
 	std: Value,
 	interner: symbol::Interner,
 	modules: HashMap<Symbol, Value>,
+	/// The modules whose evaluation hasn't finished yet.
+	loading: Vec<Symbol>,
 	/// The directory where hush was started, which relative source paths refer to.
 	initial_dir: std::path::PathBuf,
 	/// Command line arguments.
@@ -72,6 +74,7 @@ impl Runtime {
 			interner,
 			std: lib::new(),
 			modules: HashMap::new(),
+			loading: Vec::new(),
 			initial_dir: std::env::current_dir().unwrap_or_default(),
 			args: args.into(),
 		}
-- 
2.43.0


From 8e79fad66b321c4a4b12343ce660d7ae6b3e768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 17/18] fix: std.randint reports its second argument when that
 is the one that isn't an int

---
 src/runtime/lib/rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index b08feb2..56c8282 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -57,7 +57,7 @@ impl NativeFun for RandInt {
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
-			[ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+			[ Value::Int(_), other ] | [ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			args => Err(Panic::invalid_args(args.len() as u32, 2, context.pos))
 		}
 	}
-- 
2.43.0


From 9e5e1e0da570d90a44ecc9f855541aced2ae2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 18/18] fix: order NaN equal to itself, so that values have a
 total order

---
 src/runtime/value/float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index d90d3e9..31e9b98 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -52,7 +52,8 @@ impl PartialOrd for Float {
 impl Ord for Float {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (self.is_nan(), other.is_nan()) {
-			(true, _) => Ordering::Less,
+			(true, true) => Ordering::Equal,
+			(true, false) => Ordering::Less,
 			(false, true) => Ordering::Greater,
 			(false, false) => self.0
 				.partial_cmp(&other.0)
-- 
2.43.0

