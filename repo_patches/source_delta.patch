From 1ef022e523f714869d3183af46e24092f15e187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 01/22] fix: modulus returned the divisor itself for exact
 negative multiples and zero

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..bb2cbd4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,8 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let r = a % b;
+    if r == T::zero() || r.is_sign_positive() == b.is_sign_positive() { return r }
+    let r = r + b;
+    if r == b { T::zero() } else { r } // tiny remainders can round up to the modulus itself
 }
-- 
2.43.0


From 72c6d3af5d236a3a9045abafd874c36dbb352ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 02/22] fix: notes outside the MIDI range wrapped around, and
 spelled notes had wrong names and frequencies

---
 src/process.rs |  5 ++---
 src/runtime.rs | 17 ++++++++---------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..e7bc394 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1526,9 +1526,8 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));
+            return res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..78aeaa2 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1885,13 +1885,11 @@ impl Note {
                 None => break,
             }
         }
-        let mut octave = octave?;
-        if note >= 3 {
-            octave -= 1;
-        }
+        let octave = octave?;
+        let octave_start = if note >= 3 { 9 } else { 21 };
 
-        let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        let value = octave.checked_mul(12)?.checked_add(octave_start + note + delta)?;
+        u8::try_from(value).ok().and_then(|x| Self::from_midi(x, natural))
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
@@ -1899,12 +1897,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let midi = self.get_midi().0;
+        let octave = midi as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((midi as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From d981aa0e0b65a932366b407b62228dc3cfebf0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 03/22] fix: names of images and sounds received from NetsBlox
 were left XML-escaped

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 78aeaa2..67ce414 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadImage)?,
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadAudio)?,
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From bc06acb2ddb5326aa53f75390aef012bf746e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 04/22] fix: list insert, replace and delete panicked when the
 index list is or contains the edited list

---
 src/process.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index e7bc394..708d04f 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,10 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                // the index may itself be (or contain) the list, so it must be resolved before the list is mutably borrowed
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +699,10 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                // the index may itself be (or contain) the list, so it must be resolved before the list is mutably borrowed
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +730,10 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                // the index may itself be (or contain) the list, so it must be resolved before the list is mutably borrowed
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From af278406a6b31430919750399d6f1227ee05b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 05/22] fix: calling a ring ignored the call depth limit, so
 recursion through rings grew without bound

---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 708d04f..9ffe68d 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -946,6 +946,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 self.pos = aft_pos;
             }
             Instruction::CallClosure { new_entity, args } => {
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 let (closure_pos, locals) = prep_call_closure(mc, &mut self.value_stack, args)?;
                 let entity = match new_entity {
                     false => self.call_stack.last().unwrap().entity,
-- 
2.43.0


From 42a492c032cc7af7cdf285e94983ca41699fcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 06/22] fix: a broadcast received by the broadcasting script
 itself panicked

---
 src/project.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..d757e7e 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -360,6 +360,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     ProjectStep::Normal
                 }
                 ProcessStep::Broadcast { msg_type, barrier, targets } => {
+                    let mut receivers = vec![];
                     for i in 0..self.scripts.len() {
                         if let Event::LocalMessage { msg_type: recv_type } = &self.scripts[i].event.0 {
                             if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {
@@ -370,13 +371,15 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                                 }
 
                                 let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
-
-                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
-                                self.scripts[i].stop_all(&mut self.state);
-                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                                receivers.push((i, state));
                             }
                         }
                     }
+                    for (i, state) in receivers { // note: the sender might itself be stopped and restarted here
+                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
+                        self.scripts[i].stop_all(&mut self.state);
+                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                    }
                     self.state.process_queue.push_front(proc_key); // keep executing same process, if it was a wait, it'll yield next step
                     ProjectStep::Normal
                 }
-- 
2.43.0


From 70e7046bd1cc6f703a1914892aee948fcace2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 07/22] fix: key up inputs panicked

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index d757e7e..10c7797 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // key up events are optional, and no hat block reacts to them
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From f3239b7c39654c9e822208fee58e6e4048cc5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 08/22] fix: queued script runs could be stranded, or trip an
 assertion, when the script's current run was aborted, ended in the step that
 queued them, or all scripts were stopped

---
 src/project.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 10c7797..24bdd53 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -291,8 +291,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
         let (proc_key, proc) = loop {
             match self.state.process_queue.pop_front() {
                 None => {
-                    debug_assert!(self.scripts.iter().all(|x| x.context_queue.is_empty()));
-                    return ProjectStep::Idle;
+                    AllContextsConsumer::new().do_once(self); // scripts which were aborted might still have something queued
+                    if self.state.process_queue.is_empty() {
+                        debug_assert!(self.scripts.iter().all(|x| x.context_queue.is_empty()));
+                        return ProjectStep::Idle;
+                    }
                 }
                 Some(proc_key) => if let Some(proc) = self.state.processes.get_mut(proc_key) { break (proc_key, proc) }
             }
@@ -385,7 +388,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                 }
                 ProcessStep::Terminate { result } => {
                     let proc = self.state.processes.remove(proc_key).unwrap();
-                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                    AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process (even if already done earlier this step)
                     ProjectStep::ProcessTerminated { result, proc }
                 }
                 ProcessStep::Abort { mode } => match mode {
@@ -396,6 +399,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.stop_all(&mut self.state);
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
@@ -420,7 +426,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
             Err(error) => {
                 let proc = self.state.processes.remove(proc_key).unwrap();
-                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process (even if already done earlier this step)
                 ProjectStep::Error { error, proc }
             }
         }
-- 
2.43.0


From 46587b747f22ffb1599a67a11a317e81b3910c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 09/22] fix: extremely long waits overflowed the clock

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 9ffe68d..2e08c29 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1137,7 +1137,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From 1091cbcbd0c4d7914ce293b1535c6cea433e5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 10/22] fix: pointing towards an x/y position swapped the
 coordinates

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 2e08c29..fc01fda 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1451,8 +1451,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From 627967c8f7440bf1df703e066b07dcae6ebb9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 11/22] fix: numbers from/to with ends beyond 2^53 never
 stopped growing the list

---
 src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index fc01fda..23c3f15 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1843,11 +1843,13 @@ mod ops {
                     if a <= b {
                         while a <= b {
                             res.push_back(Number::new(a)?.into());
+                            if a + 1.0 == a { break } // too large to count any further
                             a += 1.0;
                         }
                     } else {
                         while a >= b {
                             res.push_back(Number::new(a)?.into());
+                            if a - 1.0 == a { break } // too large to count any further
                             a -= 1.0;
                         }
                     }
-- 
2.43.0


From 7395fcd521e3708dcfc4ae31b7242a6fa4ec5e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 12/22] fix: error locations named a following or inner block
 instead of the failing one, or any block where there is no location

---
 src/bytecode.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..09b90aa 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1254,6 +1254,8 @@ pub struct Locations {
     value_data: Vec<u8>,
     locs: Vec<(usize, usize)>,
 }
+/// Marks a range of [`Locations`] that has no location information.
+const NO_LOCATION: usize = usize::MAX;
 impl Locations {
     fn condense<'a>(orig_locs: &BTreeMap<usize, &'a str>) -> Result<Self, CompileError<'a>> {
         if orig_locs.is_empty() {
@@ -1363,6 +1365,7 @@ impl Locations {
             debug_assert!(p <= self.locs.len());
             self.locs.get(p)?.1
         };
+        if start == NO_LOCATION { return None }
 
         let mut res = self.prefix.clone();
         let mut first = true;
@@ -1439,10 +1442,26 @@ struct ByteCodeBuilder<'a: 'b, 'b> {
     ins: Vec<InternalInstruction<'b>>,
     call_holes: Vec<(usize, &'a ast::FnRef, Option<&'a ast::Entity>)>, // (hole pos, function, entity)
     closure_holes: VecDeque<(usize, &'a [ast::VariableDef], &'a [ast::VariableRef], &'a [ast::Stmt], Option<&'a ast::Entity>)>, // (hole pos, params, captures, stmts, entity)
-    ins_locations: BTreeMap<usize, &'a str>,
+    ins_locations: BTreeMap<usize, Option<&'a str>>, // end of each run of instructions having the same (most local) location
+    current_location: Option<&'a str>,
     string_arena: &'b typed_arena::Arena<CompactString>,
 }
 impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
+    /// Begins a block that may have a location of its own, and gives the location to pass to [`Self::end_block`].
+    fn begin_block(&mut self, info: &'a ast::BlockInfo) -> Option<&'a str> {
+        let enclosing = self.current_location;
+        if let Some(location) = info.location.as_deref() {
+            self.ins_locations.entry(self.ins.len()).or_insert(enclosing);
+            self.current_location = Some(location);
+        }
+        enclosing
+    }
+    fn end_block(&mut self, info: &'a ast::BlockInfo, enclosing: Option<&'a str>) {
+        if info.location.is_some() {
+            self.ins_locations.entry(self.ins.len()).or_insert(self.current_location);
+            self.current_location = enclosing;
+        }
+    }
     fn append_simple_ins(&mut self, entity: Option<&'a ast::Entity>, values: &[&'a ast::Expr], op: Instruction<'a>) -> Result<(), CompileError<'a>> {
         for value in values {
             self.append_expr(value, entity)?;
@@ -1497,6 +1516,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         Ok(())
     }
     fn append_expr(&mut self, expr: &'a ast::Expr, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let enclosing = self.begin_block(&expr.info);
         match &expr.kind {
             ast::ExprKind::Value(v) => self.append_value(v, entity)?,
             ast::ExprKind::Variable { var } => self.ins.push(Instruction::PushVariable { var: &var.trans_name }.into()),
@@ -1862,13 +1882,12 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedExpr { kind }),
         }
 
-        if let Some(location) = expr.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_block(&expr.info, enclosing);
 
         Ok(())
     }
     fn append_stmt(&mut self, stmt: &'a ast::Stmt, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let enclosing = self.begin_block(&stmt.info);
         match &stmt.kind {
             ast::StmtKind::Assign { var, value } => self.append_simple_ins(entity, &[value], Instruction::Assign { var: &var.trans_name })?,
             ast::StmtKind::AddAssign { var, value } => self.append_simple_ins(entity, &[value], Instruction::BinaryOpAssign { var: &var.trans_name, op: BinaryOp::Add })?,
@@ -2248,9 +2267,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedStmt { kind }),
         }
 
-        if let Some(location) = stmt.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_block(&stmt.info, enclosing);
 
         Ok(())
     }
@@ -2444,7 +2461,9 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             for func in entity.1.funcs.iter_mut() { func.1 = final_ins_pos[func.1]; }
             for script in entity.1.scripts.iter_mut() { script.1 = final_ins_pos[script.1]; }
         }
-        let locations = Locations::condense(&self.ins_locations.iter().map(|(p, v)| (final_ins_pos[*p], *v)).collect())?;
+        let mut locations = Locations::condense(&self.ins_locations.iter().filter_map(|(p, v)| v.map(|v| (final_ins_pos[*p], v))).collect())?;
+        locations.locs.extend(self.ins_locations.iter().filter(|x| x.1.is_none()).map(|x| (final_ins_pos[*x.0], NO_LOCATION)));
+        locations.locs.sort_unstable();
 
         Ok((ByteCode { tag: Default::default(), code: code.into_boxed_slice(), data: data.into_boxed_slice() }, ScriptInfo { funcs, entities }, locations))
     }
@@ -2465,6 +2484,7 @@ impl ByteCode {
             call_holes: Default::default(),
             closure_holes: Default::default(),
             ins_locations: Default::default(),
+            current_location: None,
             string_arena: &string_arena,
         };
 
-- 
2.43.0


From b462bc8436d0527e42b564053b74c2a432ba25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 13/22] fix: compiled programs could not be deserialised from
 JSON or from formats that do not describe themselves

---
 src/bytecode.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 09b90aa..a593dc9 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -12,9 +12,8 @@ use core::fmt::Write as _;
 use core::mem;
 
 #[cfg(feature = "serde")]
-use serde::{Serialize, Deserialize};
+use serde::{Serialize, Deserialize, Serializer, Deserializer, de::Error as _};
 
-use monostate::MustBeU128;
 use num_traits::FromPrimitive;
 use bin_pool::BinPool;
 
@@ -35,6 +34,32 @@ const MAX_U64_ENCODED_BYTES: usize = 10;
 /// Max number of shrinking cycles to apply to variable width encoded values in an output binary
 const SHRINK_CYCLES: usize = 3;
 
+/// Ties a serialized artifact to the version of the vm which produced it.
+/// 
+/// This is stored as two 64-bit halves because a number of common formats cannot represent 128-bit integers
+/// or do not support deserializing values of an unspecified type.
+#[derive(Debug, Default)]
+struct Fingerprint;
+impl Fingerprint {
+    #[cfg_attr(not(feature = "serde"), allow(dead_code))]
+    const VALUE: [u64; 2] = [(FINGERPRINT >> 64) as u64, FINGERPRINT as u64];
+}
+#[cfg(feature = "serde")]
+impl Serialize for Fingerprint {
+    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        Self::VALUE.serialize(serializer)
+    }
+}
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for Fingerprint {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        match <[u64; 2]>::deserialize(deserializer)? {
+            Self::VALUE => Ok(Self),
+            _ => Err(D::Error::custom("produced by a different version of the vm")),
+        }
+    }
+}
+
 /// A NetsBlox project compile error generated by [`ByteCode::compile`].
 #[derive(Debug)]
 pub enum CompileError<'a> {
@@ -1127,7 +1152,7 @@ impl BinaryWrite for Instruction<'_> {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ByteCode {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     pub(crate) code: Box<[u8]>,
     pub(crate) data: Box<[u8]>,
@@ -1171,7 +1196,7 @@ pub(crate) struct EntityInitInfo {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct InitInfo {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     pub(crate) proj_name: CompactString,
     pub(crate) ref_values: Vec<RefValue>,
@@ -1244,7 +1269,7 @@ fn test_locations_tokenizer() {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct Locations {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     prefix: CompactString,
     separator: CompactString,
-- 
2.43.0


From 4e4b6a28109ce83b7c91064883a34d4bee342462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 14/22] fix: random numbers between ends beyond 64 bits were
 out of range or panicked

---
 src/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 23c3f15..d2b3233 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1859,11 +1859,14 @@ mod ops {
             BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
-                let res = if a == libm::round(a) && b == libm::round(b) {
+                let integral = a == libm::round(a) && b == libm::round(b);
+                let res = if integral && a >= i64::MIN as f64 && b < i64::MAX as f64 {
                     let (a, b) = (a as i64, b as i64);
                     system.rand(a..=b) as f64
                 } else {
-                    system.rand(a..=b)
+                    // the distance between the ends may itself be too large for a number
+                    let res = if (b - a).is_finite() { system.rand(a..=b) } else { system.rand(a / 2.0..=b / 2.0) * 2.0 };
+                    if integral { libm::round(res) } else { res }
                 };
                 Ok(Number::new(res)?.into())
             }),
-- 
2.43.0


From 04de93b06abfd82c5e079d303f5bc049cfa29ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 15/22] fix: locations with tokens far apart overflowed

---
 src/bytecode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index a593dc9..10c9c54 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1359,7 +1359,11 @@ impl Locations {
         for (pos, toks) in value_map {
             locs.push((pos, value_data.len()));
             for tok in toks {
-                encode_u64((tok - base_token + 1) as u64, &mut value_data, None);
+                let v = match u64::try_from(tok as i128 - base_token as i128 + 1) {
+                    Ok(x) => x,
+                    Err(_) => return Err(CompileError::InvalidLocation { loc: orig_locs[&pos] }),
+                };
+                encode_u64(v, &mut value_data, None);
             }
             encode_u64(0, &mut value_data, None); // null terminator
         }
@@ -1405,7 +1409,7 @@ impl Locations {
                 res.push_str(&self.separator);
             }
             first = false;
-            write!(res, "{}", v as isize - 1 + self.base_token).unwrap();
+            write!(res, "{}", (v as isize).wrapping_sub(1).wrapping_add(self.base_token)).unwrap();
         }
         res.push_str(&self.suffix);
         Some(res)
-- 
2.43.0


From a76c5f5cc549636befe4e0795bf4f12cb0c6b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 16/22] fix: combinations of long lists with an empty list
 overflowed

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index d2b3233..e0c2be6 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1655,7 +1655,7 @@ mod ops {
         Ok(Gc::new(mc, RefLock::new(res)).into())
     }
     pub(super) fn cartesian_product<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) -> VecDeque<Value<'gc, C, S>> {
-        if sources.is_empty() { return Default::default() }
+        if sources.is_empty() || sources.iter().any(|x| x.borrow().is_empty()) { return Default::default() }
 
         fn cartesian_product_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, res: &mut VecDeque<Value<'gc, C, S>>, partial: &mut VecDeque<Value<'gc, C, S>>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) {
             match sources {
-- 
2.43.0


From c3e0da65ffa631458853203ce8e3123757fa2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:20 +0000
Subject: [PATCH 17/22] fix: leave out every omitted element of an upload (the
 collection is live, every second one stayed)

---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index e5172e2..65a135a 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -25,7 +25,7 @@
 
         xml = new DOMParser().parseFromString(xml, 'text/xml');
         for (const elem of omittedElements) {{
-            for (const match of xml.getElementsByTagName(elem)) {{
+            for (const match of [...xml.getElementsByTagName(elem)]) {{
                 match.remove();
             }}
         }}
-- 
2.43.0


From c34b0ad36a8740d28764c0ef9c1bc20126a09755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:20 +0000
Subject: [PATCH 18/22] fix: show errors in projects with a custom block
 without definition

---
 src/assets/extension.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index 65a135a..54597e7 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -198,11 +198,11 @@
 
                             walk(world);
                             for (const block of ide.stage.globalBlocks) {{
-                                walk(block.body.expression);
+                                if (block.body) walk(block.body.expression);
                             }}
                             for (const entity of [ide.stage, ...ide.sprites.contents]) {{
                                 for (const block of entity.customBlocks) {{
-                                    walk(block.body.expression);
+                                    if (block.body) walk(block.body.expression);
                                 }}
                             }}
 
-- 
2.43.0


From 3f1167d3d18591c5cac95d9065e6432fb75a74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:20 +0000
Subject: [PATCH 19/22] fix: show the remaining errors when a block of a trace
 is gone

---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index 54597e7..f2de7c9 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -234,7 +234,7 @@
                                 for (const entry of error.trace) {{
                                     const locals = formatVars(entry.locals);
                                     const blocks = lookup[entry.location];
-                                    if (blocks !== null) {{
+                                    if (blocks) {{
                                         for (const block of blocks) {{
                                             const vars = [locals, fields, globals].filter(x => x.length).join('\n\n');
                                             let content = error.cause;
-- 
2.43.0


From ecee25a2f35149a381b9dd350a851a4a614bcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:20 +0000
Subject: [PATCH 20/22] fix: keep the comments of an error whose trace passes a
 block again

---
 src/assets/extension.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index f2de7c9..40c663d 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -242,7 +242,8 @@
 
                                             const comment = errorComment(new CommentMorph(content));
 
-                                            if (block.comment) block.comment.destroy();
+                                            if (commentFamily.includes(block.comment)) CommentMorph.prototype.destroy.apply(block.comment);
+                                            else if (block.comment) block.comment.destroy();
 
                                             block.comment = comment;
                                             comment.block = block;
-- 
2.43.0


From 4b5c4ee17f4a79add324638a77c258c4cbf98b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 21/22] fix: a stop on the terminal also withdraws the
 questions of the stopped scripts

---
 src/cli.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 61e4f76..cdd33d8 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -245,7 +245,14 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
             match event::read().unwrap() {
                 Event::Key(key) => match key.code {
                     RawKeyCode::Char('c') if key.modifiers == RawKeyModifiers::CONTROL => break 'program,
-                    RawKeyCode::Esc => input_sequence.push(Input::Stop),
+                    RawKeyCode::Esc => {
+                        input_sequence.push(Input::Stop);
+
+                        // everything that was waiting for an answer is stopped as well
+                        input_queries.borrow_mut().clear();
+                        input_value.clear();
+                        update_flag.set(true);
+                    }
                     RawKeyCode::Char(ch) => match in_input_mode() {
                         true => { input_value.push(ch); update_flag.set(true); }
                         false => input_sequence.push(Input::KeyDown { key: KeyCode::Char(ch.to_ascii_lowercase()) }),
-- 
2.43.0


From 71d2bacc84026e84d6c31249d05d2a3500fb31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 22/22] fix: closing a file reports data that could not be
 written instead of dropping it

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf5e240..e49f868 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -154,7 +154,12 @@ fn main() {
                             Value::Native(x) => {
                                 match &**x {
                                     NativeValue::InputFile { handle } => *handle.borrow_mut() = None,
-                                    NativeValue::OutputFile { handle } => *handle.borrow_mut() = None,
+                                    NativeValue::OutputFile { handle } => if let Some(mut handle) = handle.borrow_mut().take() {
+                                        if let Err(e) = handle.flush() {
+                                            key.complete(Err(format_compact!("syscall close - write error: {e:?}")));
+                                            return RequestStatus::Handled;
+                                        }
+                                    }
                                 }
                                 key.complete(Ok(SimpleValue::Text("OK".into()).into()));
                                 RequestStatus::Handled
-- 
2.43.0

