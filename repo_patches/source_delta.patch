From 04650556249ed968b549ae475254a1e57f9abbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:15 +0000
Subject: [PATCH 01/59] fix: int multiple_of no longer panics for i64::MIN % -1
 or a zero divisor

---
 src/input/return_enums.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 6ac3824..12e534f 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -706,8 +706,13 @@ impl Rem for &Int {
     type Output = Int;
 
     fn rem(self, rhs: Self) -> Self::Output {
+        // only zero is a multiple of zero, a zero divisor must not panic
+        if *rhs == Int::I64(0) {
+            return self.clone();
+        }
         match (self, rhs) {
-            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1 % i2),
+            // `i64::MIN % -1` overflows, the remainder is 0
+            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1.wrapping_rem(*i2)),
             (Int::Big(b1), Int::Big(b2)) => Int::Big(b1 % b2),
             (Int::I64(i), Int::Big(b)) => Int::Big(BigInt::from(*i) % b),
             (Int::Big(b), Int::I64(i)) => Int::Big(b % BigInt::from(*i)),
-- 
2.43.0


From 234a16878d81085a6e8a4757a8caceaeaec42abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:33 +0000
Subject: [PATCH 02/59] fix: tuple tail items are reported under their own
 index

---
 src/validators/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..7d4a878 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -170,7 +170,7 @@ impl TupleValidator {
 
                 // Iterate over all remaining collection items, validating as items "leave" the buffer
                 for (buffer_item_index, input_item) in collection_iter {
-                    index = buffer_item_index;
+                    index = buffer_item_index + 1;
                     // This `unwrap` is safe because you can only get here
                     // if there were at least `n_tail_validators` (> 0) items in the iterator
                     let buffered_item = tail_buffer.pop_front().unwrap();
-- 
2.43.0


From 7bce05d6a836035cdccc59adc5e9ed2e1501dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:33 +0000
Subject: [PATCH 03/59] fix: an iteration error in a tuple input is reported at
 the index it occurred

---
 src/validators/tuple.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 7d4a878..8d3fbda 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -348,9 +348,11 @@ where
                         if iteration_error.is_some() {
                             return None;
                         }
-                        index += 1;
                         match iterator.next() {
-                            Some(Ok(item)) => Some(item),
+                            Some(Ok(item)) => {
+                                index += 1;
+                                Some(item)
+                            }
                             Some(Err(e)) => {
                                 *iteration_error = Some(ValError::new_with_loc(
                                     ErrorType::IterationError {
-- 
2.43.0


From 5081dd2c7b75086ddf06c0cdf535d08f32b5935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:33 +0000
Subject: [PATCH 04/59] fix: a fail-fast tuple with min_length reports only the
 first failure

---
 src/validators/tuple.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 8d3fbda..85f1b84 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -290,6 +290,10 @@ impl Validator for TupleValidator {
             state,
         })??;
 
+        if self.fail_fast && !errors.is_empty() {
+            return Err(ValError::LineErrors(errors));
+        }
+
         if let Some(min_length) = self.min_length {
             let actual_length = output.len();
             if actual_length < min_length {
-- 
2.43.0


From 0454edd464035b22a705219ac8ce4f0c2510f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 05/59] fix: a generator schema without items_schema enforces
 max_length

---
 src/validators/generator.rs | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..89e75e0 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -124,36 +124,36 @@ impl ValidatorIterator {
         macro_rules! next {
             ($iter:ident) => {
                 match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
-                                    let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
-                                            field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
-                                            context: None,
-                                        },
-                                        $iter.input_as_error_value(py),
-                                    );
-                                    return Err(ValidationError::from_val_error(
-                                        py,
-                                        "ValidatorIterator".into_pyobject(py)?.into(),
-                                        InputType::Python,
-                                        val_error,
-                                        None,
-                                        hide_input_in_errors,
-                                        validation_error_cause,
-                                    ));
-                                }
+                    Some((next, index)) => {
+                        if let Some(max_length) = max_length {
+                            if index >= max_length {
+                                let val_error = ValError::new_custom_input(
+                                    ErrorType::TooLong {
+                                        field_type: "Generator".to_string(),
+                                        max_length,
+                                        actual_length: None,
+                                        context: None,
+                                    },
+                                    $iter.input_as_error_value(py),
+                                );
+                                return Err(ValidationError::from_val_error(
+                                    py,
+                                    "ValidatorIterator".into_pyobject(py)?.into(),
+                                    InputType::Python,
+                                    val_error,
+                                    None,
+                                    hide_input_in_errors,
+                                    validation_error_cause,
+                                ));
                             }
-                            validator
+                        }
+                        match validator {
+                            Some(validator) => validator
                                 .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                                .map(Some),
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
+                    }
                     None => {
                         if let Some(min_length) = min_length {
                             if $iter.index() < min_length {
-- 
2.43.0


From 5a5da988300f973383109ee2f50cbd13f4e4c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:37 +0000
Subject: [PATCH 06/59] fix: smart union restores the validation state when a
 member asks to omit or use the default

---
 src/validators/union.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..3de5a41 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -161,7 +161,12 @@ impl UnionValidator {
                         errors.push(choice, label.as_deref(), lines);
                     }
                 }
-                otherwise => return otherwise,
+                otherwise => {
+                    // not this union's decision (e.g. omit or use default): as above, restore the previous state
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    return otherwise;
+                }
             }
         }
 
-- 
2.43.0


From 1684c9ce6974c9514366373ca399b33f36b38e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:37 +0000
Subject: [PATCH 07/59] fix: a failed left-to-right union attempt does not
 lower the exactness of the next one

---
 src/validators/union.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validators/union.rs b/src/validators/union.rs
index 3de5a41..8bd1fa9 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -192,11 +192,19 @@ impl UnionValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
+        let old_exactness = state.exactness;
+        let old_fields_set_count = state.fields_set_count;
+
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
         for (validator, label) in &self.choices {
             match validator.validate(py, input, state) {
-                Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
+                Err(ValError::LineErrors(lines)) => {
+                    // the attempt failed, it must not influence the exactness of the next one
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    errors.push(validator, label.as_deref(), lines);
+                }
                 otherwise => return otherwise,
             }
         }
-- 
2.43.0


From 677fd4eaed93b9e7f04ef25ecddf6e0a047509ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:36 +0000
Subject: [PATCH 08/59] fix: literals and enums accept listed ints which don't
 fit in an i64

---
 src/validators/literal.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3da5e9d..322c96b 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -114,8 +114,8 @@ impl<T: Debug> LiteralLookup<T> {
         }
         if let Some(expected_ints) = &self.expected_int {
             if let Ok(either_int) = input.exact_int() {
-                let int = either_int.into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
+                // an int which doesn't fit in an i64 can't be in `expected_int`, but may be found below
+                if let Some(id) = either_int.into_i64(py).ok().and_then(|int| expected_ints.get(&int)) {
                     return Ok(Some((input, &self.values[*id])));
                 }
             }
@@ -190,12 +190,18 @@ impl<T: Debug> LiteralLookup<T> {
         input: &'a I,
         strict: bool,
     ) -> ValResult<Option<&T>> {
-        if let Some(expected_ints) = &self.expected_int {
-            if let Ok(either_int) = input.validate_int(strict) {
-                let int = either_int.into_inner().into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
+        if let Ok(either_int) = input.validate_int(strict) {
+            let int = either_int.into_inner().into_pyobject(py)?;
+            if let Ok(int_64) = int.extract::<i64>() {
+                if let Some(id) = self.expected_int.as_ref().and_then(|ints| ints.get(&int_64)) {
                     return Ok(Some(&self.values[*id]));
                 }
+            } else if let Some(expected_py_dict) = &self.expected_py_dict {
+                // ints which don't fit in an i64 are in `expected_py_dict`
+                if let Ok(Some(v)) = expected_py_dict.bind(py).get_item(int) {
+                    let id: usize = v.extract().unwrap();
+                    return Ok(Some(&self.values[id]));
+                }
             }
         }
         Ok(None)
-- 
2.43.0


From 6457038c268f41ba895834e3fd836c49d0a7ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:36 +0000
Subject: [PATCH 09/59] fix: a non-python input doesn't match the enum member
 with value None

---
 src/validators/enum_.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..9147eda 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -122,7 +122,10 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 
         if let Some(v) = T::validate_value(py, input, &self.lookup, strict)? {
             return Ok(v);
-        } else if let Ok(res) = class.as_unbound().call1(py, (input.as_python(),)) {
+        } else if let Some(Ok(res)) = input
+            .as_python()
+            .map(|py_input| class.as_unbound().call1(py, (py_input,)))
+        {
             return Ok(res);
         } else if let Some(ref missing) = self.missing {
             let enum_value = missing.bind(py).call1((input.to_object(py)?,)).map_err(|_| {
-- 
2.43.0


From 26438c161994d91bd451d21d8c3d742eebb12102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 10/59] fix: PydanticUndefined as input of a default schema
 without default doesn't panic

---
 src/validators/with_default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..a5d01d6 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -157,7 +157,7 @@ impl Validator for WithDefaultValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
+        if self.has_default() && input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
             Ok(self.default_value(py, None::<usize>, state)?.unwrap())
         } else {
             match self.validator.validate(py, input, state) {
-- 
2.43.0


From 2f461b7a6ae63e361cb3710fee2cc24d0bdcb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 11/59] fix: validating an invalid default with
 on_error='default' doesn't recurse forever

---
 src/validators/with_default.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index a5d01d6..5e96b83 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -189,9 +189,14 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // not `self.validate`, a default which is invalid itself can't be replaced by the default
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
                         Err(e) => {
+                            let e = match self.on_error {
+                                OnError::Omit if !matches!(e, ValError::UseDefault) => ValError::Omit,
+                                _ => e,
+                            };
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
                             } else {
-- 
2.43.0


From a9cb04e8ca0a9793e11ab1cfe6b206ad87710faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 12/59] fix: typed dict silently dropped a field whose value
 could not be read

An error from reading a field (validate_strings with a value that is neither a
string nor a dict) was only kept for the last key in partial mode, so a
required field was dropped without an error.
---
 src/validators/typed_dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index eb4394e..58f71e6 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -193,7 +193,7 @@ impl Validator for TypedDictValidator {
                     Ok(v) => v,
                     Err(ValError::LineErrors(line_errors)) => {
                         let field_loc: LocItem = field.name.clone().into();
-                        if partial_last_key.as_ref() == Some(&field_loc) {
+                        if partial_last_key.as_ref() != Some(&field_loc) || field.required {
                             for err in line_errors {
                                 errors.push(err.with_outer_location(field_loc.clone()));
                             }
-- 
2.43.0


From 6ff1b1096702b03c92815dae09e068654f728f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 13/59] fix: assigning to a dataclass field keeps attributes of
 the instance that are not fields

---
 src/validators/dataclass.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..e5ef7a9 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -608,7 +608,13 @@ impl Validator for DataclassValidator {
                 .ok_or_else(|| PyKeyError::new_err(field_name.to_string()))?;
             force_setattr(py, obj, field_name, value)?;
         } else {
-            force_setattr(py, obj, intern!(py, "__dict__"), dc_dict)?;
+            // attributes of the instance which are not fields must survive the assignment
+            let instance_dict = obj
+                .getattr(intern!(py, "__dict__"))?
+                .downcast_into::<PyDict>()?
+                .copy()?;
+            instance_dict.update(dc_dict.as_mapping())?;
+            force_setattr(py, obj, intern!(py, "__dict__"), instance_dict)?;
         }
 
         Ok(obj.clone().unbind())
-- 
2.43.0


From 3b2b9f0e301b6118d6b20d7f7dea39801a6fa88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 14/59] fix: assigning to the root of a root model marks it as
 set

---
 src/validators/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index f2c3658..4387c67 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -206,6 +206,9 @@ impl Validator for ModelValidator {
                 let output = self.validator.validate(py, field_value, state)?;
 
                 force_setattr(py, model, intern!(py, ROOT_FIELD), output)?;
+                if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
+                    fields_set.downcast::<PySet>()?.add(intern!(py, ROOT_FIELD))?;
+                }
                 Ok(model.into_py_any(py)?)
             };
         }
-- 
2.43.0


From d2ea48a597815d71346fe49811cbf76513f9a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 15/59] fix: an extra with the name of a field no longer
 replaces the field on assignment

---
 src/validators/model.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index 4387c67..18dfe23 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -215,8 +215,16 @@ impl Validator for ModelValidator {
         let old_dict = model.getattr(intern!(py, DUNDER_DICT))?.downcast_into::<PyDict>()?;
 
         let input_dict = old_dict.copy()?;
+        // an extra may have the name of a field (populated by its alias), it must not replace the value of that field
+        let shadowed_extra = PyDict::new(py);
         if let Ok(old_extra) = model.getattr(intern!(py, DUNDER_MODEL_EXTRA_KEY))?.downcast::<PyDict>() {
-            input_dict.update(old_extra.as_mapping())?;
+            for (key, value) in old_extra.iter() {
+                if old_dict.contains(&key)? {
+                    shadowed_extra.set_item(key, value)?;
+                } else {
+                    input_dict.set_item(key, value)?;
+                }
+            }
         }
         input_dict.set_item(field_name, field_value)?;
 
@@ -230,6 +238,10 @@ impl Validator for ModelValidator {
             Bound<'_, PySet>,
         ) = output.extract(py)?;
 
+        if let Ok(validated_extra) = validated_extra.downcast::<PyDict>() {
+            validated_extra.update(shadowed_extra.as_mapping())?;
+        }
+
         if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
             let fields_set = fields_set.downcast::<PySet>()?;
             for field_name in validated_fields_set {
-- 
2.43.0


From 1e9ef7265f716574dcba0e88265656857f20446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 16/59] fix: release the recursion guard entry when the depth
 limit is hit

The object stayed in the guard although it was not being validated any more,
validating it again later in the same validation was reported as a cycle.
---
 src/recursion_guard.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..cb4c8e4 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // no guard is returned to do this
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
@@ -101,10 +103,12 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        if self.depth >= RECURSION_GUARD_LIMIT {
+            true
+        } else {
+            self.depth += 1;
+            false
+        }
     }
 
     #[must_use]
-- 
2.43.0


From 8d4ced6fc7f8f00bace89beebbc5583cec9d7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 17/59] fix: do not keep ids of finished validations in
 generators

Items of a generator are validated when the objects containing the generator may
be gone, a new item at the address of such an object was reported as a cycle.
---
 src/recursion_guard.rs      | 9 +++++++++
 src/validators/generator.rs | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index cb4c8e4..8d153ec 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -124,6 +124,15 @@ impl RecursionState {
         }
     }
 
+    /// State for a validation which carries on after the current one has finished: the objects which are being
+    /// validated now may be gone by then, and their ids in use by other objects, so only the depth is kept
+    pub fn detached(&self) -> Self {
+        Self {
+            ids: RecursionStack::default(),
+            depth: self.depth,
+        }
+    }
+
     pub fn decr_depth(&mut self) {
         // for the same reason as incr_depth, use saturating_sub
         self.depth = self.depth.saturating_sub(1);
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 89e75e0..1a8b581 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -71,13 +71,16 @@ impl Validator for GeneratorValidator {
 
         let iterator = input.validate_iter()?.into_static();
         let validator = self.item_validator.as_ref().map(|v| {
-            InternalValidator::new(
+            let mut validator = InternalValidator::new(
                 "ValidatorIterator",
                 v.clone(),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
-            )
+            );
+            // the items are validated later
+            validator.recursion_guard = state.recursion_guard.detached();
+            validator
         });
 
         let v_iterator = ValidatorIterator {
-- 
2.43.0


From 725d96211be329474c61fd8ab0ab8f8f2f1c777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 18/59] fix: filter indices outside the range of a sequence
 match no item

---
 src/serializers/filter.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..339e866 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -16,21 +16,15 @@ pub(crate) struct SchemaFilter<T> {
 }
 
 fn map_negative_index<'py>(value: &Bound<'py, PyAny>, len: Option<usize>) -> PyResult<Bound<'py, PyAny>> {
-    let py = value.py();
+    if !value.lt(0).unwrap_or(false) {
+        return Ok(value.clone());
+    }
     match len {
-        Some(len) => Ok(value
-            .call_method1(intern!(py, "__mod__"), (len,))
-            .unwrap_or_else(|_| value.clone())),
-        None => {
-            // check that it's not negative
-            if value.lt(0).unwrap_or(false) {
-                Err(PyValueError::new_err(
-                    "Negative indices cannot be used to exclude items on unsized iterables",
-                ))
-            } else {
-                Ok(value.clone())
-            }
-        }
+        // an index before the first item stays negative, so it doesn't match any item
+        Some(len) => value.add(len),
+        None => Err(PyValueError::new_err(
+            "Negative indices cannot be used to exclude items on unsized iterables",
+        )),
     }
 }
 
-- 
2.43.0


From 7c920bc17c3a6e3229383083365102844816fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 19/59] fix: a nested exclude no longer brings back items the
 schema filter drops

---
 src/serializers/filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 339e866..e80a1ac 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -219,10 +219,8 @@ trait FilterLogic<T: Eq + Copy> {
             }
         }
 
-        if next_exclude.is_some() {
+        if self.default_filter(int_key) {
             Ok(Some((None, next_exclude)))
-        } else if self.default_filter(int_key) {
-            Ok(Some((None, None)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From ef20744a58d8920874a8dc9623619e2e26fc9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 20/59] fix: include no longer makes a union reject the
 matching model

---
 src/serializers/fields.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..9eeee01 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -212,7 +212,11 @@ impl GeneralFieldsSerializer {
 
         if extra.check.enabled()
             // If any of these are true we can't count fields
-            && !(extra.exclude_defaults || extra.exclude_unset || extra.exclude_none || exclude.is_some())
+            && !(extra.exclude_defaults
+                || extra.exclude_unset
+                || extra.exclude_none
+                || include.is_some()
+                || exclude.is_some())
             // Check for missing fields, we can't have extra fields here
             && self.required_fields > used_req_fields
         {
-- 
2.43.0


From 46397e6a624ef49abf52a6796eae1905f065718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 21/59] fix: to_json serializes extras with the extras schema

---
 src/serializers/fields.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 9eeee01..e49a9c7 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -275,8 +275,17 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    let (include, exclude) = (next_include.as_ref(), next_exclude.as_ref());
+                    match &self.extra_serializer {
+                        Some(serializer) => {
+                            let s = PydanticSerializer::new(&value, serializer, include, exclude, &field_extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                        None => {
+                            let s = SerializeInfer::new(&value, include, exclude, &field_extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                    }
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -448,8 +457,17 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    let (include, exclude) = (next_include.as_ref(), next_exclude.as_ref());
+                    match &self.extra_serializer {
+                        Some(serializer) => {
+                            let s = PydanticSerializer::new(&value, serializer, include, exclude, extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                        None => {
+                            let s = SerializeInfer::new(&value, include, exclude, extra);
+                            map.serialize_entry(&output_key, &s)?;
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 5f60787fe7f647c07465137bfef5c3f0ef35307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 22/59] fix: exclude_none tests the value of a computed field
 in to_python, as to_json does

---
 src/serializers/computed_fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 6e6786d..8f70d69 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -158,13 +158,13 @@ impl ComputedField {
 
         if let Some((next_include, next_exclude)) = filter.key_filter(property_name_py, include, exclude)? {
             let next_value = model.getattr(property_name_py)?;
+            if extra.exclude_none && next_value.is_none() {
+                return Ok(());
+            }
 
             let value = self
                 .serializer
                 .to_python(&next_value, next_include.as_ref(), next_exclude.as_ref(), extra)?;
-            if extra.exclude_none && value.is_none(py) {
-                return Ok(());
-            }
             let key = match extra.serialize_by_alias_or(self.serialize_by_alias) {
                 true => self.alias_py.bind(py),
                 false => property_name_py,
-- 
2.43.0


From dea34797eb26c9d05c9b9a23701f8e8d320f7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 23/59] fix: serialize a typed dict with its own config

---
 src/serializers/type_serializers/typed_dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/typed_dict.rs b/src/serializers/type_serializers/typed_dict.rs
index d93a885..c7bc01d 100644
--- a/src/serializers/type_serializers/typed_dict.rs
+++ b/src/serializers/type_serializers/typed_dict.rs
@@ -24,6 +24,10 @@ impl BuildSerializer for TypedDictBuilder {
     ) -> PyResult<CombinedSerializer> {
         let py = schema.py();
 
+        // as in validation, the config of the typed dict itself comes first
+        let own_config = schema.get_as(intern!(py, "config"))?;
+        let config = own_config.as_ref().or(config);
+
         let total =
             schema_or_config(schema, config, intern!(py, "total"), intern!(py, "typed_dict_total"))?.unwrap_or(true);
 
-- 
2.43.0


From 2d47685d86f7cde60e54cbe40fac6ff06bea4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 24/59] fix: do not count the fields of a failed strict attempt

---
 src/validators/lax_or_strict.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index bc35465..70d3327 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -68,9 +68,12 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
+                let old_fields_set_count = state.fields_set_count;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
+                // the fields of the failed attempt don't count
+                state.fields_set_count = old_fields_set_count;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
             }
-- 
2.43.0


From 02fca00af28710ecba6b4bb28658cc0e96d8ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 25/59] fix: count the fields set inside a wrap validator

---
 src/validators/function.rs  | 4 +++-
 src/validators/generator.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..ddb0960 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -380,7 +380,9 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        state.exactness = handler.borrow_mut().validator.exactness;
+        let handler = handler.borrow();
+        state.exactness = handler.validator.exactness;
+        state.fields_set_count = handler.validator.fields_set_count;
         result
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 1a8b581..0e832da 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -228,6 +228,7 @@ pub struct InternalValidator {
     self_instance: Option<PyObject>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
+    pub(crate) fields_set_count: Option<usize>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
@@ -259,6 +260,7 @@ impl InternalValidator {
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
+            fields_set_count: state.fields_set_count,
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
@@ -288,6 +290,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self
             .validator
             .validate_assignment(py, model, field_name, field_value, &mut state)
@@ -303,6 +306,7 @@ impl InternalValidator {
                 )
             });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 
@@ -326,6 +330,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -338,6 +343,7 @@ impl InternalValidator {
             )
         });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 }
-- 
2.43.0


From 0db4ef3f7679a208c9bfa1e0897dd17512307c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 26/59] fix: by_alias and by_name apply inside wrap validators
 and generators

---
 src/validators/generator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 0e832da..ca51624 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -233,6 +233,8 @@ pub struct InternalValidator {
     hide_input_in_errors: bool,
     validation_error_cause: bool,
     cache_str: jiter::StringCacheMode,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
 }
 
 impl fmt::Debug for InternalValidator {
@@ -265,6 +267,8 @@ impl InternalValidator {
             hide_input_in_errors,
             validation_error_cause,
             cache_str: extra.cache_str,
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
         }
     }
 
@@ -285,8 +289,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
@@ -325,8 +329,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
-- 
2.43.0


From 7336a6872583ff7a17b902c872d19a990fe365ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 27/59] fix: validators inside a wrap validator or generator
 see the field name

---
 src/validators/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index ca51624..57449c8 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -222,6 +222,7 @@ pub struct InternalValidator {
     validator: Arc<CombinedValidator>,
     // TODO, do we need data?
     data: Option<Py<PyDict>>,
+    field_name: Option<Py<PyString>>,
     strict: Option<bool>,
     from_attributes: Option<bool>,
     context: Option<PyObject>,
@@ -256,6 +257,7 @@ impl InternalValidator {
             name: name.to_string(),
             validator,
             data: extra.data.as_ref().map(|d| d.clone().into()),
+            field_name: extra.field_name.as_ref().map(|f| f.clone().unbind()),
             strict: extra.strict,
             from_attributes: extra.from_attributes,
             context: extra.context.map(|d| d.clone().unbind()),
@@ -325,7 +327,7 @@ impl InternalValidator {
             data: self.data.as_ref().map(|data| data.bind(py).clone()),
             strict: self.strict,
             from_attributes: self.from_attributes,
-            field_name: None,
+            field_name: self.field_name.as_ref().map(|name| name.bind(py).clone()),
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-- 
2.43.0


From 24981ff36ed60e5234371caed3a00361e1ea8cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 28/59] fix: a custom error replaces validation errors only

---
 src/validators/custom_error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 6759f77..e235ca6 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -96,7 +96,11 @@ impl Validator for CustomErrorValidator {
     ) -> ValResult<PyObject> {
         self.validator
             .validate(py, input, state)
-            .map_err(|_| self.custom_error.as_val_error(input))
+            .map_err(|err| match err {
+                ValError::LineErrors(_) => self.custom_error.as_val_error(input),
+                // not a validation error (e.g. an exception raised by a function), nothing to replace
+                err => err,
+            })
     }
 
     fn get_name(&self) -> &str {
-- 
2.43.0


From a928002d95ed082a1823fe0e6d1d57f90e97b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 29/59] fix: a complex schema obeys the strict argument of the
 call

---
 src/validators/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/complex.rs b/src/validators/complex.rs
index 98ffc7d..a0341a1 100644
--- a/src/validators/complex.rs
+++ b/src/validators/complex.rs
@@ -45,7 +45,7 @@ impl Validator for ComplexValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        let res = input.validate_complex(self.strict, py)?.unpack(state);
+        let res = input.validate_complex(state.strict_or(self.strict), py)?.unpack(state);
         Ok(res.into_pyobject(py)?.into())
     }
 
-- 
2.43.0


From 57f1b59530cc10d0fb5d408fc67096276e9cc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 30/59] fix: ints beyond 64 bits are valid complex input

---
 src/input/input_json.rs   | 4 ++++
 src/input/input_python.rs | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/input/input_json.rs b/src/input/input_json.rs
index 6828f59..1586362 100644
--- a/src/input/input_json.rs
+++ b/src/input/input_json.rs
@@ -363,6 +363,10 @@ impl<'py, 'data> Input<'py> for JsonValue<'data> {
                     Err(ValError::new(ErrorTypeDefaults::ComplexStrParsing, self))
                 }
             }
+            JsonValue::BigInt(b) if !strict => match b.to_f64() {
+                Some(real) if real.is_finite() => Ok(ValidationMatch::lax(EitherComplex::Complex([real, 0.0]))),
+                _ => Err(ValError::new(ErrorTypeDefaults::ComplexType, self)),
+            },
             _ => Err(ValError::new(ErrorTypeDefaults::ComplexType, self)),
         }
     }
diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..71157bb 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -657,10 +657,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 0.0,
             ])));
         } else if self.is_exact_instance_of::<PyInt>() {
-            return Ok(ValidationMatch::lax(EitherComplex::Complex([
-                self.extract::<i64>().unwrap() as f64,
-                0.0,
-            ])));
+            // an int beyond the range of a float has no complex value
+            if let Ok(real) = self.extract::<f64>() {
+                return Ok(ValidationMatch::lax(EitherComplex::Complex([real, 0.0])));
+            }
         }
         Err(ValError::new(ErrorTypeDefaults::ComplexType, self))
     }
-- 
2.43.0


From c168e3bc4d92c4b5b4b27b64294b9933dd2c6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:42 +0000
Subject: [PATCH 31/59] fix: reject durations that a timedelta cannot hold

---
 src/input/datetime.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index e1b3b37..9e9a78d 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -181,6 +181,7 @@ pub fn pytimedelta_subclass_as_duration(py_timedelta: &Bound<'_, PyDelta>) -> Py
     let days = (total_seconds / 86400f64) as u32;
     let seconds = total_seconds as u64 % 86400;
     Duration::new(positive, days, seconds as u32, microsecond.round() as u32)
+        .and_then(check_timedelta_range)
         .map_err(|err| PyValueError::new_err(err.to_string()))
 }
 
@@ -502,6 +503,15 @@ fn map_timedelta_err(input: impl ToErrorValue, err: ParseError) -> ValError {
     )
 }
 
+/// `timedelta.min` is exactly -999999999 days, while a negative `Duration` can be almost one day below that
+fn check_timedelta_range(duration: Duration) -> Result<Duration, ParseError> {
+    if !duration.positive && duration.day == 999_999_999 && (duration.second != 0 || duration.microsecond != 0) {
+        Err(ParseError::DurationDaysTooLarge)
+    } else {
+        Ok(duration)
+    }
+}
+
 pub fn bytes_as_timedelta<'py>(
     input: &(impl Input<'py> + ?Sized),
     bytes: &[u8],
@@ -513,7 +523,9 @@ pub fn bytes_as_timedelta<'py>(
             microseconds_precision_overflow_behavior: microseconds_overflow_behavior,
             unix_timestamp_offset: Some(0),
         },
-    ) {
+    )
+    .and_then(check_timedelta_range)
+    {
         Ok(dt) => Ok(dt.into()),
         Err(err) => Err(map_timedelta_err(input, err)),
     }
@@ -522,10 +534,12 @@ pub fn bytes_as_timedelta<'py>(
 pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResult<Duration> {
     let positive = total_seconds >= 0;
     let total_seconds = total_seconds.unsigned_abs();
-    // we can safely unwrap here since we've guaranteed seconds and microseconds can't cause overflow
-    let days = (total_seconds / 86400) as u32;
     let seconds = (total_seconds % 86400) as u32;
-    Duration::new(positive, days, seconds, 0).map_err(|err| map_timedelta_err(input, err))
+    u32::try_from(total_seconds / 86400)
+        .map_err(|_| ParseError::DurationDaysTooLarge)
+        .and_then(|days| Duration::new(positive, days, seconds, 0))
+        .and_then(check_timedelta_range)
+        .map_err(|err| map_timedelta_err(input, err))
 }
 
 pub fn float_as_duration(input: impl ToErrorValue, total_seconds: f64) -> ValResult<Duration> {
@@ -536,6 +550,7 @@ pub fn float_as_duration(input: impl ToErrorValue, total_seconds: f64) -> ValRes
     let days = (total_seconds / 86400f64) as u32;
     let seconds = total_seconds as u64 % 86400;
     Duration::new(positive, days, seconds as u32, microsecond.round() as u32)
+        .and_then(check_timedelta_range)
         .map_err(|err| map_timedelta_err(input, err))
 }
 
-- 
2.43.0


From 17a8e0ee13928e2504deecdcf45b30bf8dafd559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 32/59] fix: a TzInfo hashes like the timezone it equals

---
 src/input/datetime.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 9e9a78d..d2f6aee 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -9,10 +9,7 @@ use pyo3::IntoPyObjectExt;
 use speedate::MicrosecondsPrecisionOverflowBehavior;
 use speedate::{Date, DateTime, Duration, ParseError, Time, TimeConfig};
 use std::borrow::Cow;
-use std::collections::hash_map::DefaultHasher;
 use std::fmt::Write;
-use std::hash::Hash;
-use std::hash::Hasher;
 
 use strum::EnumMessage;
 
@@ -612,10 +609,9 @@ impl TzInfo {
         result
     }
 
-    fn __hash__(&self) -> u64 {
-        let mut hasher = DefaultHasher::new();
-        self.seconds.hash(&mut hasher);
-        hasher.finish()
+    fn __hash__(&self, py: Python<'_>) -> PyResult<isize> {
+        // equal to the hash of the `datetime.timezone` of the same offset, which compares equal
+        PyDelta::new(py, 0, self.seconds, 0, true)?.hash()
     }
 
     fn __richcmp__(&self, other: &Bound<'_, PyAny>, op: CompareOp) -> PyResult<Py<PyAny>> {
-- 
2.43.0


From 422d1ca7a2718fba70baf9128e781b994e3c81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 33/59] fix: a lazily serialized generator does not take its
 items for the objects that enclosed it

---
 src/serializers/extra.rs                      | 17 +++++++++++++++++
 src/serializers/type_serializers/generator.rs |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 82c4323..d5922cd 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -269,6 +269,14 @@ impl ExtraOwned {
         }
     }
 
+    /// for serialization which goes on after the current one has finished
+    pub fn new_detached(extra: &Extra) -> Self {
+        Self {
+            rec_guard: extra.rec_guard.detached(),
+            ..Self::new(extra)
+        }
+    }
+
     pub fn to_extra<'py>(&'py self, py: Python<'py>) -> Extra<'py> {
         Extra {
             mode: &self.mode,
@@ -491,6 +499,15 @@ impl Clone for SerRecursionState {
     }
 }
 
+impl SerRecursionState {
+    /// see `RecursionState::detached`
+    fn detached(&self) -> Self {
+        Self {
+            guard: Mutex::new(self.guard.lock().expect("lock poisoned").detached()),
+        }
+    }
+}
+
 impl ContainsRecursionState for &'_ Extra<'_> {
     fn access_recursion_state<R>(&mut self, f: impl FnOnce(&mut RecursionState) -> R) -> R {
         f(&mut self.rec_guard.guard.lock().expect("lock poisoned"))
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 0e5050c..fd7b280 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -176,7 +176,7 @@ impl SerializationIterator {
             iterator: py_iter.clone().into(),
             index: 0,
             item_serializer: item_serializer.clone(),
-            extra_owned: ExtraOwned::new(extra),
+            extra_owned: ExtraOwned::new_detached(extra),
             filter,
             include: include.map(|v| v.clone().into()),
             exclude: exclude.map(|v| v.clone().into()),
-- 
2.43.0


From bf518177778c273f9dc29eedb9b18ab1945ae064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 34/59] fix: the items of a serialized generator only report
 their own warnings

---
 src/serializers/extra.rs                      | 7 ++++++-
 src/serializers/type_serializers/generator.rs | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index d5922cd..b2b11a3 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -230,7 +230,7 @@ impl SerCheck {
 #[cfg_attr(debug_assertions, derive(Debug))]
 pub(crate) struct ExtraOwned {
     mode: SerMode,
-    warnings: CollectWarnings,
+    pub warnings: CollectWarnings,
     by_alias: Option<bool>,
     exclude_unset: bool,
     exclude_defaults: bool,
@@ -411,6 +411,11 @@ impl CollectWarnings {
         }
     }
 
+    /// a collector of the same mode without any warnings
+    pub(crate) fn fresh(&self) -> Self {
+        Self::new(self.mode)
+    }
+
     pub fn register_warning(&self, warning: PydanticSerializationUnexpectedValue) {
         if self.mode != WarningsMode::None {
             self.warnings.lock().expect("lock poisoned").push(warning);
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index fd7b280..053f851 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -221,7 +221,10 @@ impl SerializationIterator {
         let iterator = self.iterator.bind(py);
         let include = self.include.as_ref().map(|o| o.bind(py));
         let exclude = self.exclude.as_ref().map(|o| o.bind(py));
-        let extra = self.extra_owned.to_extra(py);
+        // each item only reports its own warnings
+        let warnings = self.extra_owned.warnings.fresh();
+        let mut extra = self.extra_owned.to_extra(py);
+        extra.warnings = &warnings;
 
         for iter_result in iterator.clone() {
             let element = iter_result?;
-- 
2.43.0


From 2f26afdb66d5e203e33cc64e5ca1265361c65213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 35/59] fix: the conversion of keys is guarded against
 recursion

---
 src/serializers/extra.rs                        | 10 ++++++++++
 src/serializers/infer.rs                        | 11 +++++++----
 src/serializers/type_serializers/definitions.rs |  7 +++++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index b2b11a3..7915e4f 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -196,6 +196,16 @@ impl<'a> Extra<'a> {
         })
     }
 
+    /// `recursion_guard` for the conversion of a key: the key may well be an object that is being serialized as a
+    /// value, so the ids guarding keys are different from the ids guarding values
+    pub fn key_recursion_guard<'x, 'y>(
+        self: &'x mut &'y Self,
+        key: &Bound<'_, PyAny>,
+        def_ref_id: usize,
+    ) -> PyResult<RecursionGuard<'x, &'y Self>> {
+        self.recursion_guard(key, def_ref_id ^ (1 << (usize::BITS - 1)))
+    }
+
     pub fn serialize_infer<'py>(&'py self, value: &'py Bound<'py, PyAny>) -> super::infer::SerializeInfer<'py> {
         super::infer::SerializeInfer::new(value, None, None, self)
     }
diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 33f53b2..3488a04 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -590,7 +590,7 @@ pub(crate) fn infer_json_key<'a>(key: &'a Bound<'_, PyAny>, extra: &Extra) -> Py
 pub(crate) fn infer_json_key_known<'a>(
     ob_type: ObType,
     key: &'a Bound<'_, PyAny>,
-    extra: &Extra,
+    mut extra: &Extra,
 ) -> PyResult<Cow<'a, str>> {
     match ob_type {
         ObType::None => super::type_serializers::simple::none_json_key(),
@@ -651,9 +651,10 @@ pub(crate) fn infer_json_key_known<'a>(
             Ok(Cow::Owned(py_url.__str__()))
         }
         ObType::Tuple => {
+            let mut guard = extra.key_recursion_guard(key, INFER_DEF_REF_ID)?;
             let mut key_build = super::type_serializers::tuple::KeyBuilder::new();
             for element in key.downcast::<PyTuple>()?.iter_borrowed() {
-                key_build.push(&infer_json_key(&element, extra)?);
+                key_build.push(&infer_json_key(&element, guard.state())?);
             }
             Ok(Cow::Owned(key_build.finish()))
         }
@@ -667,8 +668,9 @@ pub(crate) fn infer_json_key_known<'a>(
             Ok(Cow::Owned(key))
         }
         ObType::Enum => {
+            let mut guard = extra.key_recursion_guard(key, INFER_DEF_REF_ID)?;
             let k = key.getattr(intern!(key.py(), "value"))?;
-            infer_json_key(&k, extra).map(|cow| Cow::Owned(cow.into_owned()))
+            infer_json_key(&k, guard.state()).map(|cow| Cow::Owned(cow.into_owned()))
         }
         ObType::Path => {
             // FIXME it would be nice to have a "PyCow" which carries ownership of the Python type too
@@ -686,8 +688,9 @@ pub(crate) fn infer_json_key_known<'a>(
         )),
         ObType::Unknown => {
             if let Some(fallback) = extra.fallback {
+                let mut guard = extra.key_recursion_guard(key, INFER_DEF_REF_ID)?;
                 let next_key = fallback.call1((key,))?;
-                infer_json_key(&next_key, extra).map(|cow| Cow::Owned(cow.into_owned()))
+                infer_json_key(&next_key, guard.state()).map(|cow| Cow::Owned(cow.into_owned()))
             } else if extra.serialize_unknown {
                 Ok(serialize_unknown(key))
             } else {
diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index 38fd7ce..3595cf6 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -98,8 +98,11 @@ impl TypeSerializer for DefinitionRefSerializer {
         })
     }
 
-    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-        self.definition.read(|s| s.unwrap().json_key(key, extra))
+    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, mut extra: &Extra) -> PyResult<Cow<'a, str>> {
+        self.definition.read(|s| {
+            let mut guard = extra.key_recursion_guard(key, self.definition.id())?;
+            s.unwrap().json_key(key, guard.state())
+        })
     }
 
     fn serde_serialize<S: serde::ser::Serializer>(
-- 
2.43.0


From 59341ff566523e98b2b212caf1f72d9ee1462611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 36/59] fix: the handler of a wrap serializer only reports the
 warnings of the call

---
 src/serializers/type_serializers/function.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..f018049 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -499,7 +499,10 @@ impl SerializationCallable {
     ) -> PyResult<Option<PyObject>> {
         let include = self.include.as_ref().map(|o| o.bind(py));
         let exclude = self.exclude.as_ref().map(|o| o.bind(py));
-        let extra = self.extra_owned.to_extra(py);
+        // each call only reports its own warnings
+        let warnings = self.extra_owned.warnings.fresh();
+        let mut extra = self.extra_owned.to_extra(py);
+        extra.warnings = &warnings;
 
         if let Some(index_key) = index_key {
             let filter = if let Ok(index) = index_key.extract::<usize>() {
-- 
2.43.0


From 0a675d66bee69fbebbba3259eb231711790a0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:17 +0000
Subject: [PATCH 37/59] fix: a failed attempt and a default don't change the
 partial mode of what follows

List, set, dict, typed dict, tuple, ... validators change state.allow_partial for
their items and leave it so. The other members of a union, the lax attempt after
a strict one, and the default of a typed dict field then saw that mode instead
of the one of their own input.
---
 src/validators/lax_or_strict.rs | 4 +++-
 src/validators/typed_dict.rs    | 2 ++
 src/validators/union.rs         | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index 70d3327..443cefe 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -69,11 +69,13 @@ impl Validator for LaxOrStrictValidator {
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
                 let old_fields_set_count = state.fields_set_count;
+                let allow_partial = state.allow_partial;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
-                // the fields of the failed attempt don't count
+                // the fields of the failed attempt don't count, nor does the partial mode of its items
                 state.fields_set_count = old_fields_set_count;
+                state.allow_partial = allow_partial;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
             }
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index 58f71e6..0c38ccb 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -239,6 +239,8 @@ impl Validator for TypedDictValidator {
                     continue;
                 }
 
+                // a default value is complete
+                state.allow_partial = false.into();
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 8bd1fa9..f6fd195 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -107,6 +107,7 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let old_exactness = state.exactness;
         let old_fields_set_count = state.fields_set_count;
+        let allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
@@ -115,6 +116,8 @@ impl UnionValidator {
         for (choice, label) in &self.choices {
             state.exactness = Some(Exactness::Exact);
             state.fields_set_count = None;
+            // a previous choice may have changed it for its items
+            state.allow_partial = allow_partial;
             let result = choice.validate(py, input, state);
             match result {
                 Ok(new_success) => match (state.exactness, state.fields_set_count) {
@@ -194,10 +197,13 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let old_exactness = state.exactness;
         let old_fields_set_count = state.fields_set_count;
+        let allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
         for (validator, label) in &self.choices {
+            // a previous choice may have changed it for its items
+            state.allow_partial = allow_partial;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => {
                     // the attempt failed, it must not influence the exactness of the next one
-- 
2.43.0


From 3f04c4c4c7201426ce6e3527d23bc62e574df26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 38/59] fix: positional dataclass arguments skip fields that
 can't be given positionally

The index of the field among all fields was used, so with a field that is
init=False (or keyword-only) before it a positional field got the value of the
next argument, or was reported as missing.
---
 src/validators/dataclass.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index e5ef7a9..ac03535 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -89,7 +89,8 @@ impl BuildValidator for DataclassArgsValidator {
             }
 
             let kw_only = field.get_as(intern!(py, "kw_only"))?.unwrap_or(true);
-            if !kw_only {
+            let init = field.get_as(intern!(py, "init"))?.unwrap_or(true);
+            if !kw_only && init {
                 positional_count += 1;
             }
 
@@ -102,7 +103,7 @@ impl BuildValidator for DataclassArgsValidator {
                 name_py: name_py.into(),
                 lookup_key_collection,
                 validator,
-                init: field.get_as(intern!(py, "init"))?.unwrap_or(true),
+                init,
                 init_only: field.get_as(intern!(py, "init_only"))?.unwrap_or(false),
                 frozen: field.get_as::<bool>(intern!(py, "frozen"))?.unwrap_or(false),
             });
@@ -174,8 +175,11 @@ impl Validator for DataclassArgsValidator {
             }};
         }
 
+        // the position of the next field that can be given as a positional argument
+        let mut next_position: usize = 0;
+
         // go through fields getting the value from args or kwargs and validating it
-        for (index, field) in self.fields.iter().enumerate() {
+        for field in &self.fields {
             if !field.init {
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
@@ -194,11 +198,13 @@ impl Validator for DataclassArgsValidator {
                 continue;
             }
 
+            let index = next_position;
             let mut pos_value = None;
-            if let Some(args) = args.args() {
-                if !field.kw_only {
+            if !field.kw_only {
+                if let Some(args) = args.args() {
                     pos_value = args.get_item(index);
                 }
+                next_position += 1;
             }
 
             let lookup_key = field
-- 
2.43.0


From 35f405efc95cbe43243a6c76025573e50d6306d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 39/59] fix: an invalid default of an argument doesn't hide the
 errors of the other arguments

---
 src/validators/arguments.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2ca3ba5..e62684a 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -261,10 +261,18 @@ impl Validator for ArgumentsValidator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if let Some(ref kwarg_key) = parameter.kwarg_key {
                             output_kwargs.set_item(kwarg_key, value)?;
                         } else {
-- 
2.43.0


From 06208ab18a95249c778e04b61a6594888dc007fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 40/59] fix: a union tells root models apart by their class

---
 src/serializers/type_serializers/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/model.rs b/src/serializers/type_serializers/model.rs
index 4bae243..d3b46be 100644
--- a/src/serializers/type_serializers/model.rs
+++ b/src/serializers/type_serializers/model.rs
@@ -195,6 +195,10 @@ impl TypeSerializer for ModelSerializer {
                     original_err
                 }
             })?;
+            // the members of a union are told apart by their class, the value of the root isn't enough
+            if root_extra.check.enabled() && !self.allow_value(value, &root_extra)? {
+                return Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err());
+            }
             self.serializer.to_python(&root, include, exclude, &root_extra)
         } else if self.allow_value(value, &model_extra)? {
             let inner_value = self.get_inner_value(value, &model_extra)?;
-- 
2.43.0


From 6f933f26a1d57678f8c16bd0064736b59d7e0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 41/59] fix: a key of a union is only matched by the type of a
 superclass when no member matches exactly

---
 src/serializers/type_serializers/float.rs  | 3 +++
 src/serializers/type_serializers/simple.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/serializers/type_serializers/float.rs b/src/serializers/type_serializers/float.rs
index 4153981..085a28d 100644
--- a/src/serializers/type_serializers/float.rs
+++ b/src/serializers/type_serializers/float.rs
@@ -90,6 +90,9 @@ impl TypeSerializer for FloatSerializer {
 
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
         match extra.ob_type_lookup.is_type(key, ObType::Float) {
+            IsType::Subclass if extra.check == SerCheck::Strict => {
+                Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err())
+            }
             IsType::Exact | IsType::Subclass => to_str_json_key(key),
             IsType::False => {
                 extra.warnings.on_fallback_py(self.get_name(), key, extra)?;
diff --git a/src/serializers/type_serializers/simple.rs b/src/serializers/type_serializers/simple.rs
index 41d69ce..6bb8a04 100644
--- a/src/serializers/type_serializers/simple.rs
+++ b/src/serializers/type_serializers/simple.rs
@@ -138,6 +138,9 @@ macro_rules! build_simple_serializer {
 
             fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
                 match extra.ob_type_lookup.is_type(key, $ob_type) {
+                    IsType::Subclass if extra.check == SerCheck::Strict => {
+                        Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err())
+                    }
                     IsType::Exact | IsType::Subclass => $key_method(key),
                     IsType::False => {
                         extra.warnings.on_fallback_py(self.get_name(), key, extra)?;
-- 
2.43.0


From 7d01bfc4862fafd36e78e11039c0e9c8ccb5be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 42/59] fix: unions of dicts, sets and json schemas also accept
 subclasses inside when no member matches exactly

---
 src/serializers/type_serializers/dict.rs           | 4 ++++
 src/serializers/type_serializers/json.rs           | 4 ++++
 src/serializers/type_serializers/json_or_python.rs | 4 ++++
 src/serializers/type_serializers/set_frozenset.rs  | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/serializers/type_serializers/dict.rs b/src/serializers/type_serializers/dict.rs
index feb4509..6ab9ec2 100644
--- a/src/serializers/type_serializers/dict.rs
+++ b/src/serializers/type_serializers/dict.rs
@@ -150,4 +150,8 @@ impl TypeSerializer for DictSerializer {
     fn get_name(&self) -> &str {
         &self.name
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.key_serializer.retry_with_lax_check() || self.value_serializer.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/json.rs b/src/serializers/type_serializers/json.rs
index 6b8b429..a62d0de 100644
--- a/src/serializers/type_serializers/json.rs
+++ b/src/serializers/type_serializers/json.rs
@@ -98,4 +98,8 @@ impl TypeSerializer for JsonSerializer {
     fn get_name(&self) -> &str {
         Self::EXPECTED_TYPE
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.serializer.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/json_or_python.rs b/src/serializers/type_serializers/json_or_python.rs
index 0e2de33..ba1020b 100644
--- a/src/serializers/type_serializers/json_or_python.rs
+++ b/src/serializers/type_serializers/json_or_python.rs
@@ -76,4 +76,8 @@ impl TypeSerializer for JsonOrPythonSerializer {
     fn get_name(&self) -> &str {
         &self.name
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.json.retry_with_lax_check() || self.python.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/set_frozenset.rs b/src/serializers/type_serializers/set_frozenset.rs
index 08f54c8..885b0bb 100644
--- a/src/serializers/type_serializers/set_frozenset.rs
+++ b/src/serializers/type_serializers/set_frozenset.rs
@@ -112,6 +112,10 @@ macro_rules! build_serializer {
             fn get_name(&self) -> &str {
                 &self.name
             }
+
+            fn retry_with_lax_check(&self) -> bool {
+                self.item_serializer.retry_with_lax_check()
+            }
         }
     };
 }
-- 
2.43.0


From 8982f761f590d928ff0ad034e6bc4001e07b59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:08 +0000
Subject: [PATCH 43/59] fix: no documentation URL for custom errors in the JSON
 rendering of a ValidationError

---
 src/errors/validation_exception.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 16e89eb..c2c3cf0 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -658,7 +658,14 @@ impl Serialize for PyLineErrorSerializer<'_> {
             }
         }
         if let Some(url_prefix) = self.url_prefix {
-            map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+            match self.line_error.error_type {
+                ErrorType::CustomError { .. } => {
+                    // Don't add URLs for custom errors
+                }
+                _ => {
+                    map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+                }
+            }
         }
         map.end()
     }
-- 
2.43.0


From 7d09d68a668724e6e5a6ec39737219ff6a13cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 44/59] fix: a ValidationError with custom errors survives
 pickling

---
 src/errors/validation_exception.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index c2c3cf0..97fd0fb 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -393,9 +393,24 @@ impl ValidationError {
         let py = slf.py();
         let callable = slf.getattr("from_exception_data")?;
         let borrow = slf.try_borrow()?;
+        let errors = borrow.errors(py, include_url_env(py), true, true)?.into_bound(py);
+        for (line_error, details) in borrow.line_errors.iter().zip(errors.iter()) {
+            // the type alone is not enough to build a custom error again
+            if let ErrorType::CustomError {
+                error_type,
+                message_template,
+                context,
+            } = &line_error.error_type
+            {
+                let custom_error = py
+                    .get_type::<PydanticCustomError>()
+                    .call1((error_type, message_template, context))?;
+                details.set_item(intern!(py, "type"), custom_error)?;
+            }
+        }
         let args = (
             &borrow.title,
-            borrow.errors(py, include_url_env(py), true, true)?,
+            errors,
             borrow.input_type,
             borrow.hide_input,
         )
-- 
2.43.0


From e4ac2c18c807bb86d19e8961f752d9de4a306caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 45/59] fix: keep integers beyond 64 bits exact in the context
 of a known error

---
 src/errors/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 0c75e1e..938ec5f 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -13,7 +13,7 @@ use strum::{Display, EnumMessage, IntoEnumIterator};
 use strum_macros::EnumIter;
 
 use crate::input::{InputType, Int};
-use crate::tools::{extract_i64, py_err, py_error_type};
+use crate::tools::{extract_int, py_err, py_error_type};
 
 use super::PydanticCustomError;
 
@@ -804,8 +804,8 @@ impl From<Int> for Number {
 
 impl FromPyObject<'_> for Number {
     fn extract_bound(obj: &Bound<'_, PyAny>) -> PyResult<Self> {
-        if let Some(int) = extract_i64(obj) {
-            Ok(Number::Int(int))
+        if let Some(int) = extract_int(obj) {
+            Ok(int.into())
         } else if let Ok(float) = obj.extract::<f64>() {
             Ok(Number::Float(float))
         } else if let Ok(string) = obj.extract::<String>() {
-- 
2.43.0


From 3dc8e61c2d1e1bbe335fb6acfa9a9e15120224bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:47 +0000
Subject: [PATCH 46/59] fix: keep the whole context of a custom error, also
 under the names error_type and message_template

---
 src/errors/types.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 938ec5f..96e6c0a 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -747,20 +747,18 @@ impl ErrorType {
     }
 
     pub fn py_dict(&self, py: Python) -> PyResult<Option<Py<PyDict>>> {
+        if let Self::CustomError { context, .. } = self {
+            // Custom error type and message are handled separately by the caller.
+            // They are added to the root of the ErrorDetails.
+            return match context {
+                Some(ctx) => Ok(Some(ctx.bind(py).copy()?.unbind())),
+                None => Ok(None),
+            };
+        }
         let dict = PyDict::new(py);
         let custom_ctx_used = self.py_dict_update_ctx(py, &dict)?;
 
-        if let Self::CustomError { .. } = self {
-            if custom_ctx_used {
-                // Custom error type and message are handled separately by the caller.
-                // They are added to the root of the ErrorDetails.
-                dict.del_item("error_type")?;
-                dict.del_item("message_template")?;
-                Ok(Some(dict.into()))
-            } else {
-                Ok(None)
-            }
-        } else if custom_ctx_used || !dict.is_empty() {
+        if custom_ctx_used || !dict.is_empty() {
             Ok(Some(dict.into()))
         } else {
             Ok(None)
-- 
2.43.0


From 719d3d38721a283fa24c87994a659722c267d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 47/59] fix: a minus sign after leading zeros is no integer
 ('0-1' was read as -1)

---
 src/input/shared.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/shared.rs b/src/input/shared.rs
index 1a90b41..dac0faa 100644
--- a/src/input/shared.rs
+++ b/src/input/shared.rs
@@ -186,8 +186,8 @@ fn strip_leading_zeros(s: &str) -> Option<&str> {
         match c {
             // continue on more leading zeros or if we get an underscore we continue - we're "within the number"
             '0' | '_' => (),
-            // any other digit or unary minus we return the rest of the string
-            '1'..='9' | '-' => return Some(&s[i..]),
+            // any other digit we return the rest of the string
+            '1'..='9' => return Some(&s[i..]),
             // if we get a dot we return the rest of the string but include the last zero
             '.' => return Some(&s[(i - 1)..]),
             // anything else is invalid, we return None
-- 
2.43.0


From 2fbca91300a4d952b9e7b8d45e884a73c0c58bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 48/59] fix: a JSON integer too large for a float is rejected
 instead of becoming inf

---
 src/input/input_json.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/input/input_json.rs b/src/input/input_json.rs
index 1586362..516f905 100644
--- a/src/input/input_json.rs
+++ b/src/input/input_json.rs
@@ -174,9 +174,11 @@ impl<'py, 'data> Input<'py> for JsonValue<'data> {
         match self {
             JsonValue::Float(f) => Ok(ValidationMatch::exact(EitherFloat::F64(*f))),
             JsonValue::Int(i) => Ok(ValidationMatch::strict(EitherFloat::F64(*i as f64))),
-            JsonValue::BigInt(b) => Ok(ValidationMatch::strict(EitherFloat::F64(
-                b.to_f64().expect("BigInt should always return some value"),
-            ))),
+            // an int too large for a float is no float, as for python input
+            JsonValue::BigInt(b) => match b.to_f64().filter(|f| f.is_finite()) {
+                Some(float) => Ok(ValidationMatch::strict(EitherFloat::F64(float))),
+                None => Err(ValError::new(ErrorTypeDefaults::FloatType, self)),
+            },
             JsonValue::Bool(b) if !strict => Ok(ValidationMatch::lax(EitherFloat::F64(if *b { 1.0 } else { 0.0 }))),
             JsonValue::Str(str) if !strict => str_as_float(self, str).map(ValidationMatch::lax),
             _ => Err(ValError::new(ErrorTypeDefaults::FloatType, self)),
-- 
2.43.0


From 73123991a2fc7cd9cae77181a150f9b01c9bc57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 49/59] fix: a decimal that only rounds to 0 or 1 is no boolean

---
 src/input/input_python.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 71157bb..25322b6 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -230,6 +230,14 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 return str_as_bool(self, s).map(ValidationMatch::lax);
             } else if let Some(int) = extract_i64(self) {
                 return int_as_bool(self, int).map(ValidationMatch::lax);
+            } else if let Ok(decimal) = self.validate_decimal(true, self.py()) {
+                // not through a float, which would round the decimal
+                if let Ok(int) = decimal_as_int(self, &decimal.into_inner()) {
+                    return int
+                        .as_bool()
+                        .ok_or_else(|| ValError::new(ErrorTypeDefaults::BoolParsing, self))
+                        .map(ValidationMatch::lax);
+                };
             } else if let Ok(float) = self.extract::<f64>() {
                 if let Ok(int) = float_as_int(self, float) {
                     return int
-- 
2.43.0


From 3e9425f8ff97d2b64dcd7ca61cd37e6248614489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 50/59] fix: an int schema only accepts enum members whose
 value is an int

---
 src/input/input_python.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 25322b6..854c806 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -279,8 +279,8 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     decimal_as_int(self, &decimal.into_inner())
                 } else if let Ok(float) = self.extract::<f64>() {
                     float_as_int(self, float)
-                } else if let Some(enum_val) = maybe_as_enum(self) {
-                    Ok(EitherInt::Py(enum_val))
+                } else if let Some(enum_val) = maybe_as_enum(self).filter(|v| v.is_instance_of::<PyInt>()) {
+                    EitherInt::upcast(&enum_val)
                 } else {
                     break 'lax;
                 }
-- 
2.43.0


From 8f5a9a444b9d603304b39898d9bb16690238a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:07 +0000
Subject: [PATCH 51/59] fix: a negative or millisecond float timestamp keeps
 its fraction's value

---
 src/input/datetime.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index d2f6aee..ffdc147 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -420,10 +420,18 @@ macro_rules! nan_check {
 
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
-    let microseconds = timestamp.fract().abs() * 1_000_000.0;
+    // the remainder is counted from the whole number below, also for negative timestamps
+    let whole = timestamp.floor();
+    // beyond this watershed speedate reads the timestamp as milliseconds
+    let unit_microseconds = if whole.abs() > 20_000_000_000.0 {
+        1_000.0
+    } else {
+        1_000_000.0
+    };
+    let microseconds = (timestamp - whole) * unit_microseconds;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, timestamp.floor() as i64, microseconds.round() as u32)
+    int_as_datetime(input, whole as i64, microseconds.round() as u32)
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From e1c690fb91a1d7958a8eb06d8c73ceeda48d9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:07 +0000
Subject: [PATCH 52/59] fix: TzInfo equals only time zones of exactly the same
 offset

---
 src/input/datetime.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index ffdc147..b140bed 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -629,9 +629,12 @@ impl TzInfo {
             if PyAnyMethods::is_none(&offset_delta) {
                 return Ok(py.NotImplemented());
             }
+            // not rounded: only an equal offset has the same hash
             let offset_seconds: f64 = offset_delta.call_method0(intern!(py, "total_seconds"))?.extract()?;
-            let offset = offset_seconds.round() as i32;
-            op.matches(self.seconds.cmp(&offset)).into_py_any(py)
+            f64::from(self.seconds)
+                .partial_cmp(&offset_seconds)
+                .is_some_and(|ordering| op.matches(ordering))
+                .into_py_any(py)
         } else {
             Ok(py.NotImplemented())
         }
-- 
2.43.0


From 4c254f6a5b9f360fb6a02bb491f909ea64c6c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 53/59] fix: TzInfo rejects nan and the most negative offset

---
 src/input/datetime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index b140bed..ad8cbed 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -570,6 +570,9 @@ pub struct TzInfo {
 impl TzInfo {
     #[new]
     fn py_new(seconds: f32) -> PyResult<Self> {
+        if seconds.is_nan() {
+            return py_err!(PyValueError; "TzInfo offset must not be NaN");
+        }
         Self::try_from(seconds.trunc() as i32)
     }
 
@@ -654,7 +657,7 @@ impl TryFrom<i32> for TzInfo {
     type Error = PyErr;
 
     fn try_from(seconds: i32) -> PyResult<Self> {
-        if seconds.abs() >= 86400 {
+        if seconds.unsigned_abs() >= 86400 {
             Err(PyValueError::new_err(format!(
                 "TzInfo offset must be strictly between -86400 and 86400 (24 hours) seconds, got {seconds}"
             )))
-- 
2.43.0


From 146da25dfb1a0fbae8dd2eba1e4f9f1e31292f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 54/59] fix: decimal digit limits count the digits of the
 value, not of its rounding to the context precision

---
 src/validators/decimal.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/validators/decimal.rs b/src/validators/decimal.rs
index a2a9e0b..bd71171 100644
--- a/src/validators/decimal.rs
+++ b/src/validators/decimal.rs
@@ -102,19 +102,22 @@ impl_py_gc_traverse!(DecimalValidator {
 
 fn extract_decimal_digits_info(decimal: &Bound<'_, PyAny>, normalized: bool) -> ValResult<(u64, u64)> {
     let py = decimal.py();
-    let mut normalized_decimal: Option<Bound<'_, PyAny>> = None;
-    if normalized {
-        normalized_decimal = decimal.call_method0(intern!(py, "normalize")).ok();
-    }
-    let (_, digit_tuple, exponent): (Bound<'_, PyAny>, Bound<'_, PyTuple>, Bound<'_, PyAny>) = normalized_decimal
-        .as_ref()
-        .unwrap_or(decimal)
-        .call_method0(intern!(py, "as_tuple"))?
-        .extract()?;
+    let (_, digit_tuple, exponent): (Bound<'_, PyAny>, Bound<'_, PyTuple>, Bound<'_, PyAny>) =
+        decimal.call_method0(intern!(py, "as_tuple"))?.extract()?;
 
     // finite values have numeric exponent, we checked is_finite above
-    let exponent: i64 = exponent.extract()?;
+    let mut exponent: i64 = exponent.extract()?;
     let mut digits: u64 = u64::try_from(digit_tuple.len()).map_err(|e| ValError::InternalErr(e.into()))?;
+    if normalized {
+        // strip trailing zeros; `Decimal.normalize()` would also round to the precision of the current context
+        for digit in digit_tuple.iter().rev() {
+            if digit.extract::<u8>()? != 0 {
+                break;
+            }
+            digits -= 1;
+            exponent += 1;
+        }
+    }
     let decimals;
     if exponent >= 0 {
         // A positive exponent adds that many trailing zeros.
-- 
2.43.0


From 15539b1c16bc329270d3197404c46787b99b2ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 55/59] fix: a decimal zero has no digits before the decimal
 point in any spelling

---
 src/validators/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/validators/decimal.rs b/src/validators/decimal.rs
index bd71171..971639c 100644
--- a/src/validators/decimal.rs
+++ b/src/validators/decimal.rs
@@ -117,6 +117,10 @@ fn extract_decimal_digits_info(decimal: &Bound<'_, PyAny>, normalized: bool) ->
             digits -= 1;
             exponent += 1;
         }
+        if digits == 0 {
+            // zero has no digits, wherever its decimal point is
+            return Ok((0, 0));
+        }
     }
     let decimals;
     if exponent >= 0 {
-- 
2.43.0


From 7cccaecb04ca4c12002f36dd2761904ea7888808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 56/59] fix: a decimal is a multiple only if the exact quotient
 is an integer

---
 src/validators/decimal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validators/decimal.rs b/src/validators/decimal.rs
index 971639c..fa907dd 100644
--- a/src/validators/decimal.rs
+++ b/src/validators/decimal.rs
@@ -206,10 +206,10 @@ impl Validator for DecimalValidator {
         }
 
         if let Some(multiple_of) = &self.multiple_of {
-            // fraction = (decimal / multiple_of) % 1
-            let fraction = (decimal.div(multiple_of)?).rem(1)?;
+            // the remainder is exact, `decimal / multiple_of` would be rounded to the context precision
+            let remainder = decimal.rem(multiple_of)?;
             let zero = 0u8.into_pyobject(py)?;
-            if !fraction.eq(&zero)? {
+            if !remainder.eq(&zero)? {
                 return Err(ValError::new(
                     ErrorType::MultipleOf {
                         multiple_of: multiple_of.to_string().into(),
-- 
2.43.0


From 920d22dc87d3278cd9d7a869639a8da62e2c3fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:38 +0000
Subject: [PATCH 57/59] fix: a multi-host URL whose last host is empty is
 rejected

'http://a,/path' was read as the hosts 'a' and 'path': the URL library skips
the slash of an empty host for special schemes.
---
 src/validators/url.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index d220d60..42b1a18 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -451,6 +451,10 @@ fn parse_multihost_url<'py>(
             _ => (),
         }
     }
+    // the last of several hosts can't be empty, without this check `parse_url` would take it from the path
+    if !hosts.is_empty() && matches!(url_str[start..].chars().next(), None | Some('/' | '\\' | '?' | '#')) {
+        return parsing_err!(ParseError::EmptyHost);
+    }
     // with just one host, for consistent behaviour, we parse the URL the same as with multiple hosts
 
     let reconstructed_url = format!("{prefix}{}", &url_str[start..]);
-- 
2.43.0


From 0d8825965252a44db0cd62a5f8d0e843afdd4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 58/59] fix: a bytes pattern is written as text in JSON-mode
 output

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 3488a04..4bfd5fa 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -233,7 +233,7 @@ pub(crate) fn infer_to_python_known(
                 complex_str.into_py_any(py)?
             }
             ObType::Path => value.str()?.into_py_any(py)?,
-            ObType::Pattern => value.getattr(intern!(py, "pattern"))?.unbind(),
+            ObType::Pattern => value.getattr(intern!(py, "pattern"))?.str()?.into_py_any(py)?,
             ObType::Unknown => {
                 if let Some(fallback) = extra.fallback {
                     let next_value = fallback.call1((value,))?;
-- 
2.43.0


From 1b004316420a797e0d516d589dbd7598f47025fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 59/59] fix: include and exclude reach the elements of inferred
 sets in python output

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 4bfd5fa..a4ea1dc 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -64,7 +64,7 @@ pub(crate) fn infer_to_python_known(
             value
                 .downcast::<$t>()?
                 .iter()
-                .map(|v| infer_to_python(&v, None, None, extra))
+                .map(|v| infer_to_python(&v, include, exclude, extra))
                 .collect::<PyResult<Vec<PyObject>>>()?
         };
     }
-- 
2.43.0

