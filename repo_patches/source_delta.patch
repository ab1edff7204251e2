From be2847c347c21a2d016aaec3ffb95a903f2d4ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 01/70] fix: create a table and its columns in one catalog
 transaction

---
 src/repository/default.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index aa853d9..467d68f 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -254,9 +254,8 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
-        // Create columns
+        // Create columns, in the same transaction so that a failure here (or a crash) doesn't
+        // leave a table without (some of) its columns behind
         // TODO this breaks if we have more than (bind limit) columns
         if !schema.fields().is_empty() {
             let mut builder: QueryBuilder<_> =
@@ -274,9 +273,11 @@ impl Repository for $repo {
             });
 
             let query = builder.build();
-            query.execute(&self.executor).await.map_err($repo::interpret_error)?;
+            query.execute(&mut *tx).await.map_err($repo::interpret_error)?;
         }
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok((new_table_id, new_version_id))
     }
 
-- 
2.43.0


From febc656539d0e69f8f6805b9d415ba02fccf2044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 02/70] fix: record a new table version and its columns in one
 catalog transaction

---
 src/repository/default.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 467d68f..eecfb52 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -302,40 +302,41 @@ impl Repository for $repo {
         uuid: Uuid,
         version: i64,
     ) -> Result<TableVersionId, Error> {
+        let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
+
         // For now we only support linear history
-        let last_version_id: TableVersionId = sqlx::query(r#"SELECT max(table_version.id) AS id
+        let new_version_id: TableVersionId = sqlx::query(
+            r#"INSERT INTO table_version (table_id, version)
+            SELECT table_id, $1 FROM table_version WHERE id = (
+                SELECT max(table_version.id)
                 FROM table_version
                 JOIN "table" ON table_version.table_id = "table".id
-                WHERE "table".uuid = $1"#)
-            .bind(uuid)
-            .fetch_one(&self.executor)
-            .await.map_err($repo::interpret_error)?
-            .try_get("id").map_err($repo::interpret_error)?;
-
-        let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-
-        let new_version_id = sqlx::query(
-            "INSERT INTO table_version (table_id, version)
-            SELECT table_id, $1 FROM table_version WHERE id = $2
-            RETURNING (id)",
+                WHERE "table".uuid = $2
+            )
+            RETURNING (id)"#,
         )
         .bind(version)
-        .bind(last_version_id)
+        .bind(uuid)
         .fetch_one(&mut *tx)
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
+        // Inherit the columns of the preceding version, in the same transaction so that the new
+        // version is never visible without them
         sqlx::query(
             "INSERT INTO table_column (table_version_id, name, type)
-            SELECT $2, name, type FROM table_column WHERE table_version_id = $1;",
+            SELECT $1, name, type FROM table_column WHERE table_version_id = (
+                SELECT max(prev.id) FROM table_version prev
+                JOIN table_version new ON prev.table_id = new.table_id
+                WHERE new.id = $1 AND prev.id < $1
+            );",
         )
-        .bind(last_version_id)
         .bind(new_version_id)
-        .execute(&self.executor)
+        .execute(&mut *tx)
         .await.map_err($repo::interpret_error)?;
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok(new_version_id)
     }
 
-- 
2.43.0


From 8a78bdaddceaeac1441bb9d619b25cf38081b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 03/70] fix: drop every function named in a DROP FUNCTION list

---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index eecfb52..cd339ef 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -491,7 +491,7 @@ impl Repository for $repo {
             AND name IN ({})
             RETURNING id;
             "#,
-            func_names.iter().map(|_| "$2").collect::<Vec<_>>().join(", ")
+            (0..func_names.len()).map(|i| format!("${}", i + 2)).collect::<Vec<_>>().join(", ")
         );
 
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 8eed210e4d2051494f125c89b728b141b6a10530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 04/70] fix: read the low half of a decimal returned by a WASM
 function as unsigned

---
 src/wasm_udf/wasm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9b875be..8c5af81 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -521,7 +521,8 @@ fn messagepack_decode_results(
                                 .ok_or(DataFusionError::Internal(format!("Decimal value high half expected to be integer, found {:?} instead", decimal_array[2])))?;
                             let low = decimal_array[3].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal value low half expected to be integer, found {:?} instead", decimal_array[3])))?;
-                            let value:i128 = (low as i128) + ((high as i128) << 64);
+                            // the low half is unsigned: its top bit is part of the value, not a sign
+                            let value:i128 = ((high as i128) << 64) | (low as u64 as i128);
                             Ok(value)
                         }),
                 )
-- 
2.43.0


From 9af60d6394ae7465332b39316c102d0721a302ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 05/70] fix: write the length of a WASM function's input as the
 4 bytes reserved for it

---
 src/wasm_udf/wasm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 8c5af81..b4471d8 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -178,6 +178,9 @@ impl WasmMessagePackUDFInstance {
         // Total input size will be serialized messagepack bytes prepended by the
         // size of the serialized input (one i32 == 4 bytes)
         let udf_input_size: usize = udf_input_buf.len() + SIZE_BYTE_COUNT;
+        let udf_input_len = i32::try_from(udf_input_buf.len()).map_err(|e| {
+            DataFusionError::Internal(format!("UDF input is too large: {e:?}"))
+        })?;
         // allocate WASM memory for input buffer
         let udf_input_ptr = self
             .alloc
@@ -190,7 +193,7 @@ impl WasmMessagePackUDFInstance {
         let ptr: usize = udf_input_ptr.try_into().unwrap();
         // write size of input buffer first
         self.memory
-            .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
+            .write(&mut self.store, ptr, &udf_input_len.to_ne_bytes())
             .map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error copying input buffer size to WASM memory: {err:?}"
-- 
2.43.0


From cd9a63387f030be5c9558174a528eabf938e214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 06/70] fix: call a WASM function for no rows when its columns
 are empty and other arguments constant

---
 src/wasm_udf/wasm.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index b4471d8..a6bede0 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -546,12 +546,11 @@ fn messagepack_decode_results(
 fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
     let inferred_length = args
         .iter()
-        .map(|v| match v {
-            ColumnarValue::Array(array) => array.len(),
-            ColumnarValue::Scalar(_) => 1,
+        .find_map(|v| match v {
+            ColumnarValue::Array(array) => Some(array.len()),
+            ColumnarValue::Scalar(_) => None,
         })
-        .max()
-        .unwrap_or(0);
+        .unwrap_or(1);
 
     args.iter()
         .map(|arg| arg.clone().into_array(inferred_length))
-- 
2.43.0


From 5ff93cf8565e1c958f83715237348abd7b8c831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 07/70] fix: report an error for any pointer or length a WASM
 module gives back

---
 src/wasm_udf/wasm.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index a6bede0..3344fa0 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -81,6 +81,13 @@ where
         })
 }
 
+// WASM addresses are unsigned 32-bit integers, even though they're passed around as i32
+fn wasm_ptr_to_usize(ptr: i32) -> Result<usize> {
+    usize::try_from(ptr as u32).map_err(|e| {
+        DataFusionError::Internal(format!("Error interpreting WASM pointer: {e:?}"))
+    })
+}
+
 struct WasmMessagePackUDFInstance {
     store: Store<WasiCtx>,
     alloc: TypedFunc<i32, i32>,
@@ -128,7 +135,7 @@ impl WasmMessagePackUDFInstance {
     }
 
     fn read_udf_output(&mut self, udf_output_ptr: i32) -> Result<(Value, i32)> {
-        let ptr: usize = udf_output_ptr.try_into().unwrap();
+        let ptr = wasm_ptr_to_usize(udf_output_ptr)?;
         let mut size_buffer = [0u8; SIZE_BYTE_COUNT];
         self.memory
             .read(&self.store, ptr, &mut size_buffer)
@@ -161,8 +168,10 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        let result: (Value, i32) = (output, (size + SIZE_BYTE_COUNT).try_into().unwrap());
-        Ok(result)
+        let total_size = i32::try_from(size + SIZE_BYTE_COUNT).map_err(|e| {
+            DataFusionError::Internal(format!("UDF output buffer is too large: {e:?}"))
+        })?;
+        Ok((output, total_size))
     }
 
     fn write_udf_input(&mut self, input: &Value) -> Result<(i32, i32)> {
@@ -177,20 +186,21 @@ impl WasmMessagePackUDFInstance {
             })?;
         // Total input size will be serialized messagepack bytes prepended by the
         // size of the serialized input (one i32 == 4 bytes)
-        let udf_input_size: usize = udf_input_buf.len() + SIZE_BYTE_COUNT;
-        let udf_input_len = i32::try_from(udf_input_buf.len()).map_err(|e| {
-            DataFusionError::Internal(format!("UDF input is too large: {e:?}"))
-        })?;
+        let udf_alloc_size = i32::try_from(udf_input_buf.len() + SIZE_BYTE_COUNT)
+            .map_err(|e| {
+                DataFusionError::Internal(format!("UDF input is too large: {e:?}"))
+            })?;
+        let udf_input_len = udf_alloc_size - SIZE_BYTE_COUNT as i32;
         // allocate WASM memory for input buffer
         let udf_input_ptr = self
             .alloc
-            .call(&mut self.store, udf_input_size.try_into().unwrap())
+            .call(&mut self.store, udf_alloc_size)
             .map_err(|e| {
                 DataFusionError::Internal(format!(
                     "Error allocating input buffer in WASM memory: {e:?}"
                 ))
             })?;
-        let ptr: usize = udf_input_ptr.try_into().unwrap();
+        let ptr = wasm_ptr_to_usize(udf_input_ptr)?;
         // write size of input buffer first
         self.memory
             .write(&mut self.store, ptr, &udf_input_len.to_ne_bytes())
@@ -212,7 +222,7 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        Ok((udf_input_ptr, udf_input_size.try_into().unwrap()))
+        Ok((udf_input_ptr, udf_alloc_size))
     }
 
     pub fn call(&mut self, input: Vec<Value>) -> Result<Value> {
-- 
2.43.0


From ddf2470f562516fed06b65825c6c33685f01faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 08/70] fix: report an error when a WASM function's types are
 unsupported or not the declared ones

---
 src/wasm_udf/wasm.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 3344fa0..65243c4 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -741,33 +741,36 @@ fn make_scalar_function_from_wasm(
         }
 
         // Convert the results back into Arrow (Arc<dyn Array>)
-        // These functions panic on type mismatches, which shouldn't happen because
-        // we pre-validated them above (unless the function returns a different type
-        // than it advertised)
+        // The function might return a different type than the one it was declared with
+        let unexpected_type = |r: &Val| {
+            DataFusionError::Execution(format!(
+                "Function {function_name:?} returned {r:?}, expected a value of type {return_type}"
+            ))
+        };
         let array = match return_type {
             ValType::I32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i32())
-                    .collect::<Int32Array>(),
+                    .map(|r| r.i32().ok_or_else(|| unexpected_type(r)))
+                    .collect::<Result<Int32Array>>()?,
             ) as ArrayRef,
             ValType::I64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_i64())
-                    .collect::<Int64Array>(),
+                    .map(|r| r.i64().ok_or_else(|| unexpected_type(r)))
+                    .collect::<Result<Int64Array>>()?,
             ) as ArrayRef,
             ValType::F32 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f32())
-                    .collect::<Float32Array>(),
+                    .map(|r| r.f32().ok_or_else(|| unexpected_type(r)))
+                    .collect::<Result<Float32Array>>()?,
             ) as ArrayRef,
             ValType::F64 => Arc::new(
                 results
                     .iter()
-                    .map(|r| r.unwrap_f64())
-                    .collect::<Float64Array>(),
+                    .map(|r| r.f64().ok_or_else(|| unexpected_type(r)))
+                    .collect::<Result<Float64Array>>()?,
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
@@ -796,8 +799,8 @@ pub fn create_udf_from_wasm(
         CreateFunctionLanguage::Wasm => {
             let converted_input_types = input_types
                 .iter()
-                .map(|t| get_wasm_type(t).unwrap())
-                .collect();
+                .map(get_wasm_type)
+                .collect::<Result<Vec<_>>>()?;
             make_scalar_function_from_wasm(
                 module_bytes,
                 function_name,
-- 
2.43.0


From dec276f5cdd975d841935f9c11b34b207eba9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 09/70] fix: let a WASM function have no arguments

---
 src/wasm_udf/wasm.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 65243c4..0636871 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -8,7 +8,7 @@ use datafusion::{
         array::{ArrayRef, Float32Array, Float64Array, Int32Array, Int64Array},
         datatypes::{DataType, TimeUnit},
     },
-    common::DataFusionError,
+    common::{DataFusionError, ScalarValue},
     logical_expr::{ScalarFunctionImplementation, ScalarUDF, Volatility},
 };
 
@@ -567,6 +567,15 @@ fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
         .collect::<Result<Vec<_>>>()
 }
 
+// The single value of a function without arguments applies to every row
+fn results_to_columnar_value(args: &[ArrayRef], array: ArrayRef) -> Result<ColumnarValue> {
+    if args.is_empty() {
+        Ok(ColumnarValue::Scalar(ScalarValue::try_from_array(&array, 0)?))
+    } else {
+        Ok(ColumnarValue::from(array))
+    }
+}
+
 fn make_scalar_function_wasm_messagepack(
     module_bytes: &[u8],
     function_name: &str,
@@ -602,8 +611,8 @@ fn make_scalar_function_wasm_messagepack(
 
         let args = columnar_values_to_array(args)?;
 
-        // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        // Length of the vectorized array (a function without arguments has a single value)
+        let array_len = args.first().map_or(1, |a| a.len());
 
         // Buffer for the results
         let mut encoded_results: Vec<Value> = Vec::with_capacity(array_len);
@@ -629,7 +638,7 @@ fn make_scalar_function_wasm_messagepack(
         }
 
         let array = messagepack_decode_results(&return_type, &encoded_results)?;
-        Ok(ColumnarValue::from(array))
+        results_to_columnar_value(&args, array)
     };
 
     Ok(Arc::new(inner))
@@ -692,8 +701,8 @@ fn make_scalar_function_from_wasm(
 
         let args = columnar_values_to_array(args)?;
 
-        // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        // Length of the vectorized array (a function without arguments has a single value)
+        let array_len = args.first().map_or(1, |a| a.len());
 
         // Buffer for the results
         let mut results: Vec<Val> = Vec::new();
@@ -774,7 +783,7 @@ fn make_scalar_function_from_wasm(
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
-        Ok(ColumnarValue::from(array))
+        results_to_columnar_value(&args, array)
     };
 
     Ok(Arc::new(inner))
-- 
2.43.0


From 84806a54677c8fda340e6e000d0f2b4b13f6ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 10/70] fix: accept another statement after a COPY

---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0452316..0bf354b 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -310,7 +310,7 @@ impl<'a> DFParser<'a> {
                     }
                 }
             } else {
-                let token = self.parser.next_token();
+                let token = self.parser.peek_token();
                 if token == Token::EOF || token == Token::SemiColon {
                     break;
                 } else {
-- 
2.43.0


From 6802c8312c65d3d960d865ec7356d1c8dc94282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 11/70] fix: keep OR REPLACE of statements other than CREATE
 FUNCTION

---
 src/datafusion/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0bf354b..d91f16d 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -388,8 +388,6 @@ impl<'a> DFParser<'a> {
 
     /// Parse a SQL CREATE statement
     pub fn parse_create(&mut self) -> Result<Statement, ParserError> {
-        let or_replace = self.parser.parse_keywords(&[Keyword::OR, Keyword::REPLACE]);
-
         if self.parser.parse_keyword(Keyword::EXTERNAL) {
             self.parse_create_external_table(false)
         } else if self.parser.parse_keyword(Keyword::UNBOUNDED) {
@@ -397,9 +395,16 @@ impl<'a> DFParser<'a> {
             self.parse_create_external_table(true)
         }
         // XXX SEAFOWL: this is the change to get CREATE FUNCTION parsing working
-        else if self.parser.parse_keyword(Keyword::FUNCTION) {
+        // (`OR REPLACE` of any other object is left for the native parser)
+        else if self.parser.parse_keywords(&[
+            Keyword::OR,
+            Keyword::REPLACE,
+            Keyword::FUNCTION,
+        ]) {
             // assume we don't have CREATE TEMPORARY FUNCTION (since we don't care about TEMPORARY)
-            self.parse_create_function(or_replace, false)
+            self.parse_create_function(true, false)
+        } else if self.parser.parse_keyword(Keyword::FUNCTION) {
+            self.parse_create_function(false, false)
         // XXX SEAFOWL: change ends here
         } else {
             Ok(Statement::Statement(Box::from(self.parser.parse_create()?)))
-- 
2.43.0


From 66ef452a93ca7b7824643a32a161ca70f1320f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 12/70] fix: refuse a qualified name as the target of VACUUM
 DATABASE

---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index d91f16d..355fd5d 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -212,7 +212,7 @@ impl<'a> DFParser<'a> {
         if self.parser.parse_keyword(Keyword::TABLE) {
             table_name = self.parser.parse_object_name(true)?;
         } else if self.parser.parse_keyword(Keyword::DATABASE) {
-            let database_name = self.parser.parse_object_name(false)?.0[0].clone();
+            let database_name = self.parser.parse_identifier(false)?;
             partitions = Some(vec![Expr::Identifier(database_name)]);
         } else {
             return self.expected(
-- 
2.43.0


From 39d55fe00872cda5fdcb9eda20e9c84a05f41a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 13/70] fix: check the range of a decimal's precision and scale
 before narrowing them

---
 src/datafusion/utils.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/datafusion/utils.rs b/src/datafusion/utils.rs
index 440a730..1f2875e 100644
--- a/src/datafusion/utils.rs
+++ b/src/datafusion/utils.rs
@@ -185,25 +185,28 @@ pub(crate) fn make_decimal_type(
 ) -> Result<DataType> {
     // postgres like behavior
     let (precision, scale) = match (precision, scale) {
-        (Some(p), Some(s)) => (p as u8, s as i8),
-        (Some(p), None) => (p as u8, 0),
+        (Some(p), Some(s)) => (p, s),
+        (Some(p), None) => (p, 0),
         (None, Some(_)) => {
             return Err(DataFusionError::Internal(
                 "Cannot specify only scale for decimal data type".to_string(),
             ))
         }
-        (None, None) => (DECIMAL128_MAX_PRECISION, DECIMAL_DEFAULT_SCALE),
+        (None, None) => (
+            DECIMAL128_MAX_PRECISION as u64,
+            DECIMAL_DEFAULT_SCALE as u64,
+        ),
     };
 
     // Arrow decimal is i128 meaning 38 maximum decimal digits
     if precision == 0
-        || precision > DECIMAL128_MAX_PRECISION
-        || scale.unsigned_abs() > precision
+        || precision > DECIMAL128_MAX_PRECISION as u64
+        || scale > precision
     {
         Err(DataFusionError::Internal(format!(
             "Decimal(precision = {precision}, scale = {scale}) should satisfy `0 < precision <= 38`, and `scale <= precision`."
         )))
     } else {
-        Ok(DataType::Decimal128(precision, scale))
+        Ok(DataType::Decimal128(precision as u8, scale as i8))
     }
 }
-- 
2.43.0


From cd9d44d4bf929a28f8fb0154192e5e3853aa2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:48 +0000
Subject: [PATCH 14/70] fix: parenthesise operands in the filters sent to
 remote tables

---
 .../src/filter_pushdown.rs                    | 86 ++++++++++++-------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 2050e4c..8d67064 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -26,6 +26,32 @@ impl<T: FilterPushdownConverter> FilterPushdownVisitor<T> {
             .pop()
             .expect("No SQL expression in the stack")
     }
+
+    // Pop the SQL representation of the only operand of an expression, with parenthesis around it
+    // if it could otherwise get mixed up with the rest of the expression.
+    fn pop_sql_operand(&mut self, operand: &Expr) -> String {
+        let operand_sql = self.pop_sql_expr();
+        if is_compound(operand) {
+            format!("({operand_sql})")
+        } else {
+            operand_sql
+        }
+    }
+}
+
+// Whether the SQL representation of an expression consists of an operator and bare operands.
+fn is_compound(expr: &Expr) -> bool {
+    !matches!(expr, Expr::Column(_) | Expr::Literal(_) | Expr::Negative(_))
+}
+
+// Whether an operand of a binary operator must be parenthesised. The remote systems only agree on
+// the (relative) precedence of the logical operators, and not on the one of all others.
+fn needs_parenthesis(op: &Operator, operand: &Expr) -> bool {
+    match (op, operand) {
+        (Operator::And, Expr::BinaryExpr(be)) => be.op == Operator::Or,
+        (Operator::And | Operator::Or, _) => false,
+        _ => is_compound(operand),
+    }
 }
 
 pub struct PostgresFilterPushdown {}
@@ -162,20 +188,14 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 let mut right_sql = self.pop_sql_expr();
                 let mut left_sql = self.pop_sql_expr();
 
-                // Similar as in Display impl for BinaryExpr: since the Expr has an implicit operator
-                // precedence we need to convert it to an explicit one using extra parenthesis if the
-                // left/right expression is also a BinaryExpr of lower operator precedence.
-                if let Expr::BinaryExpr(right_be @ BinaryExpr { .. }) = &*be.right {
-                    let p = right_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        right_sql = format!("({right_sql})")
-                    }
+                // Since the Expr has an implicit operator precedence we need to convert it to an
+                // explicit one using extra parenthesis where the left/right expression wouldn't
+                // otherwise bind tighter than this operator in every remote system.
+                if needs_parenthesis(&be.op, &be.right) {
+                    right_sql = format!("({right_sql})")
                 }
-                if let Expr::BinaryExpr(left_be @ BinaryExpr { .. }) = &*be.left {
-                    let p = left_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        left_sql = format!("({left_sql})")
-                    }
+                if needs_parenthesis(&be.op, &be.left) {
+                    left_sql = format!("({left_sql})")
                 }
 
                 let op_sql = self.source.op_to_sql(&be.op).ok_or_else(|| {
@@ -188,44 +208,48 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 self.sql_exprs
                     .push(format!("{left_sql} {op_sql} {right_sql}"))
             }
-            Expr::Not(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Not(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("NOT {inner_sql}"));
             }
-            Expr::Negative(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Negative(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("(- {inner_sql})"));
             }
-            Expr::IsNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNull(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NULL"));
             }
-            Expr::IsNotNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotNull(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT NULL"));
             }
-            Expr::IsTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsTrue(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS TRUE"));
             }
-            Expr::IsFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsFalse(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS FALSE"));
             }
-            Expr::IsNotTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotTrue(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT TRUE"));
             }
-            Expr::IsNotFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotFalse(inner) => {
+                let inner_sql = self.pop_sql_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT FALSE"));
             }
-            Expr::InList(InList { list, negated, .. }) => {
+            Expr::InList(InList {
+                expr: inner,
+                list,
+                negated,
+            }) => {
                 // The N elements of the list are on the top of the stack, we need to pop them first
                 let index = self.sql_exprs.len() - list.len();
                 let list_sql = self.sql_exprs.split_off(index).iter().join(", ");
                 // Now consume the expression
-                let expr_sql = self.pop_sql_expr();
+                let expr_sql = self.pop_sql_operand(inner);
                 if *negated {
                     self.sql_exprs
                         .push(format!("{expr_sql} NOT IN ({list_sql})"));
-- 
2.43.0


From 4b97c522ea7889d3b0928a807ed4609d94416d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:48 +0000
Subject: [PATCH 15/70] fix: only send operators to remote tables that mean the
 same there

---
 .../src/filter_pushdown.rs                    | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 8d67064..843ac54 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -58,7 +58,14 @@ pub struct PostgresFilterPushdown {}
 pub struct SQLiteFilterPushdown {}
 pub struct MySQLFilterPushdown {}
 
-impl FilterPushdownConverter for PostgresFilterPushdown {}
+impl FilterPushdownConverter for PostgresFilterPushdown {
+    fn op_to_sql(&self, op: &Operator) -> Option<String> {
+        match op {
+            Operator::BitwiseXor => Some("#".to_string()),
+            _ => Some(op.to_string()),
+        }
+    }
+}
 
 impl FilterPushdownConverter for SQLiteFilterPushdown {
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
@@ -67,6 +74,12 @@ impl FilterPushdownConverter for SQLiteFilterPushdown {
             | Operator::RegexIMatch
             | Operator::RegexNotMatch
             | Operator::RegexNotIMatch
+            | Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt
             | Operator::BitwiseXor => None,
             _ => Some(op.to_string()),
         }
@@ -82,6 +95,18 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
             Operator::RegexIMatch | Operator::RegexNotIMatch => None,
+            // These are either missing or have a different meaning in MySQL (`||` is a logical
+            // operator and `/` isn't an integer division there)
+            Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt
+            | Operator::IsDistinctFrom
+            | Operator::IsNotDistinctFrom
+            | Operator::StringConcat
+            | Operator::Divide => None,
             Operator::RegexMatch => Some("RLIKE".to_string()),
             Operator::RegexNotMatch => Some("NOT RLIKE".to_string()),
             Operator::BitwiseXor => Some("^".to_string()),
-- 
2.43.0


From 6ec2b4e7ff838de43ac8cf6a0eb468e217717e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:17 +0000
Subject: [PATCH 16/70] fix: only send literals to remote tables that have a
 faithful SQL form

---
 .../src/filter_pushdown.rs                    | 53 ++++++++++++++-----
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 843ac54..9e43f24 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -9,6 +9,7 @@ use datafusion_common::tree_node::{TreeNode, TreeNodeRecursion, TreeNodeVisitor}
 use datafusion_expr::expr::InList;
 use datafusion_expr::{BinaryExpr, Expr, Operator};
 use itertools::Itertools;
+use std::fmt::Display;
 
 pub struct FilterPushdownVisitor<T: FilterPushdownConverter> {
     pub source: T,
@@ -115,6 +116,13 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
     }
 }
 
+// Only dates with a four-digit year (i.e. those without a sign) have a common textual representation
+fn datetime_to_sql(datetime: impl Display) -> Option<String> {
+    let datetime = datetime.to_string();
+    (datetime.starts_with(|c: char| c.is_ascii_digit()) && !datetime.starts_with("0000"))
+        .then(|| format!("'{datetime}'"))
+}
+
 pub trait FilterPushdownConverter {
     fn col_to_sql(&self, col: &Column) -> String {
         quote_identifier_double_quotes(&col.name)
@@ -122,38 +130,55 @@ pub trait FilterPushdownConverter {
 
     fn scalar_value_to_sql(&self, value: &ScalarValue) -> Option<String> {
         match value {
-            ScalarValue::Utf8(Some(val)) | ScalarValue::LargeUtf8(Some(val)) => {
-                Some(format!("'{}'", val.replace('\'', "''")))
-            }
+            ScalarValue::Utf8(Some(val))
+            | ScalarValue::LargeUtf8(Some(val))
+            | ScalarValue::Utf8View(Some(val)) => self.string_to_sql(val),
+            ScalarValue::Dictionary(_, val) => self.scalar_value_to_sql(val),
             ScalarValue::Date32(Some(days)) => {
-                let date = date32_to_datetime(*days)?.date();
-                Some(format!("'{date}'"))
+                datetime_to_sql(date32_to_datetime(*days)?.date())
             }
             ScalarValue::Date64(Some(t_ms))
             | ScalarValue::TimestampMillisecond(Some(t_ms), None) => {
-                let timestamp = timestamp_ms_to_datetime(*t_ms)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_ms_to_datetime(*t_ms)?)
             }
             ScalarValue::TimestampSecond(Some(t_s), None) => {
-                let timestamp = timestamp_s_to_datetime(*t_s)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_s_to_datetime(*t_s)?)
             }
             ScalarValue::TimestampMicrosecond(Some(t_us), None) => {
-                let timestamp = timestamp_us_to_datetime(*t_us)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_us_to_datetime(*t_us)?)
             }
             ScalarValue::TimestampNanosecond(Some(t_ns), None) => {
-                let timestamp = timestamp_ns_to_datetime(*t_ns)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_ns_to_datetime(*t_ns)?)
             }
             ScalarValue::TimestampSecond(_, Some(_))
             | ScalarValue::TimestampMillisecond(_, Some(_))
             | ScalarValue::TimestampMicrosecond(_, Some(_))
             | ScalarValue::TimestampNanosecond(_, Some(_)) => None,
-            _ => Some(format!("{value}")),
+            // The shortest representation of a 32-bit float is that of a different 64-bit one
+            ScalarValue::Float32(Some(val)) => {
+                val.is_finite().then(|| format!("{}", f64::from(*val)))
+            }
+            ScalarValue::Float64(Some(val)) => val.is_finite().then(|| format!("{val}")),
+            ScalarValue::Null
+            | ScalarValue::Boolean(_)
+            | ScalarValue::Int8(_)
+            | ScalarValue::Int16(_)
+            | ScalarValue::Int32(_)
+            | ScalarValue::Int64(_)
+            | ScalarValue::UInt8(_)
+            | ScalarValue::UInt16(_)
+            | ScalarValue::UInt32(_)
+            | ScalarValue::UInt64(_) => Some(format!("{value}")),
+            // The default string representation of other types isn't an SQL literal
+            _ => value.is_null().then(|| "NULL".to_string()),
         }
     }
 
+    fn string_to_sql(&self, val: &str) -> Option<String> {
+        // The NUL character can't be a part of the query text
+        (!val.contains('\0')).then(|| format!("'{}'", val.replace('\'', "''")))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         Some(op.to_string())
     }
-- 
2.43.0


From ed9dfac656be9bc393ad14e5cd18f5b0d95838fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:17 +0000
Subject: [PATCH 17/70] fix: escape backslashes in the strings sent to MySQL

---
 datafusion_remote_tables/src/filter_pushdown.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 9e43f24..7c83920 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -92,6 +92,12 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         quote_identifier_backticks(&col.name)
     }
 
+    // Unlike in the other systems the backslash is an escape character in MySQL strings
+    fn string_to_sql(&self, val: &str) -> Option<String> {
+        (!val.contains('\0'))
+            .then(|| format!("'{}'", val.replace('\\', "\\\\").replace('\'', "''")))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
-- 
2.43.0


From 121949a2af1e93ceaac21bfe3110c185ef46462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 18/70] fix: cached range reads across or past an object's end,
 of empty ranges, and of files still being written

---
 src/object_store/cache.rs | 70 ++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 5b045de..740614f 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -64,12 +64,18 @@ impl CacheFileManager {
         Ok(path)
     }
 
-    async fn read_file(&self, path: impl AsRef<Path>) -> io::Result<Bytes> {
+    async fn read_file(&self, path: impl AsRef<Path>, size: usize) -> io::Result<Bytes> {
         let start = Instant::now();
-        tokio::fs::read(path).await.map(|v| {
-            self.metrics.log_cache_disk_read(start, v.len());
-            Bytes::from(v)
-        })
+        let data = tokio::fs::read(path).await?;
+        // Another task may still be writing the same chunk to this file
+        if data.len() != size {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                format!("expected {size} bytes but found {}", data.len()),
+            ));
+        }
+        self.metrics.log_cache_disk_read(start, data.len());
+        Ok(Bytes::from(data))
     }
 
     async fn remove_file(&self, path: impl AsRef<Path> + Debug) -> io::Result<()> {
@@ -333,6 +339,11 @@ impl CachingObjectStore {
                 .decrement(value.size() as f64);
         };
 
+        if cause == RemovalCause::Replaced {
+            // The new value lives in the same file, if any.
+            return;
+        }
+
         if let CacheValue::File(path, _) = value {
             // Remove the data file. We must handle error cases here to
             // prevent the listener from panicking.
@@ -454,6 +465,7 @@ impl CachingObjectStore {
         );
 
         let mut chunk_batch = vec![];
+        let mut end_of_object = false;
         for chunk in start_chunk..=end_chunk {
             let chunk_range = (chunk * self.min_fetch_size as usize)
                 ..((chunk + 1) * self.min_fetch_size as usize);
@@ -477,9 +489,9 @@ impl CachingObjectStore {
                             self.metrics.log_cache_memory_read(data.len());
                             Some(data.clone())
                         }
-                        CacheValue::File(path, _) => {
+                        CacheValue::File(path, size) => {
                             debug!("Cache value for {key:?} fetching from the file");
-                            match self.file_manager.read_file(path).await {
+                            match self.file_manager.read_file(path, size).await {
                                 Ok(data) => Some(data),
                                 Err(err) => {
                                     warn!(
@@ -514,13 +526,17 @@ impl CachingObjectStore {
                 debug!("{location}-{batch_range:?} fetched");
                 result.extend_from_slice(&batch_data);
 
+                end_of_object =
+                    batch_data.len() < chunk_batch.len() * self.min_fetch_size as usize;
+
                 for key in &chunk_batch {
-                    // Split the next chunk from the batch
-                    let data = if batch_data.len() < self.min_fetch_size as usize {
-                        batch_data.clone()
-                    } else {
-                        batch_data.split_to(self.min_fetch_size as usize)
-                    };
+                    // Split the next chunk from the batch; the object may end before the
+                    // last chunk does, in which case there's nothing left to cache.
+                    let data = batch_data
+                        .split_to(batch_data.len().min(self.min_fetch_size as usize));
+                    if data.is_empty() {
+                        break;
+                    }
 
                     self.cache_chunk_data(key.clone(), data).await;
                 }
@@ -531,6 +547,12 @@ impl CachingObjectStore {
             // Finally append the current chunk data (if not included in the batch above).
             if let Some(data) = chunk_data {
                 result.extend_from_slice(&data);
+                end_of_object |= data.len() < self.min_fetch_size as usize;
+            }
+
+            // A short chunk is the last one, don't ask for anything past it.
+            if end_of_object {
+                break;
             }
         }
 
@@ -660,9 +682,13 @@ impl ObjectStore for CachingObjectStore {
         self.metrics.get_range_calls.increment(1);
         self.metrics
             .get_range_bytes
-            .increment((range.end - range.start).try_into().unwrap());
+            .increment(range.len().try_into().unwrap());
 
         debug!("{location}-{range:?} get_range");
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         // Expand the range to the next max_fetch_size (+ alignment)
         let start_chunk = range.start / self.min_fetch_size as usize;
         // The final chunk to fetch (inclusively). E.g. with min_fetch_size = 16:
@@ -670,14 +696,20 @@ impl ObjectStore for CachingObjectStore {
         //  - range.end == 65 (get bytes 0..64 exclusive) -> final chunk is 64 / 16 = 4 (64..72 exclusive)
         let end_chunk = (range.end - 1) / self.min_fetch_size as usize;
 
-        let mut data = self
-            .get_chunk_range(location, start_chunk, end_chunk)
-            .await?;
+        let offset = range.start - start_chunk * self.min_fetch_size as usize;
+
+        let mut data = match self.get_chunk_range(location, start_chunk, end_chunk).await
+        {
+            Ok(data) if data.len() > offset => data,
+            Err(err) if start_chunk == end_chunk => return Err(err),
+            // The range starts past the end of the object, or a fetch failed, possibly because
+            // the missing chunks lie past the end: let the store answer for the range itself.
+            _ => return self.get_range_inner(location, range).await,
+        };
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
-        let offset = range.start - start_chunk * self.min_fetch_size as usize;
         data.advance(offset);
-        data.truncate(range.end - range.start);
+        data.truncate(range.len());
         debug!("{location}-{range:?} return");
         Ok(data)
     }
-- 
2.43.0


From 4e9b0b179319778ef679692378162d5a28ea7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 19/70] fix: keep the reserved-memory gauge right under
 concurrent reservations

---
 src/memory_pool.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/memory_pool.rs b/src/memory_pool.rs
index 739eaad..b66ea95 100644
--- a/src/memory_pool.rs
+++ b/src/memory_pool.rs
@@ -90,17 +90,13 @@ impl MemoryPool for MemoryPoolMetrics {
 
     fn grow(&self, reservation: &MemoryReservation, additional: usize) {
         self.inner.grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.increment(additional as f64);
         Metrics::register_allocation(reservation, additional, true)
     }
 
     fn shrink(&self, reservation: &MemoryReservation, shrink: usize) {
         self.inner.shrink(reservation, shrink);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.decrement(shrink as f64);
         Metrics::register_deallocation(reservation, shrink)
     }
 
@@ -110,9 +106,9 @@ impl MemoryPool for MemoryPoolMetrics {
         additional: usize,
     ) -> datafusion_common::Result<()> {
         let result = self.inner.try_grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        if result.is_ok() {
+            self.metrics.memory_reserved.increment(additional as f64);
+        }
 
         Metrics::register_allocation(reservation, additional, result.is_ok());
 
-- 
2.43.0


From f129eec806ef12b62e8ad701ab6fe37598bab34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 20/70] fix: strip the Bearer prefix from the authorization
 header only once

---
 src/frontend/http.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index b55e619..cb9fefb 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -238,11 +238,9 @@ fn header_to_user_context(
 ) -> Result<UserContext, ApiError> {
     let token = header
         .map(|h| {
-            if h.starts_with(BEARER_PREFIX) {
-                Ok(h.trim_start_matches(BEARER_PREFIX).to_string())
-            } else {
-                Err(ApiError::InvalidAuthorizationHeader)
-            }
+            h.strip_prefix(BEARER_PREFIX)
+                .map(|t| t.to_string())
+                .ok_or(ApiError::InvalidAuthorizationHeader)
         })
         .transpose()?;
 
-- 
2.43.0


From d892e20d0066cb523eadcdb862fa1602adec4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 21/70] fix: require read access for a read that follows writes
 in a multi-statement query

---
 src/frontend/http.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index cb9fefb..8222dd2 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -182,13 +182,12 @@ pub async fn uncached_read_write_query(
         .count();
 
     // Check for authorization
-    if !user_context.can_perform_action(if reads == statements.len() {
-        Action::Read
-    } else {
-        Action::Write
-    }) {
+    if reads < statements.len() && !user_context.can_perform_action(Action::Write) {
         return Err(ApiError::WriteForbidden);
     };
+    if reads > 0 && !user_context.can_perform_action(Action::Read) {
+        return Err(ApiError::ReadForbidden);
+    };
 
     // If we have a read statement, make sure it's the last and only one (that's the only one
     // we'll return actual results for)
-- 
2.43.0


From 5380d82cd11c00afc9b64a65adc50b4e3be800ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 22/70] fix: require write access for SELECT INTO and for
 EXPLAIN ANALYZE of a write

---
 src/context/logical.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 78fa6e7..4f1fb17 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -28,7 +28,7 @@ use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
     CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
-    Statement, TableFactor, TableWithJoins, Value, VisitMut,
+    SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
 use tracing::debug;
@@ -46,17 +46,37 @@ pub fn is_read_only(plan: &LogicalPlan) -> bool {
 
 pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     if let DFStatement::Statement(s) = statement {
-        matches!(
-            **s,
-            Statement::Query(_)
-                | Statement::Explain { .. }
-                | Statement::ShowTables { .. }
-        )
+        is_sql_statement_read_only(s)
     } else {
         false
     }
 }
 
+fn is_sql_statement_read_only(statement: &Statement) -> bool {
+    match statement {
+        Statement::Query(query) => is_set_expr_read_only(&query.body),
+        // EXPLAIN ANALYZE executes the statement
+        Statement::Explain {
+            analyze, statement, ..
+        } => !analyze || is_sql_statement_read_only(statement),
+        Statement::ShowTables { .. } => true,
+        _ => false,
+    }
+}
+
+// A query can also write: `SELECT ... INTO` creates a table
+fn is_set_expr_read_only(body: &SetExpr) -> bool {
+    match body {
+        SetExpr::Select(select) => select.into.is_none(),
+        SetExpr::Query(query) => is_set_expr_read_only(&query.body),
+        SetExpr::SetOperation { left, right, .. } => {
+            is_set_expr_read_only(left) && is_set_expr_read_only(right)
+        }
+        SetExpr::Insert(_) | SetExpr::Update(_) => false,
+        SetExpr::Values(_) | SetExpr::Table(_) => true,
+    }
+}
+
 impl SeafowlContext {
     pub async fn create_logical_plan(&self, sql: &str) -> Result<LogicalPlan> {
         let mut statements = self.parse_query(sql).await?;
-- 
2.43.0


From b80a206172d372796d96655fafcfc5501f9a98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:25 +0000
Subject: [PATCH 23/70] fix: cover subqueries and sources without a version in
 the ETag of a query

---
 src/frontend/http.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 8222dd2..199c1ed 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -63,6 +63,8 @@ const VARY: &str = "Authorization, Content-Type, Origin, X-Seafowl-Query";
 #[derive(Default)]
 struct ETagBuilderVisitor {
     table_versions: Vec<u8>,
+    // Whether there's a source for which we can't tell if it has changed
+    has_unversioned_sources: bool,
 }
 
 impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
@@ -74,19 +76,17 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
     ) -> Result<TreeNodeRecursion, DataFusionError> {
         if let LogicalPlan::TableScan(TableScan { source, .. }) = plan {
             // TODO handle external Parquet tables too
-            if let Some(default_table_source) =
-                source.as_any().downcast_ref::<DefaultTableSource>()
+            if let Some(table) = source
+                .as_any()
+                .downcast_ref::<DefaultTableSource>()
+                .and_then(|s| s.table_provider.as_any().downcast_ref::<DeltaTable>())
             {
-                if let Some(table) = default_table_source
-                    .table_provider
-                    .as_any()
-                    .downcast_ref::<DeltaTable>()
-                {
-                    self.table_versions
-                        .extend(table.table_uri().as_bytes().to_vec());
-                    self.table_versions
-                        .extend(table.version().as_bytes().to_vec());
-                }
+                self.table_versions
+                    .extend(table.table_uri().as_bytes().to_vec());
+                self.table_versions
+                    .extend(table.version().as_bytes().to_vec());
+            } else {
+                self.has_unversioned_sources = true;
             }
         }
         Ok(TreeNodeRecursion::Continue)
@@ -95,7 +95,14 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
 
 fn plan_to_etag(plan: &LogicalPlan) -> String {
     let mut visitor = ETagBuilderVisitor::default();
-    plan.visit(&mut visitor).unwrap();
+    plan.visit_with_subqueries(&mut visitor).unwrap();
+
+    if visitor.has_unversioned_sources {
+        // Never let such a result be re-validated
+        visitor
+            .table_versions
+            .extend(uuid::Uuid::new_v4().as_bytes().to_vec());
+    }
 
     debug!("Extracted table versions: {:?}", visitor.table_versions);
 
-- 
2.43.0


From 50f4ebe91c6ccf7f49893f915ec21e08741d488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:11 +0000
Subject: [PATCH 24/70] fix: refuse an upload's file type before using it in
 the name of a temporary file

---
 src/frontend/http.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 199c1ed..c6ead40 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -442,6 +442,11 @@ pub async fn upload(
                 })?
                 .to_string();
 
+            // Don't let anything else become a part of the temporary file's path
+            if file_type != "csv" && file_type != "parquet" {
+                return Err(ApiError::UploadUnsupportedFileFormat(filename));
+            }
+
             temp_file = tempfile::Builder::new()
                 .suffix(&format!(".{file_type}"))
                 .tempfile()?;
-- 
2.43.0


From 2e724483f8468f3c6b04c98832bba91e43b874c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:51 +0000
Subject: [PATCH 25/70] fix: refuse UPDATE ... FROM instead of ignoring the
 FROM

---
 src/context/logical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 4f1fb17..2252501 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -142,6 +142,7 @@ impl SeafowlContext {
                 }
                 Statement::Update {
                     table: TableWithJoins {relation: TableFactor::Table { alias: None, args: None, with_hints, .. }, joins },
+                    from: None,
                     ..
                 }
                 // We only support the most basic form of UPDATE (no aliases or FROM or joins)
-- 
2.43.0


From 43ff10f1128a731a39d4d79dfa77897a24ee4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 26/70] fix: don't leave an empty table behind when CREATE
 TABLE AS or an upload fails

---
 src/context/delta.rs    | 140 +++++++++++++++++++++++++++++-----------
 src/context/physical.rs |  13 ++--
 2 files changed, 109 insertions(+), 44 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c1e894c..a94797f 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -268,6 +268,8 @@ pub async fn plan_to_delta_adds(
 
 pub enum CreateDeltaTableDetails {
     EmptyTable(Schema),
+    // A table with the rows that the plan produces
+    FromPlan(Arc<dyn ExecutionPlan>),
     FromPath(Path),
 }
 
@@ -289,32 +291,29 @@ impl SeafowlContext {
             .get(&self.default_catalog, &schema_name)
             .await?;
 
-        // NB: there's also a uuid generated below for table's `DeltaTableMetaData::id`, so it would
-        // be nice if those two could match somehow
+        // The version that has the initial rows, if there are any
+        let mut data_version = None;
+
         let (table_uuid, table) = match details {
             CreateDeltaTableDetails::EmptyTable(schema) => {
-                // TODO: we could be doing this inside the DB itself (i.e. `... DEFAULT gen_random_uuid()`
-                // in Postgres and `... DEFAULT (uuid())` in SQLite) however we won't be able to do it until
-                // sqlx 0.7 is released (which has libsqlite3-sys > 0.25, with the SQLite version that has
-                // the `uuid()` function).
-                // Then we could create the table in our catalog first and try to create the delta table itself
-                // with the returned uuid (and delete the catalog entry if the object store creation fails).
-                // On the other hand that would complicate etag testing logic.
-                let table_uuid = get_uuid();
-                let table_log_store =
-                    internal_object_store.get_log_store(&table_uuid.to_string());
-                let delta_schema = DeltaSchema::try_from(&schema)?;
+                self.init_delta_table(&table_name, &schema).await?
+            }
+            CreateDeltaTableDetails::FromPlan(plan) => {
+                let (table_uuid, _) =
+                    self.init_delta_table(&table_name, &plan.schema()).await?;
 
-                let table = CreateBuilder::new()
-                    .with_log_store(table_log_store)
-                    .with_table_name(&*table_name)
-                    .with_columns(delta_schema.fields().cloned())
-                    .with_comment(format!(
-                        "Created by Seafowl {}",
-                        env!("CARGO_PKG_VERSION")
-                    ))
-                    .await?;
-                (table_uuid, table)
+                // Only make the table known once all of its rows are in
+                match self.append_plan(table_uuid, &plan).await {
+                    Ok((mut table, version)) => {
+                        table.load().await?;
+                        data_version = Some(version);
+                        (table_uuid, table)
+                    }
+                    Err(e) => {
+                        self.discard_table_objects(table_uuid).await;
+                        return Err(e);
+                    }
+                }
             }
             CreateDeltaTableDetails::FromPath(path) => {
                 // For now interpret the path as containing only the final UUID table prefix,
@@ -362,7 +361,8 @@ impl SeafowlContext {
         // tables and their schemas in bulk to satisfy information_schema queries.
         // Another is to keep track of table uuid's, which are used to construct the table uri.
         // We may look into doing this via delta-rs somehow eventually.
-        self.metastore
+        let created = self
+            .metastore
             .tables
             .create(
                 &self.default_catalog,
@@ -371,7 +371,21 @@ impl SeafowlContext {
                 TableProvider::schema(&table).as_ref(),
                 table_uuid,
             )
-            .await?;
+            .await;
+
+        if let Err(e) = created {
+            if data_version.is_some() {
+                self.discard_table_objects(table_uuid).await;
+            }
+            return Err(e.into());
+        }
+
+        if let Some(version) = data_version {
+            self.metastore
+                .tables
+                .create_new_version(table_uuid, version)
+                .await?;
+        }
 
         let table = Arc::new(table);
         self.inner.register_table(resolved_ref, table.clone())?;
@@ -379,6 +393,50 @@ impl SeafowlContext {
         Ok(table)
     }
 
+    // Clean up after a table that didn't come into being
+    async fn discard_table_objects(&self, table_uuid: Uuid) {
+        let result = match self.get_internal_object_store() {
+            Ok(store) => {
+                let prefix = store.table_prefix(&table_uuid.to_string());
+                store.delete_in_prefix(&prefix).await.map_err(|e| e.into())
+            }
+            Err(e) => Err(e),
+        };
+        result.unwrap_or_else(|e| {
+            warn!("Failed to clean up the objects of table {table_uuid}: {e}")
+        });
+    }
+
+    // Write out the log of a new, empty table
+    async fn init_delta_table(
+        &self,
+        table_name: &str,
+        schema: &Schema,
+    ) -> Result<(Uuid, DeltaTable)> {
+        // NB: there's also a uuid generated below for table's `DeltaTableMetaData::id`, so it would
+        // be nice if those two could match somehow
+        // TODO: we could be doing this inside the DB itself (i.e. `... DEFAULT gen_random_uuid()`
+        // in Postgres and `... DEFAULT (uuid())` in SQLite) however we won't be able to do it until
+        // sqlx 0.7 is released (which has libsqlite3-sys > 0.25, with the SQLite version that has
+        // the `uuid()` function).
+        // Then we could create the table in our catalog first and try to create the delta table itself
+        // with the returned uuid (and delete the catalog entry if the object store creation fails).
+        // On the other hand that would complicate etag testing logic.
+        let table_uuid = get_uuid();
+        let table_log_store = self
+            .get_internal_object_store()?
+            .get_log_store(&table_uuid.to_string());
+        let delta_schema = DeltaSchema::try_from(schema)?;
+
+        let table = CreateBuilder::new()
+            .with_log_store(table_log_store)
+            .with_table_name(table_name)
+            .with_columns(delta_schema.fields().cloned())
+            .with_comment(format!("Created by Seafowl {}", env!("CARGO_PKG_VERSION")))
+            .await?;
+        Ok((table_uuid, table))
+    }
+
     /// Generate the Delta table builder and execute the write
     pub async fn plan_to_delta_table(
         &self,
@@ -386,6 +444,26 @@ impl SeafowlContext {
         plan: &Arc<dyn ExecutionPlan>,
     ) -> Result<DeltaTable> {
         let table_uuid = self.get_table_uuid(name).await?;
+        let (table, version) = self.append_plan(table_uuid, plan).await?;
+
+        // TODO: if `DeltaTable::get_version_timestamp` was globally public we could also pass the
+        // exact version timestamp, instead of creating one automatically in our own catalog (which
+        // could lead to minor timestamp differences).
+        self.metastore
+            .tables
+            .create_new_version(table_uuid, version)
+            .await?;
+
+        debug!("Written table version {} for {table}", version);
+        Ok(table)
+    }
+
+    // Write the results of a plan into the files of a table, and commit them into its log
+    async fn append_plan(
+        &self,
+        table_uuid: Uuid,
+        plan: &Arc<dyn ExecutionPlan>,
+    ) -> Result<(DeltaTable, i64)> {
         let prefix = table_uuid.to_string();
         let internal_object_store = self.get_internal_object_store()?;
         let table_log_store = internal_object_store.get_log_store(&prefix);
@@ -413,17 +491,7 @@ impl SeafowlContext {
         };
 
         let version = self.commit_delta_table(actions, &table, op).await?;
-
-        // TODO: if `DeltaTable::get_version_timestamp` was globally public we could also pass the
-        // exact version timestamp, instead of creating one automatically in our own catalog (which
-        // could lead to minor timestamp differences).
-        self.metastore
-            .tables
-            .create_new_version(table_uuid, version)
-            .await?;
-
-        debug!("Written table version {} for {table}", version);
-        Ok(table)
+        Ok((table, version))
     }
 
     pub async fn commit_delta_table(
diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddbd5ab..3f0cb38 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -177,16 +177,14 @@ impl SeafowlContext {
                 let plan = self.inner.state().create_physical_plan(input).await?;
                 let plan = self.coerce_plan(plan).await?;
 
-                // First create the table and then insert the data from the subquery
                 // TODO: this means we'll have 2 table versions at the end, 1st from the create
                 // and 2nd from the insert, while it seems more reasonable that in this case we have
                 // only one
                 self.create_delta_table(
                     name.clone(),
-                    CreateDeltaTableDetails::EmptyTable(plan.schema().as_ref().clone()),
+                    CreateDeltaTableDetails::FromPlan(plan),
                 )
                 .await?;
-                self.plan_to_delta_table(name.clone(), &plan).await?;
 
                 Ok(make_dummy_exec())
             }
@@ -994,11 +992,10 @@ impl SeafowlContext {
         };
 
         if !table_exists {
-            self.create_delta_table(
-                table_ref.clone(),
-                CreateDeltaTableDetails::EmptyTable(plan.schema().as_ref().clone()),
-            )
-            .await?;
+            let table = self
+                .create_delta_table(table_ref, CreateDeltaTableDetails::FromPlan(plan))
+                .await?;
+            return Ok(table.as_ref().clone());
         }
 
         self.plan_to_delta_table(table_ref, &plan).await
-- 
2.43.0


From d3a412204e17a339ada4758ef3d76cc69f357696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 27/70] fix: drop an import that is no longer used

---
 src/frontend/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index c6ead40..e544897 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -17,7 +17,7 @@ use bytes::Buf;
 use datafusion::datasource::DefaultTableSource;
 
 use datafusion::physical_plan::ExecutionPlan;
-use datafusion_common::tree_node::{TreeNode, TreeNodeRecursion, TreeNodeVisitor};
+use datafusion_common::tree_node::{TreeNodeRecursion, TreeNodeVisitor};
 use datafusion_expr::logical_plan::{LogicalPlan, TableScan};
 use deltalake::parquet::data_type::AsBytes;
 use deltalake::DeltaTable;
-- 
2.43.0


From 53b6580577fa5b5919a54a2bb05c09e6d510c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 28/70] fix: answer with an error when an uploaded file makes
 its reader panic

---
 src/frontend/http.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index e544897..9ea3c0b 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -2,6 +2,7 @@ use arrow::error::ArrowError;
 use datafusion::error::DataFusionError;
 use std::fmt::Debug;
 use std::io::Write;
+use std::panic::AssertUnwindSafe;
 use std::time::Instant;
 use std::{net::SocketAddr, sync::Arc};
 use warp::{hyper, Rejection};
@@ -21,7 +22,7 @@ use datafusion_common::tree_node::{TreeNodeRecursion, TreeNodeVisitor};
 use datafusion_expr::logical_plan::{LogicalPlan, TableScan};
 use deltalake::parquet::data_type::AsBytes;
 use deltalake::DeltaTable;
-use futures::{future, Future, StreamExt};
+use futures::{future, Future, FutureExt, StreamExt};
 use hex::encode;
 use metrics::counter;
 use percent_encoding::{percent_decode_str, utf8_percent_encode, NON_ALPHANUMERIC};
@@ -466,16 +467,22 @@ pub async fn upload(
     };
 
     // Execute the plan and persist objects as well as table/partition metadata
-    let table = context
-        .file_to_table(
-            temp_path,
-            &file_type,
-            schema,
-            has_header,
-            schema_name.clone(),
-            table_name.clone(),
-        )
-        .await?;
+    let file_to_table = context.file_to_table(
+        temp_path,
+        &file_type,
+        schema,
+        has_header,
+        schema_name.clone(),
+        table_name.clone(),
+    );
+
+    // The readers can panic on the contents of an invalid file
+    let table = AssertUnwindSafe(file_to_table)
+        .catch_unwind()
+        .await
+        .map_err(|_| {
+            DataFusionError::Execution(format!("{filename} couldn't be read"))
+        })??;
 
     Ok(warp::reply::with_status(
         Ok::<String, ApiError>(format!(
-- 
2.43.0


From 91aeb29f8b81209cc69a8564fb74bba90e720186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 29/70] fix: record the table version made by TRUNCATE

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 3f0cb38..5a166ba 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -694,7 +694,14 @@ impl SeafowlContext {
                                 .collect();
 
                             let op = DeltaOperation::Delete { predicate: None };
-                            self.commit_delta_table(actions, &table, op).await?;
+                            let version =
+                                self.commit_delta_table(actions, &table, op).await?;
+
+                            let uuid = self.get_table_uuid(table_name).await?;
+                            self.metastore
+                                .tables
+                                .create_new_version(uuid, version)
+                                .await?;
 
                             Ok(make_dummy_exec())
                         }
-- 
2.43.0


From 0165d6f669084c222a44a5e075df166cef51256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 30/70] fix: honour IF NOT EXISTS in CREATE TABLE and CREATE
 SCHEMA

---
 src/context/physical.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 5a166ba..0c1762b 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -122,10 +122,22 @@ impl SeafowlContext {
             LogicalPlan::Ddl(DdlStatement::CreateCatalogSchema(
                 CreateCatalogSchema {
                     schema_name,
-                    if_not_exists: _,
+                    if_not_exists,
                     schema: _,
                 },
             )) => {
+                if *if_not_exists
+                    && self
+                        .metastore
+                        .schemas
+                        .get(&self.default_catalog, schema_name)
+                        .await
+                        .is_ok()
+                {
+                    // Schema already exists
+                    return Ok(make_dummy_exec());
+                }
+
                 // CREATE SCHEMA
                 // Create a schema and register it
                 self.metastore
@@ -593,8 +605,16 @@ impl SeafowlContext {
                         SeafowlExtensionNode::CreateTable(CreateTable {
                             schema,
                             name,
+                            if_not_exists,
                             ..
                         }) => {
+                            if *if_not_exists
+                                && self.try_get_delta_table(name).await.is_ok()
+                            {
+                                // Table already exists
+                                return Ok(make_dummy_exec());
+                            }
+
                             self.create_delta_table(
                                 name.as_str(),
                                 CreateDeltaTableDetails::EmptyTable(schema.clone()),
-- 
2.43.0


From fbe9ac63fb6ecb971e28ad2be3ac308cb47b6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 31/70] fix: append uploaded files to the right table and
 refuse values that don't fit its columns

---
 src/context/physical.rs | 51 ++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 0c1762b..2d0502b 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -23,7 +23,7 @@ use datafusion::datasource::listing::{
 use datafusion::datasource::TableProvider;
 use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::physical_expr::execution_props::ExecutionProps;
-use datafusion::physical_expr::expressions::{cast, Column};
+use datafusion::physical_expr::expressions::{cast, col, lit, Column};
 use datafusion::physical_expr::{create_physical_expr, PhysicalExpr};
 use datafusion::physical_optimizer::pruning::PruningPredicate;
 use datafusion::physical_plan::empty::EmptyExec;
@@ -39,8 +39,10 @@ use datafusion::{
     sql::TableReference,
 };
 use datafusion_common::config::TableParquetOptions;
-use datafusion_common::tree_node::{Transformed, TransformedResult, TreeNode};
-use datafusion_common::{Column as ColumnExpr, ResolvedTableReference, SchemaReference};
+use datafusion_common::{
+    ResolvedTableReference, ScalarValue, SchemaReference,
+};
+use datafusion_expr::dml::InsertOp;
 use datafusion_expr::logical_plan::{
     CreateCatalog, CreateCatalogSchema, CreateExternalTable, CreateMemoryTable,
     DropTable, Extension, LogicalPlan, Projection,
@@ -942,6 +944,11 @@ impl SeafowlContext {
         // information on our tables)
         self.reload_schema().await?;
 
+        let table_ref = TableReference::Full {
+            catalog: Arc::from(self.default_catalog.as_str()),
+            schema: Arc::from(schema_name.as_str()),
+            table: Arc::from(table_name),
+        };
         let mut table_schema = None;
 
         // Check whether table already exists and ensure that the schema exists
@@ -955,7 +962,7 @@ impl SeafowlContext {
         {
             Some(_) => {
                 // Schema exists, check if existing table's schema matches the new one
-                match self.inner.table_provider(&table_name).await {
+                match self.inner.table_provider(table_ref.clone()).await {
                     Ok(table) => {
                         table_schema = Some(table.schema());
                         true
@@ -994,9 +1001,11 @@ impl SeafowlContext {
 
         // Resolve the final schema; take the one from the table if present, otherwise take the supplied
         // file schema, otherwise infer the schema from the file
-        let schema = match table_schema.or(file_schema) {
-            Some(schema) => schema,
-            None => {
+        let target_schema = table_schema.or(file_schema);
+        let schema = match &target_schema {
+            // The text in a CSV file is parsed straight into the types of the target columns
+            Some(schema) if file_type == "csv" => schema.clone(),
+            _ => {
                 listing_options
                     .infer_schema(&self.inner.state(), &table_path)
                     .await?
@@ -1005,18 +1014,32 @@ impl SeafowlContext {
 
         let config = ListingTableConfig::new(table_path)
             .with_listing_options(listing_options)
-            .with_schema(schema);
+            .with_schema(schema.clone());
 
         let source = ListingTable::try_new(config)?;
 
         // Make a scan plan for the listing table, which will be the input for the target table
-        let plan = source.scan(&self.inner.state(), None, &[], None).await?;
+        let mut plan = source.scan(&self.inner.state(), None, &[], None).await?;
 
-        let table_ref = TableReference::Full {
-            catalog: Arc::from(self.default_catalog.as_str()),
-            schema: Arc::from(schema_name),
-            table: Arc::from(table_name),
-        };
+        // Convert the columns of the file to the target ones on our own, because the scan itself
+        // would turn the values that can't be converted into NULLs
+        if let Some(target_schema) = target_schema
+            && schema.fields() != target_schema.fields()
+        {
+            let projection = target_schema
+                .fields()
+                .iter()
+                .map(|f| {
+                    let expr = if schema.column_with_name(f.name()).is_some() {
+                        cast(col(f.name(), &schema)?, &schema, f.data_type().clone())?
+                    } else {
+                        lit(ScalarValue::try_from(f.data_type())?)
+                    };
+                    Ok((expr, f.name().to_string()))
+                })
+                .collect::<Result<Vec<_>>>()?;
+            plan = Arc::new(ProjectionExec::try_new(projection, plan)?);
+        }
 
         if !table_exists {
             let table = self
-- 
2.43.0


From 9f61f2af969b1dfc18fb8f8fc75fa5845ef0802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:33 +0000
Subject: [PATCH 32/70] fix: DELETE and UPDATE keep every row their WHERE
 clause isn't true for

---
 src/context/logical.rs  | 70 ++++++++++++++++++++++-------------
 src/context/physical.rs | 81 +++++++++++++++++++++++------------------
 2 files changed, 90 insertions(+), 61 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 2252501..d702387 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -16,7 +16,9 @@ use datafusion::common::DFSchema;
 use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::execution::context::SessionState;
 use datafusion::optimizer::analyzer::Analyzer;
+use datafusion::optimizer::optimize_projections::OptimizeProjections;
 use datafusion::optimizer::optimizer::Optimizer;
+use datafusion::optimizer::push_down_filter::PushDownFilter;
 use datafusion::optimizer::simplify_expressions::SimplifyExpressions;
 use datafusion::optimizer::{OptimizerContext, OptimizerRule};
 use datafusion::prelude::SessionContext;
@@ -149,36 +151,18 @@ impl SeafowlContext {
                 if with_hints.is_empty() && joins.is_empty() => {
                     let state = self.inner.state();
                     let plan = state.statement_to_plan(stmt).await?;
-
-                    // Create a custom optimizer to avoid mangling effects of some optimizers (like
-                    // `CommonSubexprEliminate`) which can add nested Projection plans and rewrite
-                    // expressions.
-                    // We also need to do a analyze round beforehand for type coercion.
-                    let analyzer = Analyzer::new();
-                    let plan = analyzer.execute_and_check(
-                        plan,
-                        self.inner.copied_config().options(),
-                        |_, _| {},
-                    )?;
-                    let optimizer = Optimizer::with_rules(
-                        vec![
-                            Arc::new(SimplifyExpressions::new()),
-                        ]
-                    );
-                    let config = OptimizerContext::default();
-                    optimizer.optimize(plan, &config, |plan: &LogicalPlan, rule: &dyn OptimizerRule| {
-                        debug!(
-                                "After applying rule '{}':\n{}\n",
-                                rule.name(),
-                                plan.display_indent()
-                            )
-                    }
-                    )
+                    self.optimize_row_changes(plan, vec![])
                 },
                 Statement::Delete{ .. } => {
                     let state = self.inner.state();
                     let plan = state.statement_to_plan(stmt).await?;
-                    state.optimize(&plan)
+                    self.optimize_row_changes(
+                        plan,
+                        vec![
+                            Arc::new(PushDownFilter::new()),
+                            Arc::new(OptimizeProjections::new()),
+                        ],
+                    )
                 }
                 Statement::Drop { object_type: ObjectType::Table | ObjectType::Schema, .. } => self.inner.state().statement_to_plan(stmt).await,
                 // CREATE TABLE (create empty table with columns)
@@ -353,6 +337,40 @@ impl SeafowlContext {
         }
     }
 
+    // Optimize the plan of an UPDATE or a DELETE, which we execute on our own
+    fn optimize_row_changes(
+        &self,
+        plan: LogicalPlan,
+        extra_rules: Vec<Arc<dyn OptimizerRule + Send + Sync>>,
+    ) -> Result<LogicalPlan> {
+        // Create a custom optimizer to avoid mangling effects of some optimizers (like
+        // `CommonSubexprEliminate`) which can add nested Projection plans and rewrite
+        // expressions.
+        // We also need to do a analyze round beforehand for type coercion.
+        let analyzer = Analyzer::new();
+        let plan = analyzer.execute_and_check(
+            plan,
+            self.inner.copied_config().options(),
+            |_, _| {},
+        )?;
+        let mut rules: Vec<Arc<dyn OptimizerRule + Send + Sync>> =
+            vec![Arc::new(SimplifyExpressions::new())];
+        rules.extend(extra_rules);
+        let optimizer = Optimizer::with_rules(rules);
+        let config = OptimizerContext::default();
+        optimizer.optimize(
+            plan,
+            &config,
+            |plan: &LogicalPlan, rule: &dyn OptimizerRule| {
+                debug!(
+                    "After applying rule '{}':\n{}\n",
+                    rule.name(),
+                    plan.display_indent()
+                )
+            },
+        )
+    }
+
     // Determine if some of the tables reference a non-latest version using table function syntax.
     // If so, rename the tables in the query by appending the explicit version to the name, and add
     // it to the schema provider's map inside a new session state.
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 2d0502b..6696074 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -45,18 +45,19 @@ use datafusion_common::{
 use datafusion_expr::dml::InsertOp;
 use datafusion_expr::logical_plan::{
     CreateCatalog, CreateCatalogSchema, CreateExternalTable, CreateMemoryTable,
-    DropTable, Extension, LogicalPlan, Projection,
+    DropTable, Extension, LogicalPlan, Projection, TableScan,
 };
+use datafusion_expr::utils::{conjunction, split_conjunction};
 use datafusion_expr::{
     DdlStatement, DmlStatement, DropCatalogSchema, Expr, Filter, WriteOp,
 };
+use deltalake::delta_datafusion::DeltaTableProvider;
 use deltalake::kernel::{Action, Add, Remove};
 use deltalake::operations::vacuum::VacuumBuilder;
 use deltalake::protocol::{DeltaOperation, SaveMode};
 use deltalake::DeltaTable;
 use object_store::path::Path;
 use std::ops::Deref;
-use std::ops::Not;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 use tracing::info;
@@ -251,36 +252,9 @@ impl SeafowlContext {
                 )?;
 
                 let state = self.inner.state();
-                let mut filter = vec![];
 
                 let (selection_expr, removes) =
                     if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
-                        // The scan builder in delta-rs builds physical expressions for pruning
-                        // using non-qualified schemas, but the filter expressions in the UPDATE
-                        // are qualified thanks to https://github.com/apache/arrow-datafusion/pull/7316
-                        //
-                        // This leads to a panic unless we strip out the qualifier first.
-                        filter.push(
-                            predicate
-                                .clone()
-                                .transform(&|expr| {
-                                    Ok(
-                                        if let Expr::Column(ColumnExpr {
-                                            relation: Some(_),
-                                            name,
-                                        }) = &expr
-                                        {
-                                            Transformed::yes(Expr::Column(
-                                                ColumnExpr::new_unqualified(name),
-                                            ))
-                                        } else {
-                                            Transformed::no(expr)
-                                        },
-                                    )
-                                })
-                                .data()?,
-                        );
-
                         // A WHERE clause has been used; employ it to prune the update down to only
                         // a subset of files, while inheriting the rest from the previous version
                         let filter_expr = create_physical_expr(
@@ -313,7 +287,16 @@ impl SeafowlContext {
                 let uuid = self.get_table_uuid(table_name.clone()).await?;
                 let mut actions: Vec<Action> = vec![];
                 if !removes.is_empty() {
-                    let base_scan = table.scan(&state, None, &filter, None).await?;
+                    // Don't pass the clause to the scan, since some of the rows that don't match it
+                    // would be left out then
+                    let base_scan = DeltaTableProvider::try_new(
+                        snapshot.clone(),
+                        table.log_store(),
+                        Default::default(),
+                    )?
+                    .with_files(removes.clone())
+                    .scan(&state, None, &[], None)
+                    .await?;
 
                     let projections = project_expressions(
                         expr,
@@ -394,8 +377,28 @@ impl SeafowlContext {
                 let snapshot = table.snapshot()?;
                 let schema_ref = SchemaRef::from(table_schema.deref().clone());
 
+                // The rows can be filtered by the scan itself too
+                let (predicate, source) = match &**input {
+                    LogicalPlan::Filter(Filter {
+                        predicate, input, ..
+                    }) => (Some(predicate), input),
+                    _ => (None, input),
+                };
+                let LogicalPlan::TableScan(TableScan { filters, .. }) = &**source else {
+                    return Err(DataFusionError::NotImplemented(
+                        "Only a plain WHERE clause is supported in a DELETE".to_string(),
+                    ));
+                };
+                let mut clauses = predicate.map(split_conjunction).unwrap_or_default();
+                for filter in filters {
+                    if !clauses.contains(&filter) {
+                        clauses.push(filter)
+                    }
+                }
+                let predicate = conjunction(clauses.into_iter().cloned());
+
                 let (adds, removes) =
-                    if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
+                    if let Some(predicate) = predicate {
                         // A WHERE clause has been used; employ it to prune the filtration
                         // down to only a subset of partitions, re-use the rest as is
 
@@ -426,15 +429,23 @@ impl SeafowlContext {
                         } else {
                             // To simulate the effect of a WHERE clause from a DELETE, we need to use the
                             // inverse clause in a scan, when filtering the rows that should remain.
+                            // Note that this includes the rows for which the clause is NULL.
                             let filter_expr = create_physical_expr(
-                                &predicate.clone().not(),
+                                &Expr::IsNotTrue(Box::new(predicate.clone())),
                                 table_schema,
                                 &ExecutionProps::new(),
                             )?;
 
-                            let base_scan = table
-                                .scan(&state, None, &[predicate.clone()], None)
-                                .await?;
+                            // Don't pass the clause to the scan, since some of the rows that
+                            // don't match it would be left out then
+                            let base_scan = DeltaTableProvider::try_new(
+                                snapshot.clone(),
+                                table.log_store(),
+                                Default::default(),
+                            )?
+                            .with_files(files_to_prune.clone())
+                            .scan(&state, None, &[], None)
+                            .await?;
 
                             let filter_plan: Arc<dyn ExecutionPlan> =
                                 Arc::new(FilterExec::try_new(filter_expr, base_scan)?);
-- 
2.43.0


From 705b58ff70ef1c854fde30bf2068c1544027ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:40 +0000
Subject: [PATCH 33/70] fix: UPDATE tables with mixed case or qualified names

---
 src/context/physical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 6696074..75e2c23 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -247,7 +247,7 @@ impl SeafowlContext {
 
                 let schema_ref = TableProvider::schema(&table);
                 let df_schema = DFSchema::try_from_qualified_schema(
-                    table_name.table(),
+                    table_name.clone(),
                     schema_ref.as_ref(),
                 )?;
 
-- 
2.43.0


From 2852e1660dc82c9ff92593bb46c93b3061ee2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:40 +0000
Subject: [PATCH 34/70] fix: refuse INSERT OVERWRITE and REPLACE INTO instead
 of appending

---
 src/context/physical.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 75e2c23..0880ca6 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -205,10 +205,16 @@ impl SeafowlContext {
             }
             LogicalPlan::Dml(DmlStatement {
                 table_name,
-                op: WriteOp::Insert(_),
+                op: WriteOp::Insert(insert_op),
                 input,
                 ..
             }) => {
+                if *insert_op != InsertOp::Append {
+                    return Err(DataFusionError::NotImplemented(format!(
+                        "{insert_op} is not supported"
+                    )));
+                }
+
                 let physical = self.inner.state().create_physical_plan(input).await?;
                 match self
                     .get_lakehouse_table_provider(table_name.clone())
-- 
2.43.0


From 0a33b469a6e38f56492ccc862d0b52c966f55131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:40 +0000
Subject: [PATCH 35/70] fix: create tables in the database given in their name

---
 src/context/delta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index a94797f..6281927 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -288,7 +288,7 @@ impl SeafowlContext {
         let _ = self
             .metastore
             .schemas
-            .get(&self.default_catalog, &schema_name)
+            .get(&resolved_ref.catalog, &schema_name)
             .await?;
 
         // The version that has the initial rows, if there are any
@@ -365,7 +365,7 @@ impl SeafowlContext {
             .metastore
             .tables
             .create(
-                &self.default_catalog,
+                &resolved_ref.catalog,
                 &schema_name,
                 &table_name,
                 TableProvider::schema(&table).as_ref(),
-- 
2.43.0


From 2bfe8ab2d8581b9342c4098105fb0a626ce69193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:41 +0000
Subject: [PATCH 36/70] fix: don't write NULLs to the columns declared NOT NULL

---
 src/context/delta.rs    | 51 ++++++++++++++++++++++++++++++++++-------
 src/context/physical.rs |  5 ++--
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index 6281927..c152bbb 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -13,7 +13,9 @@ use datafusion::{
     error::DataFusionError,
     execution::context::TaskContext,
     parquet::{arrow::ArrowWriter, file::properties::WriterProperties},
-    physical_plan::{ExecutionPlan, ExecutionPlanProperties},
+    physical_plan::{
+        execution_plan::execute_input_stream, ExecutionPlan, ExecutionPlanProperties,
+    },
     sql::TableReference,
 };
 use deltalake::kernel::{Action, Add, Schema as DeltaSchema};
@@ -95,6 +97,27 @@ pub async fn plan_to_delta_adds(
     store: Arc<dyn ObjectStore>,
     local_data_dir: Option<String>,
     max_partition_size: u32,
+) -> Result<Vec<Add>> {
+    plan_to_delta_adds_for_schema(
+        state,
+        plan,
+        plan.schema(),
+        store,
+        local_data_dir,
+        max_partition_size,
+    )
+    .await
+}
+
+/// Same as above, but fail if there are NULLs in the columns which the schema of the table
+/// declares as non-nullable (since the table couldn't be read back then).
+pub async fn plan_to_delta_adds_for_schema(
+    state: &SessionState,
+    plan: &Arc<dyn ExecutionPlan>,
+    table_schema: SchemaRef,
+    store: Arc<dyn ObjectStore>,
+    local_data_dir: Option<String>,
+    max_partition_size: u32,
 ) -> Result<Vec<Add>> {
     let mut current_partition_size = 0;
     let (mut current_partition_file_path, mut writer) =
@@ -108,7 +131,8 @@ pub async fn plan_to_delta_adds(
     info!("Persisting data into temporary partition objects on disk");
     for i in 0..plan.output_partitioning().partition_count() {
         let task_ctx = Arc::new(TaskContext::from(state));
-        let mut stream = plan.execute(i, task_ctx)?;
+        let mut stream =
+            execute_input_stream(plan.clone(), table_schema.clone(), i, task_ctx)?;
 
         while let Some(batch) = stream.next().await {
             let mut batch = batch?;
@@ -299,11 +323,18 @@ impl SeafowlContext {
                 self.init_delta_table(&table_name, &schema).await?
             }
             CreateDeltaTableDetails::FromPlan(plan) => {
-                let (table_uuid, _) =
-                    self.init_delta_table(&table_name, &plan.schema()).await?;
+                // A column isn't constrained to be non-null just because the initial rows are
+                let schema = Schema::new(
+                    plan.schema()
+                        .fields()
+                        .iter()
+                        .map(|f| f.as_ref().clone().with_nullable(true))
+                        .collect::<Vec<_>>(),
+                );
+                let (table_uuid, _) = self.init_delta_table(&table_name, &schema).await?;
 
                 // Only make the table known once all of its rows are in
-                match self.append_plan(table_uuid, &plan).await {
+                match self.append_plan(table_uuid, Arc::new(schema), &plan).await {
                     Ok((mut table, version)) => {
                         table.load().await?;
                         data_version = Some(version);
@@ -443,8 +474,10 @@ impl SeafowlContext {
         name: impl Into<TableReference>,
         plan: &Arc<dyn ExecutionPlan>,
     ) -> Result<DeltaTable> {
-        let table_uuid = self.get_table_uuid(name).await?;
-        let (table, version) = self.append_plan(table_uuid, plan).await?;
+        let name = name.into();
+        let table_uuid = self.get_table_uuid(name.clone()).await?;
+        let table_schema = self.inner.table_provider(name).await?.schema();
+        let (table, version) = self.append_plan(table_uuid, table_schema, plan).await?;
 
         // TODO: if `DeltaTable::get_version_timestamp` was globally public we could also pass the
         // exact version timestamp, instead of creating one automatically in our own catalog (which
@@ -462,6 +495,7 @@ impl SeafowlContext {
     async fn append_plan(
         &self,
         table_uuid: Uuid,
+        table_schema: SchemaRef,
         plan: &Arc<dyn ExecutionPlan>,
     ) -> Result<(DeltaTable, i64)> {
         let prefix = table_uuid.to_string();
@@ -470,9 +504,10 @@ impl SeafowlContext {
         let local_table_dir = internal_object_store.local_table_dir(&prefix);
 
         // Upload partition files to table's root directory
-        let adds = plan_to_delta_adds(
+        let adds = plan_to_delta_adds_for_schema(
             &self.inner.state(),
             plan,
+            table_schema,
             table_log_store.object_store(),
             local_table_dir,
             self.config.misc.max_partition_size,
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 0880ca6..1c30b9b 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,7 +1,7 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
 use crate::catalog::{DEFAULT_SCHEMA, STAGING_SCHEMA};
-use crate::context::delta::plan_to_delta_adds;
+use crate::context::delta::{plan_to_delta_adds, plan_to_delta_adds_for_schema};
 use crate::context::SeafowlContext;
 use crate::nodes::{
     ConvertTable, CreateFunction, CreateTable, DropFunction, RenameTable,
@@ -322,9 +322,10 @@ impl SeafowlContext {
                         .object_store();
                     let local_table_dir =
                         internal_object_store.local_table_dir(&uuid.to_string());
-                    let adds = plan_to_delta_adds(
+                    let adds = plan_to_delta_adds_for_schema(
                         &state,
                         &update_plan,
+                        schema_ref.clone(),
                         object_store,
                         local_table_dir,
                         self.config.misc.max_partition_size,
-- 
2.43.0


From 9e990bc4ac3aa753616e38efbd6363f55faea649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 37/70] fix: record the status of dropped tables' clean-up and
 retry it before giving up

---
 src/repository/default.rs | 2 +-
 src/utils.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index cd339ef..2deea92 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -576,7 +576,7 @@ impl Repository for $repo {
     async fn update_dropped_table(&self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error> {
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
         sqlx::query("UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid")
-            .bind(deletion_status)
+            .bind(deletion_status.to_string())
             .bind(uuid)
             .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?;
diff --git a/src/utils.rs b/src/utils.rs
index 0157b4a..d5407b1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -80,7 +80,7 @@ pub async fn gc_databases(
                 "Encountered error while trying to delete table in directory {}: {err}",
                 dt.uuid
             );
-            if dt.deletion_status != DroppedTableDeletionStatus::Pending {
+            if dt.deletion_status == DroppedTableDeletionStatus::Pending {
                 dt.deletion_status = DroppedTableDeletionStatus::Retry;
             } else {
                 dt.deletion_status = DroppedTableDeletionStatus::Failed;
-- 
2.43.0


From 170993bde9f98cf7d671a9172259ee70eacf6af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 38/70] fix: fail the deletion of a prefix when listing it
 fails

---
 src/object_store/wrapped.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object_store/wrapped.rs b/src/object_store/wrapped.rs
index a17b10c..7c5d709 100644
--- a/src/object_store/wrapped.rs
+++ b/src/object_store/wrapped.rs
@@ -125,9 +125,8 @@ impl InternalObjectStore {
     pub async fn delete_in_prefix(&self, prefix: &Path) -> Result<(), Error> {
         let mut path_stream = self.inner.list(Some(prefix));
         while let Some(maybe_object) = path_stream.next().await {
-            if let Ok(ObjectMeta { location, .. }) = maybe_object {
-                self.inner.delete(&location).await?;
-            }
+            let ObjectMeta { location, .. } = maybe_object?;
+            self.inner.delete(&location).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 31519d586d38de6f1e5272c783101ba9123245ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 39/70] Add a hook to build an object store factory around a
 given store

---
 src/object_store/factory.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/object_store/factory.rs b/src/object_store/factory.rs
index c1783e4..25af160 100644
--- a/src/object_store/factory.rs
+++ b/src/object_store/factory.rs
@@ -87,6 +87,18 @@ impl ObjectStoreFactory {
     }
 }
 
+#[cfg(seafowl_verif)]
+impl ObjectStoreFactory {
+    /// A factory whose internal store is the given one, e.g. with instrumentation inside
+    pub fn verif_with_store(store: Arc<InternalObjectStore>) -> Self {
+        Self {
+            default_store: Some(store),
+            custom_stores: DashMap::new(),
+            object_store_cache: None,
+        }
+    }
+}
+
 impl ObjectStoreFactory {
     pub fn register(self: &Arc<Self>, factories: FactoryRegistry) {
         // NB: this never actually gets used, it serves only to fetch the known schemes
-- 
2.43.0


From d36af40a715000bf6f4383d6d9ffe748a0e9ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 40/70] fix: don't overflow with a GC interval longer than 18
 hours

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a8482a4..d3ae0d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -239,7 +239,7 @@ async fn main() {
         // Add a GC task for purging obsolete objects from the catalog and the store
         if context.config.misc.gc_interval > 0 {
             let mut interval = interval(Duration::from_secs(
-                (context.config.misc.gc_interval * 3600) as u64,
+                context.config.misc.gc_interval as u64 * 3600,
             ));
 
             if let Some(internal_object_store) = context.internal_object_store.as_ref() {
-- 
2.43.0


From 9d9ba4e01c9edaa3df0ffe9102117c96c900db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 41/70] fix: drop tables from the catalog before deleting their
 data

---
 src/context/delta.rs    | 23 +++++++++++++++++------
 src/context/physical.rs | 24 ++++++++++++++----------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c152bbb..7db3b26 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -16,7 +16,7 @@ use datafusion::{
     physical_plan::{
         execution_plan::execute_input_stream, ExecutionPlan, ExecutionPlanProperties,
     },
-    sql::TableReference,
+    sql::{ResolvedTableReference, TableReference},
 };
 use deltalake::kernel::{Action, Add, Schema as DeltaSchema};
 use deltalake::operations::{
@@ -542,12 +542,23 @@ impl SeafowlContext {
             .version)
     }
 
-    // Cleanup the table objects in the storage
-    pub async fn delete_delta_table(
+    // Try to cleanup the objects of a table that has been removed from the catalog
+    pub(super) async fn cleanup_dropped_table(
         &self,
-        table_name: impl Into<TableReference>,
-    ) -> Result<()> {
-        let table = self.try_get_delta_table(table_name).await?;
+        table_ref: &ResolvedTableReference,
+        table: Result<DeltaTable>,
+    ) {
+        let result = match table {
+            Ok(table) => self.delete_delta_table(table).await,
+            Err(e) => Err(e),
+        };
+        if let Err(e) = result {
+            warn!("Failed to cleanup table {table_ref}: {e}");
+        }
+    }
+
+    // Cleanup the table objects in the storage
+    async fn delete_delta_table(&self, table: DeltaTable) -> Result<()> {
         let store = table.object_store();
 
         // List all objects with the table prefix...
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 1c30b9b..f799355 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -531,10 +531,10 @@ impl SeafowlContext {
                     return Ok(make_dummy_exec());
                 }
 
-                self.delete_delta_table(name.clone())
-                    .await
-                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
+                let table = self.try_get_delta_table(name.clone()).await;
 
+                // Only touch the data once the table is gone from the catalog, so that a failure
+                // to do either can't leave behind a table without (some of) its data
                 self.metastore
                     .tables
                     .delete(
@@ -543,6 +543,8 @@ impl SeafowlContext {
                         &resolved_ref.table,
                     )
                     .await?;
+
+                self.cleanup_dropped_table(&resolved_ref, table).await;
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::DropCatalogSchema(DropCatalogSchema {
@@ -578,26 +580,28 @@ impl SeafowlContext {
                     Some(schema) => schema,
                 };
 
-                // Delete each table sequentially
+                let mut tables = vec![];
                 for table_name in schema.table_names() {
                     let table_ref = ResolvedTableReference {
                         catalog: Arc::from(self.default_catalog.as_str()),
                         schema: Arc::from(schema_name),
                         table: Arc::from(table_name),
                     };
-                    self.delete_delta_table(table_ref.clone()).await?;
-
-                    self.metastore
-                        .tables
-                        .delete(&table_ref.catalog, &table_ref.schema, &table_ref.table)
-                        .await?;
+                    let table = self.try_get_delta_table(table_ref.clone()).await;
+                    tables.push((table_ref, table));
                 }
 
+                // This removes the schema's tables from the catalog too
                 self.metastore
                     .schemas
                     .delete(&self.default_catalog, schema_name)
                     .await?;
 
+                // Delete the data of each table sequentially
+                for (table_ref, table) in tables {
+                    self.cleanup_dropped_table(&table_ref, table).await;
+                }
+
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::CreateView(_)) => Err(Error::Plan(
-- 
2.43.0


From dd54ddf133d006b41153ff45197fe0063a82eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 42/70] fix: refuse zero partition and fetch sizes and
 excessive memory limits

---
 src/config/schema.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index 2fd8154..b9b0c04 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -401,8 +401,28 @@ If Seafowl is running on GCP a token should be fetched using the GCP metadata en
                 "runtime.max_memory is too low (minimum {MIN_MEMORY} MB)"
             )));
         }
+        if max_memory.checked_mul(MEBIBYTES).is_none() {
+            return Err(ConfigError::Message(
+                "runtime.max_memory is too high".to_string(),
+            ));
+        }
     };
 
+    if config.misc.max_partition_size == 0 {
+        return Err(ConfigError::Message(
+            "misc.max_partition_size must be greater than 0".to_string(),
+        ));
+    }
+
+    if let Some(ObjectCacheProperties {
+        min_fetch_size: 0, ..
+    }) = config.misc.object_store_cache
+    {
+        return Err(ConfigError::Message(
+            "misc.object_store_cache.min_fetch_size must be greater than 0".to_string(),
+        ));
+    }
+
     Ok(config)
 }
 
-- 
2.43.0


From 60dcdc6e445b63d4d02a7f28e97a0e4e445db523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 43/70] fix: accept flags of object stores and catalogs from
 envvars

---
 object_store_factory/src/aws.rs   |  5 +++--
 object_store_factory/src/local.rs | 28 +++++++++++++++++++++++++++-
 src/config/schema.rs              |  3 ++-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/object_store_factory/src/aws.rs b/object_store_factory/src/aws.rs
index a61c247..527ab35 100644
--- a/object_store_factory/src/aws.rs
+++ b/object_store_factory/src/aws.rs
@@ -1,3 +1,4 @@
+use crate::local::bool_or_text;
 use iceberg::io::{
     S3_ACCESS_KEY_ID, S3_ALLOW_ANONYMOUS, S3_DISABLE_CONFIG_LOAD,
     S3_DISABLE_EC2_METADATA, S3_ENDPOINT, S3_REGION, S3_SECRET_ACCESS_KEY,
@@ -24,9 +25,9 @@ pub struct S3Config {
     pub endpoint: Option<String>,
     pub bucket: String,
     pub prefix: Option<String>,
-    #[serde(default = "default_true")]
+    #[serde(default = "default_true", deserialize_with = "bool_or_text")]
     pub allow_http: bool,
-    #[serde(default = "default_true")]
+    #[serde(default = "default_true", deserialize_with = "bool_or_text")]
     pub skip_signature: bool,
 }
 
diff --git a/object_store_factory/src/local.rs b/object_store_factory/src/local.rs
index d903f3d..6bd2457 100644
--- a/object_store_factory/src/local.rs
+++ b/object_store_factory/src/local.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 #[derive(Deserialize, Debug, PartialEq, Eq, Clone)]
 pub struct LocalConfig {
     pub data_dir: String,
-    #[serde(default = "default_false")]
+    #[serde(default = "default_false", deserialize_with = "bool_or_text")]
     pub disable_hardlinks: bool,
 }
 
@@ -14,6 +14,32 @@ fn default_false() -> bool {
     false
 }
 
+/// Deserialize a flag that is given either as a boolean or as a text (e.g. in an envvar), given that
+/// the config crate isn't able to convert the text itself in internally tagged enums.
+pub fn bool_or_text<'de, D>(deserializer: D) -> Result<bool, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum Flag {
+        Bool(bool),
+        Text(String),
+    }
+
+    match Flag::deserialize(deserializer)? {
+        Flag::Bool(flag) => Ok(flag),
+        Flag::Text(text) => match text.to_lowercase().as_str() {
+            "1" | "true" | "on" | "yes" => Ok(true),
+            "0" | "false" | "off" | "no" => Ok(false),
+            _ => Err(serde::de::Error::invalid_value(
+                serde::de::Unexpected::Str(&text),
+                &"a boolean",
+            )),
+        },
+    }
+}
+
 impl LocalConfig {
     pub fn from_hashmap(
         map: &HashMap<String, String>,
diff --git a/src/config/schema.rs b/src/config/schema.rs
index b9b0c04..18b251a 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -11,6 +11,7 @@ use config::{Config, ConfigError, Environment, File, FileFormat, Map};
 use hex::encode;
 use object_store_factory::aws::S3Config;
 use object_store_factory::google::GCSConfig;
+use object_store_factory::local::bool_or_text;
 use object_store_factory::ObjectStoreConfig;
 
 use serde::Deserialize;
@@ -147,7 +148,7 @@ pub struct Sqlite {
     pub dsn: String,
     #[serde(with = "SqliteJournalModeDef", default = "default_journal_mode")]
     pub journal_mode: SqliteJournalMode,
-    #[serde(default)]
+    #[serde(default, deserialize_with = "bool_or_text")]
     pub read_only: bool,
 }
 
-- 
2.43.0


From b9ed719c368fe0a566835472029027be180eee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:32 +0000
Subject: [PATCH 44/70] fix: decode the paths of object store URLs once

---
 object_store_factory/src/lib.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/object_store_factory/src/lib.rs b/object_store_factory/src/lib.rs
index 255f862..301061a 100644
--- a/object_store_factory/src/lib.rs
+++ b/object_store_factory/src/lib.rs
@@ -137,21 +137,30 @@ pub async fn build_object_store_from_opts(
     url: &Url,
     options: HashMap<String, String>,
 ) -> Result<Box<dyn ObjectStore>, object_store::Error> {
-    let (scheme, _) = ObjectStoreScheme::parse(url).unwrap();
+    // The (URL-decoded) path inside the store, without the bucket in path-style S3 URLs
+    let (scheme, path) = ObjectStoreScheme::parse(url)?;
 
     match scheme {
         // `parse_url_opts` will swallow the URL path for memory/local FS stores
         ObjectStoreScheme::Memory => {
             let mut store: Box<dyn ObjectStore> = Box::new(InMemory::new());
-            if !url.path().is_empty() {
-                store = Box::new(PrefixStore::new(store, url.path()));
+            if !path.as_ref().is_empty() {
+                store = Box::new(PrefixStore::new(store, path));
             }
 
             Ok(store)
         }
         ObjectStoreScheme::Local => {
+            let data_dir = url
+                .to_file_path()
+                .ok()
+                .and_then(|dir| dir.to_str().map(str::to_string))
+                .ok_or_else(|| object_store::Error::Generic {
+                    store: "local",
+                    source: format!("Unsupported local path: {}", url).into(),
+                })?;
             let store = LocalConfig {
-                data_dir: url.path().to_string(),
+                data_dir,
                 disable_hardlinks: false,
             }
             .build_local_storage()?;
@@ -163,8 +172,8 @@ pub async fn build_object_store_from_opts(
             aws::add_amazon_s3_environment_variables(&mut s3_options);
 
             let (mut store, _) = parse_url_opts(url, s3_options)?;
-            if !url.path().is_empty() {
-                store = Box::new(PrefixStore::new(store, url.path()));
+            if !path.as_ref().is_empty() {
+                store = Box::new(PrefixStore::new(store, path));
             }
             Ok(store)
         }
@@ -173,8 +182,8 @@ pub async fn build_object_store_from_opts(
             google::add_google_cloud_storage_environment_variables(&mut gcs_options);
 
             let (mut store, _) = parse_url_opts(url, gcs_options)?;
-            if !url.path().is_empty() {
-                store = Box::new(PrefixStore::new(store, url.path()));
+            if !path.as_ref().is_empty() {
+                store = Box::new(PrefixStore::new(store, path));
             }
             Ok(store)
         }
-- 
2.43.0


From 15f0d975d14e6bf3dcc63bedfb925670daba148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:48 +0000
Subject: [PATCH 45/70] fix: look for the S3 region in envvars before detecting
 it, and don't panic when it can't be

---
 object_store_factory/src/aws.rs | 7 +++++--
 object_store_factory/src/lib.rs | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/object_store_factory/src/aws.rs b/object_store_factory/src/aws.rs
index 527ab35..2df0333 100644
--- a/object_store_factory/src/aws.rs
+++ b/object_store_factory/src/aws.rs
@@ -209,17 +209,20 @@ pub fn map_options_into_amazon_s3_config_keys(
 pub async fn add_amazon_s3_specific_options(
     url: &Url,
     options: &mut HashMap<AmazonS3ConfigKey, String>,
-) {
+) -> Result<(), object_store::Error> {
     if !options.contains_key(&AmazonS3ConfigKey::Region)
+        && !options.contains_key(&AmazonS3ConfigKey::DefaultRegion)
         && !options.contains_key(&AmazonS3ConfigKey::Endpoint)
     {
-        let region = detect_region(url).await.unwrap();
+        let region = detect_region(url).await?;
         options.insert(AmazonS3ConfigKey::Region, region.to_string());
     }
 
     options
         .entry(AmazonS3ConfigKey::ConditionalPut)
         .or_insert_with(|| S3ConditionalPut::ETagMatch.to_string());
+
+    Ok(())
 }
 
 pub fn add_amazon_s3_environment_variables(
diff --git a/object_store_factory/src/lib.rs b/object_store_factory/src/lib.rs
index 301061a..58a3374 100644
--- a/object_store_factory/src/lib.rs
+++ b/object_store_factory/src/lib.rs
@@ -168,8 +168,8 @@ pub async fn build_object_store_from_opts(
         }
         ObjectStoreScheme::AmazonS3 => {
             let mut s3_options = aws::map_options_into_amazon_s3_config_keys(options)?;
-            aws::add_amazon_s3_specific_options(url, &mut s3_options).await;
             aws::add_amazon_s3_environment_variables(&mut s3_options);
+            aws::add_amazon_s3_specific_options(url, &mut s3_options).await?;
 
             let (mut store, _) = parse_url_opts(url, s3_options)?;
             if !path.as_ref().is_empty() {
-- 
2.43.0


From 4d289bc32f1336f47ddcea422cca7c121e698ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:25 +0000
Subject: [PATCH 46/70] fix: request HTTP locations as they are given instead
 of decoding them

---
 src/object_store/http.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index f7c8541..e647226 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -10,7 +10,7 @@ use object_store::{
     GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
     ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
-use percent_encoding::{percent_decode_str, utf8_percent_encode, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use reqwest::header::HeaderMap;
 use reqwest::header::{
     CONTENT_LENGTH, ETAG, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
@@ -142,11 +142,10 @@ impl HttpObjectStore {
         }
     }
 
-    /// Reverse the URL encoding done by `try_prepare_http_url`
+    /// Get the full URL of the object. The path is already the URL as it was in `LOCATION`, given
+    /// that DataFusion has reversed the encoding done by `try_prepare_http_url`.
     fn get_uri(&self, path: &Path) -> String {
-        let path_str = path.to_string();
-        let decoded = percent_decode_str(path_str.as_str()).decode_utf8().unwrap();
-        format!("{}://{}", &self.scheme, decoded)
+        format!("{}://{}", &self.scheme, path)
     }
 
     fn request_builder(&self, path: &Path) -> RequestBuilder {
@@ -542,7 +541,8 @@ pub fn add_http_object_store(context: &SessionContext, ssl_cert_file: &Option<St
 /// 2) DataFusion also strips the query string, which is important in AWS signatures. To stop it from
 ///    doing that, we URI-encode the full location to make it look like it's part of the URL path.
 ///
-/// This means that the location that our object store gets needs to be decoded (see HttpObjectStore::get_uri)
+/// DataFusion decodes that path once, so the location that our object store gets is the original one
+/// (see HttpObjectStore::get_uri)
 ///
 /// Returns a `None` if the location doesn't start with `http://` / `https://`.
 pub fn try_prepare_http_url(location: &str) -> Option<String> {
-- 
2.43.0


From 124edd3cf55d17f1b2b53f315bf0af94b847415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:25 +0000
Subject: [PATCH 47/70] fix: check that HTTP servers reply with what was asked
 for

---
 src/object_store/http.rs | 200 ++++++++++++++++++++++++++-------------
 1 file changed, 133 insertions(+), 67 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index e647226..32b3e2d 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -7,8 +7,8 @@ use futures::{stream, StreamExt, TryStreamExt};
 use chrono::{DateTime, TimeZone, Utc};
 use object_store::path::Path;
 use object_store::{
-    GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
-    ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
+    GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload,
+    ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
 use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use reqwest::header::HeaderMap;
@@ -41,7 +41,54 @@ pub const ANYHOST: &str = "anyhost";
 
 lazy_static! {
     static ref CONTENT_RANGE_RE: Regex =
-        Regex::new(r"(^bytes)\s+(\d+)\s?-\s?(\d+)?\s?/?\s?(\d+|\*)?").unwrap();
+        Regex::new(r"^bytes\s+(\d+)\s?-\s?(\d+)\s?/\s?(\d+)$").unwrap();
+}
+
+/// The part of the object that a server has sent, and the total size of the object
+#[derive(Debug)]
+struct ContentRange {
+    range: Range<usize>,
+    size: usize,
+}
+
+impl ContentRange {
+    /// Parse a content range of the form `bytes <range-start>-<range-end>/<size>`
+    ///
+    /// <https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Content-Range>
+    fn from_headers(headers: &HeaderMap) -> Result<Self, HttpObjectStoreError> {
+        headers
+            .get(CONTENT_RANGE)
+            .and_then(|value| value.to_str().ok())
+            .and_then(|value| {
+                let captures = CONTENT_RANGE_RE.captures(value.trim())?;
+                let start: usize = captures[1].parse().ok()?;
+                let end: usize = captures[2].parse().ok()?;
+                let size: usize = captures[3].parse().ok()?;
+                // Some servers don't trim the end to the size of the object
+                let end = end.checked_add(1)?.min(size);
+
+                (start < end).then_some(Self {
+                    range: start..end,
+                    size,
+                })
+            })
+            .ok_or(HttpObjectStoreError::ContentRangeError)
+    }
+
+    /// Check that this is all of the part of the object that was asked for
+    fn ensure_matches(&self, expected: &GetRange) -> Result<(), HttpObjectStoreError> {
+        let expected = match expected {
+            GetRange::Bounded(r) => r.start..r.end.min(self.size),
+            GetRange::Offset(o) => *o..self.size,
+            GetRange::Suffix(n) => self.size.saturating_sub(*n)..self.size,
+        };
+
+        if self.range == expected {
+            Ok(())
+        } else {
+            Err(HttpObjectStoreError::ContentRangeError)
+        }
+    }
 }
 
 #[derive(Debug)]
@@ -51,8 +98,8 @@ pub struct HttpObjectStore {
 }
 
 impl Display for HttpObjectStore {
-    fn fmt(&self, _f: &mut Formatter<'_>) -> std::fmt::Result {
-        todo!()
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        write!(f, "HttpObjectStore({})", self.scheme)
     }
 }
 
@@ -65,6 +112,7 @@ enum HttpObjectStoreError {
     HttpClientError(reqwest::Error),
     RangesUnsupported,
     HeaderParsingError(String),
+    UnexpectedStatus(StatusCode),
 }
 
 impl From<HttpObjectStoreError> for object_store::Error {
@@ -76,6 +124,34 @@ impl From<HttpObjectStoreError> for object_store::Error {
     }
 }
 
+impl HttpObjectStoreError {
+    /// Convert to the error that the callers expect for this location
+    fn for_location(self, location: &Path) -> object_store::Error {
+        let status = match &self {
+            Self::HttpClientError(e) => e.status(),
+            Self::UnexpectedStatus(status) => Some(*status),
+            _ => None,
+        };
+        let path = location.to_string();
+
+        match status {
+            Some(StatusCode::NOT_FOUND) => object_store::Error::NotFound {
+                path,
+                source: Box::new(self),
+            },
+            Some(StatusCode::NOT_MODIFIED) => object_store::Error::NotModified {
+                path,
+                source: Box::new(self),
+            },
+            Some(StatusCode::PRECONDITION_FAILED) => object_store::Error::Precondition {
+                path,
+                source: Box::new(self),
+            },
+            _ => self.into(),
+        }
+    }
+}
+
 impl From<reqwest::Error> for HttpObjectStoreError {
     fn from(e: reqwest::Error) -> Self {
         Self::HttpClientError(e)
@@ -98,6 +174,9 @@ impl Display for HttpObjectStoreError {
             Self::HeaderParsingError(e) => {
                 writeln!(f, "HTTP response header error: {e:?}")
             }
+            Self::UnexpectedStatus(status) => {
+                writeln!(f, "Unexpected HTTP response status: {status}")
+            }
         }
     }
 }
@@ -211,28 +290,20 @@ impl HttpObjectStore {
     async fn head_via_get(&self, location: &Path) -> object_store::Result<ObjectMeta> {
         let response = self
             .send(self.request_builder(location).header("Range", "bytes=0-0"))
-            .await?;
+            .await
+            .map_err(|e| e.for_location(location))?;
 
-        let content_range_str = response
-            .headers()
-            .get(header::CONTENT_RANGE)
-            .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
-            .to_str()
-            .map_err(|_| HttpObjectStoreError::NoContentLengthResponse)?;
+        if response.status() != StatusCode::PARTIAL_CONTENT {
+            return Err(HttpObjectStoreError::NoContentLengthResponse.into());
+        }
 
-        let length = CONTENT_RANGE_RE
-            .captures(content_range_str)
-            .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
-            .get(4)
-            .unwrap()
-            .as_str() // The regex is static, so capture group 4 is guaranteed to exist
-            .parse::<u64>()
-            .map_err(|_| HttpObjectStoreError::NoContentLengthResponse)?;
+        let content_range = ContentRange::from_headers(response.headers())?;
+        content_range.ensure_matches(&GetRange::Bounded(0..1))?;
 
         Ok(ObjectMeta {
             location: location.clone(),
             last_modified: Utc::now(),
-            size: usize::try_from(length).expect("unsupported size on this platform"),
+            size: content_range.size,
             e_tag: None,
             version: None,
         })
@@ -292,7 +363,20 @@ impl ObjectStore for HttpObjectStore {
     ) -> object_store::Result<GetResult> {
         let response = self
             .send(self.request_builder_with_get_options(location, &options))
-            .await?;
+            .await
+            .map_err(|e| e.for_location(location))?;
+
+        // Anything else wouldn't be (just) what was asked for
+        let (status, expected_status) = match options.range {
+            Some(_) => (response.status(), StatusCode::PARTIAL_CONTENT),
+            None => (response.status(), StatusCode::OK),
+        };
+        if status != expected_status {
+            return Err(
+                HttpObjectStoreError::UnexpectedStatus(status).for_location(location)
+            );
+        }
+
         let headers = response.headers().clone();
         let mut meta = header_meta(location, &headers)?;
 
@@ -304,50 +388,16 @@ impl ObjectStore for HttpObjectStore {
         );
 
         // ensure that we receive the range we asked for
-        let range = if let Some(_expected) = options.range {
-            let val = headers
-                .get(CONTENT_RANGE)
-                .ok_or(HttpObjectStoreError::ContentRangeError)?;
-
-            // Also copied from object_store, private there
-            struct ContentRange {
-                /// The range of the object returned
-                range: Range<usize>,
-                /// The total size of the object being requested
-                size: usize,
+        let range = if let Some(expected) = options.range {
+            let content_range = ContentRange::from_headers(&headers)?;
+            content_range.ensure_matches(&expected)?;
+            if meta.size != content_range.range.len() {
+                return Err(HttpObjectStoreError::ContentRangeError.into());
             }
 
-            impl ContentRange {
-                /// Parse a content range of the form `bytes <range-start>-<range-end>/<size>`
-                ///
-                /// <https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Content-Range>
-                fn from_str(s: &str) -> Option<Self> {
-                    let rem = s.trim().strip_prefix("bytes ")?;
-                    let (range, size) = rem.split_once('/')?;
-                    let size = size.parse().ok()?;
-
-                    let (start_s, end_s) = range.split_once('-')?;
-
-                    let start = start_s.parse().ok()?;
-                    let end: usize = end_s.parse().ok()?;
-
-                    Some(Self {
-                        size,
-                        range: start..end + 1,
-                    })
-                }
-            }
-
-            let value = val
-                .to_str()
-                .map_err(|_| HttpObjectStoreError::ContentRangeError)?;
-            let value = ContentRange::from_str(value)
-                .ok_or(HttpObjectStoreError::ContentRangeError)?;
-            let actual = value.range;
-
             // Update size to reflect full size of object (#5272)
-            meta.size = value.size;
-            actual
+            meta.size = content_range.size;
+            content_range.range
         } else {
             0..meta.size
         };
@@ -365,6 +415,10 @@ impl ObjectStore for HttpObjectStore {
         location: &Path,
         range: Range<usize>,
     ) -> object_store::Result<Bytes> {
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let response = self
             .send(
                 self.request_builder(location)
@@ -372,14 +426,23 @@ impl ObjectStore for HttpObjectStore {
                     // which will load bytes 0, 1, 2, 3, 4.
                     .header("Range", format!("bytes={}-{}", range.start, range.end - 1)),
             )
-            .await?;
+            .await
+            .map_err(|e| e.for_location(location))?;
 
         // If the server returned a 206: it understood our range query
         if response.status() == StatusCode::PARTIAL_CONTENT {
-            Ok(response
+            let content_range = ContentRange::from_headers(response.headers())?;
+            content_range.ensure_matches(&GetRange::Bounded(range))?;
+
+            let data = response
                 .bytes()
                 .await
-                .map_err(HttpObjectStoreError::HttpClientError)?)
+                .map_err(HttpObjectStoreError::HttpClientError)?;
+            if data.len() == content_range.range.len() {
+                Ok(data)
+            } else {
+                Err(HttpObjectStoreError::ContentRangeError.into())
+            }
         } else {
             Err(HttpObjectStoreError::RangesUnsupported.into())
         }
@@ -401,7 +464,10 @@ impl ObjectStore for HttpObjectStore {
             }
         }
 
-        let response = response?;
+        let response = response.map_err(|e| e.for_location(location))?;
+        if response.status() != StatusCode::OK {
+            return Err(HttpObjectStoreError::UnexpectedStatus(response.status()).into());
+        }
 
         let length = response
             .headers()
-- 
2.43.0


From 15fabca9fb2d58ce7f284cb2dd673ff271b2a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:25 +0000
Subject: [PATCH 48/70] fix: return errors for unusable object store settings
 and announce locations that can be opened

---
 object_store_factory/src/aws.rs | 16 ++++++----
 object_store_factory/src/lib.rs | 53 +++++++++++++++++++++++----------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/object_store_factory/src/aws.rs b/object_store_factory/src/aws.rs
index 2df0333..88e5584 100644
--- a/object_store_factory/src/aws.rs
+++ b/object_store_factory/src/aws.rs
@@ -145,11 +145,14 @@ impl S3Config {
 
     pub fn build_amazon_s3(&self) -> Result<Arc<dyn ObjectStore>, object_store::Error> {
         let mut builder = AmazonS3Builder::new()
-            .with_region(self.region.clone().unwrap_or_default())
             .with_bucket_name(self.bucket.clone())
             .with_allow_http(self.allow_http)
             .with_conditional_put(S3ConditionalPut::ETagMatch);
 
+        if let Some(region) = &self.region {
+            builder = builder.with_region(region.clone());
+        }
+
         if let Some(endpoint) = &self.endpoint {
             builder = builder.with_endpoint(endpoint.clone());
         }
@@ -165,10 +168,13 @@ impl S3Config {
                 builder = builder.with_token(token.clone())
             }
         } else {
-            assert!(
-                self.skip_signature,
-                "Access key and secret key must be provided if skip_signature is false"
-            );
+            if !self.skip_signature {
+                return Err(object_store::Error::Generic {
+                    store: "s3",
+                    source: "Access key and secret key must be provided if skip_signature is false"
+                        .into(),
+                });
+            }
             builder = builder.with_skip_signature(self.skip_signature)
         }
 
diff --git a/object_store_factory/src/lib.rs b/object_store_factory/src/lib.rs
index 58a3374..a704951 100644
--- a/object_store_factory/src/lib.rs
+++ b/object_store_factory/src/lib.rs
@@ -41,6 +41,15 @@ pub struct StorageLocationInfo {
     pub url: String,
 }
 
+fn parse_json<T: serde::de::DeserializeOwned>(
+    json_str: &str,
+) -> Result<T, object_store::Error> {
+    serde_json::from_str(json_str).map_err(|e| object_store::Error::Generic {
+        store: "config",
+        source: e.into(),
+    })
+}
+
 impl ObjectStoreConfig {
     pub fn build_from_json(
         url: &Url,
@@ -51,20 +60,21 @@ impl ObjectStoreConfig {
         match scheme {
             ObjectStoreScheme::Memory => Ok(ObjectStoreConfig::Memory),
             ObjectStoreScheme::Local => {
-                let config: LocalConfig = serde_json::from_str(json_str).unwrap();
+                let config: LocalConfig = parse_json(json_str)?;
                 Ok(ObjectStoreConfig::Local(config))
             }
             ObjectStoreScheme::AmazonS3 => {
-                let config: S3Config = serde_json::from_str(json_str).unwrap();
+                let config: S3Config = parse_json(json_str)?;
                 Ok(ObjectStoreConfig::AmazonS3(config))
             }
             ObjectStoreScheme::GoogleCloudStorage => {
-                let config: GCSConfig = serde_json::from_str(json_str).unwrap();
+                let config: GCSConfig = parse_json(json_str)?;
                 Ok(ObjectStoreConfig::GoogleCloudStorage(config))
             }
-            _ => {
-                unimplemented!();
-            }
+            _ => Err(object_store::Error::Generic {
+                store: "unsupported_url_scheme",
+                source: format!("Unsupported URL scheme: {}", url).into(),
+            }),
         }
     }
 
@@ -94,21 +104,34 @@ impl ObjectStoreConfig {
         &self,
     ) -> Result<StorageLocationInfo, object_store::Error> {
         match self {
-            ObjectStoreConfig::AmazonS3(aws_config) => Ok(StorageLocationInfo {
-                object_store: aws_config.build_amazon_s3()?,
-                options: aws_config.to_hashmap(),
-                url: aws_config.bucket_to_url(),
-            }),
+            ObjectStoreConfig::AmazonS3(aws_config) => {
+                let mut options = aws_config.to_hashmap();
+                // The requests are always signed when there are keys for that
+                if aws_config.access_key_id.is_some()
+                    && aws_config.secret_access_key.is_some()
+                {
+                    options.remove(AmazonS3ConfigKey::SkipSignature.as_ref());
+                }
+                Ok(StorageLocationInfo {
+                    object_store: aws_config.build_amazon_s3()?,
+                    options,
+                    url: aws_config.bucket_to_url(),
+                })
+            }
             ObjectStoreConfig::GoogleCloudStorage(google_config) => {
+                let mut options = google_config.to_hashmap();
+                // Not a key of the object store itself, which is that of the whole bucket
+                options.remove("prefix");
                 Ok(StorageLocationInfo {
                     object_store: google_config.build_google_cloud_storage()?,
-                    options: google_config.to_hashmap(),
+                    options,
                     url: google_config.bucket_to_url(),
                 })
             }
-            _ => {
-                unimplemented!();
-            }
+            _ => Err(object_store::Error::Generic {
+                store: "unsupported_object_store",
+                source: "Only Amazon S3 and Google Cloud Storage have a location".into(),
+            }),
         }
     }
 
-- 
2.43.0


From 800135f56c9cfec857eb2afc21e0dcda050860c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 49/70] hook: let the verification harness drive replication
 directly (cfg seafowl_verif)

---
 src/sync/mod.rs    | 16 ++++++++++++++++
 src/sync/writer.rs |  9 +++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/sync/mod.rs b/src/sync/mod.rs
index 0118158..8be3140 100644
--- a/src/sync/mod.rs
+++ b/src/sync/mod.rs
@@ -12,6 +12,22 @@ pub mod schema;
 mod utils;
 pub(crate) mod writer;
 
+// What the verification harness drives directly
+#[cfg(seafowl_verif)]
+pub mod verif {
+    use super::{schema::SyncSchema, SyncResult};
+    use arrow::array::RecordBatch;
+
+    pub use super::writer::SeafowlDataSyncWriter;
+
+    pub fn squash_batches(
+        sync_schema: &mut SyncSchema,
+        data: &[RecordBatch],
+    ) -> SyncResult<RecordBatch> {
+        super::utils::squash_batches(sync_schema, data)
+    }
+}
+
 pub(super) type Origin = String;
 pub(super) type SequenceNumber = u64;
 
diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 46e99bd..f66a9cb 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -333,6 +333,15 @@ impl SeafowlDataSyncWriter {
         Ok(())
     }
 
+    // Flush everything there is, whatever the criteria say
+    #[cfg(seafowl_verif)]
+    pub async fn verif_flush_all(&mut self) -> SyncResult<()> {
+        while let Some(url) = self.syncs.keys().next().cloned() {
+            self.flush_syncs(url).await?;
+        }
+        Ok(())
+    }
+
     // Criteria for flushing a cached entry to object storage.
     //
     // First flush any records that are explicitly beyond the configured max
-- 
2.43.0


From 5cfda4cbdea34c1ddc99141a33f557a439cbfc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 50/70] fix: keep each column's own last change when squashing,
 pair key columns by name and allow all rows to cancel out

---
 src/sync/utils.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 39d8e7e..ef1c971 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -11,7 +11,7 @@ use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
 use datafusion_expr::{col, lit, Accumulator, Expr};
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
 
@@ -81,7 +81,18 @@ pub(super) fn squash_batches(
     };
 
     let (old_pk_cols, (sort_fields, nulls)) = columns(ColumnRole::OldPk);
-    let (new_pk_cols, _) = columns(ColumnRole::NewPk);
+    // The new PKs can come in a different order than the old ones; pair them up by name.
+    let new_pk_cols = sync_schema
+        .columns()
+        .iter()
+        .filter(|col| col.role() == ColumnRole::OldPk)
+        .filter_map(|old_pk| {
+            sync_schema.columns().iter().position(|col| {
+                col.role() == ColumnRole::NewPk && col.name() == old_pk.name()
+            })
+        })
+        .map(|col_id| batch.column(col_id).clone())
+        .collect::<Vec<_>>();
 
     // NB: we must use the same row converter in order to compare fields, or else the comparison
     // might not make sense:
@@ -168,7 +179,7 @@ pub(super) fn squash_batches(
     let (mut old_pks, mut new_pks, mut changed_rows) = (
         Vec::with_capacity(rows),
         Vec::with_capacity(rows),
-        VecDeque::with_capacity(rows),
+        vec![Vec::with_capacity(rows); changed.len()],
     );
     for (id, (old_pk, new_pk, changed_row)) in column_rows.into_iter().enumerate() {
         if temp_rows.contains(&id) {
@@ -178,11 +189,8 @@ pub(super) fn squash_batches(
 
         old_pks.push(old_pk);
         new_pks.push(new_pk);
-        for (idx, changed_row) in changed_row.iter().enumerate() {
-            match changed_rows.get_mut(idx) {
-                None => changed_rows.push_back(vec![*changed_row]),
-                Some(v) => v.push(*changed_row),
-            };
+        for (rows, changed_row) in changed_rows.iter_mut().zip(changed_row) {
+            rows.push(changed_row);
         }
     }
 
@@ -190,8 +198,8 @@ pub(super) fn squash_batches(
     let old_pk_indices = UInt64Array::from(old_pks);
     let new_pk_indices = UInt64Array::from(new_pks);
     let changed_indices = changed_rows
-        .iter()
-        .map(|rows| UInt64Array::from(rows.clone()))
+        .into_iter()
+        .map(UInt64Array::from)
         .collect::<Vec<_>>();
     let mut changed_pos = 0;
     let mut indices: HashMap<usize, &UInt64Array> = HashMap::new();
@@ -209,7 +217,7 @@ pub(super) fn squash_batches(
                 }
                 ColumnRole::Changed => {
                     // Insert the indices for both this column...
-                    indices.insert(col_id, &changed_indices[0]);
+                    indices.insert(col_id, &changed_indices[changed_pos]);
 
                     // ... as well as for the actual changed Value column
                     let changed_col_id = schema
@@ -221,7 +229,7 @@ pub(super) fn squash_batches(
                                 .name(),
                         )
                         .expect("Field exists");
-                    indices.insert(changed_col_id, &changed_indices[0]);
+                    indices.insert(changed_col_id, &changed_indices[changed_pos]);
                     changed_pos += 1;
                 }
                 ColumnRole::Value => {
-- 
2.43.0


From ce5d0537c2b0cd3da9477bdf8ce82db6eec2ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 51/70] fix: tell sync schemas of different lengths apart

---
 src/sync/schema/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index 03342d0..d6ca122 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -181,14 +181,16 @@ impl SyncSchema {
     // This is a shallower check than the equality check, since it checks for the sync column roles,
     // names, data types and order (and doesn't inspect the underlying arrows field equality).
     pub fn is_compatible_with(&self, other: &SyncSchema) -> bool {
-        self.columns()
-            .iter()
-            .zip(other.columns().iter())
-            .all(|(this, other)| {
-                this.name == other.name
-                    && this.role == other.role
-                    && this.field().data_type() == other.field().data_type()
-            })
+        self.columns().len() == other.columns().len()
+            && self
+                .columns()
+                .iter()
+                .zip(other.columns().iter())
+                .all(|(this, other)| {
+                    this.name == other.name
+                        && this.role == other.role
+                        && this.field().data_type() == other.field().data_type()
+                })
     }
 }
 
-- 
2.43.0


From 34ca645db0c9006aee5d5165c0e33b3f911cce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 52/70] fix: compare whole keys when looking for moved rows and
 flush changes which cancelled out

---
 src/sync/planner.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index e60dd17..02ddbd5 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -293,11 +293,11 @@ impl SeafowlSyncPlanner {
         sync_schema: &SyncSchema,
         sync_df: DataFrame,
     ) -> SyncResult<(SyncSchema, DataFrame)> {
-        // Pick the first Old/New PK for constructing the cases below
-        let (old_pk, new_pk) = sync_schema
+        // Collect all Old/New PK pairs for constructing the cases below
+        let pks = sync_schema
             .columns()
             .iter()
-            .find_map(|sc| {
+            .filter_map(|sc| {
                 if sc.role() == ColumnRole::OldPk {
                     let old_name = sc.field().name();
                     let new_name = sync_schema
@@ -310,6 +310,22 @@ impl SeafowlSyncPlanner {
                     None
                 }
             })
+            .collect::<Vec<_>>();
+        let (old_pk, new_pk) = pks
+            .first()
+            .cloned()
+            .expect("At least 1 old PK column must exist");
+
+        // The key stays the same only if all of its columns do
+        let same_pk = pks
+            .iter()
+            .map(|(old_pk, new_pk)| old_pk.clone().eq(new_pk.clone()))
+            .reduce(Expr::and)
+            .expect("At least 1 old PK column must exist");
+        let different_pk = pks
+            .iter()
+            .map(|(old_pk, new_pk)| old_pk.clone().not_eq(new_pk.clone()))
+            .reduce(Expr::or)
             .expect("At least 1 old PK column must exist");
 
         // Filter out any temp rows
@@ -322,12 +338,12 @@ impl SeafowlSyncPlanner {
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().eq(new_pk.clone()));
+            .and(same_pk);
         let pk_changing_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().not_eq(new_pk.clone()));
+            .and(different_pk);
 
         let mut projection = vec![];
         let mut unnest_cols = vec![];
@@ -569,7 +585,8 @@ impl SeafowlSyncPlanner {
             (Some(old_pk_q), Some(new_pk_q)) => old_pk_q.or(new_pk_q),
             (Some(old_pk_q), None) => old_pk_q,
             (None, Some(new_pk_q)) => new_pk_q,
-            _ => panic!("There can be no situation without either old or new PKs"),
+            // All changes cancelled each other out, so there are no files to re-write
+            _ => return Ok(vec![]),
         };
 
         let prune_expr = create_physical_expr(
-- 
2.43.0


From 8c569fe20afdafa3d6717680affe1974120a516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 53/70] fix: refuse schemas named system or information_schema,
 whose tables no query can reach

---
 src/catalog/mod.rs        |  4 ++++
 src/catalog/repository.rs | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/catalog/mod.rs b/src/catalog/mod.rs
index b1b22e1..9be3f63 100644
--- a/src/catalog/mod.rs
+++ b/src/catalog/mod.rs
@@ -21,6 +21,7 @@ mod repository;
 pub const DEFAULT_DB: &str = "default";
 pub const DEFAULT_SCHEMA: &str = "public";
 pub const STAGING_SCHEMA: &str = "staging";
+pub const INFORMATION_SCHEMA: &str = "information_schema";
 
 #[derive(Debug, thiserror::Error)]
 pub enum CatalogError {
@@ -65,6 +66,9 @@ pub enum CatalogError {
     #[error("The staging schema can only be referenced via CREATE EXTERNAL TABLE")]
     UsedStagingSchema,
 
+    #[error("Schema name \"{name}\" is reserved")]
+    ReservedSchema { name: String },
+
     #[error("Catalog method not implemented: {reason}")]
     NotImplemented { reason: String },
 
diff --git a/src/catalog/repository.rs b/src/catalog/repository.rs
index a70cfb1..658a4a6 100644
--- a/src/catalog/repository.rs
+++ b/src/catalog/repository.rs
@@ -9,7 +9,7 @@ use clade::schema::{ListSchemaResponse, SchemaObject, TableFormat, TableObject};
 
 use crate::catalog::{
     CatalogError, CatalogResult, CatalogStore, FunctionStore, SchemaStore, TableStore,
-    STAGING_SCHEMA,
+    INFORMATION_SCHEMA, STAGING_SCHEMA,
 };
 use crate::repository::interface::{
     AllDatabaseFunctionsResult, CollectionRecord, Error as RepositoryError, Repository,
@@ -18,6 +18,7 @@ use crate::repository::interface::{
 use crate::repository::interface::{
     DatabaseRecord, DroppedTableDeletionStatus, DroppedTablesResult, TableRecord,
 };
+use crate::system_tables::SYSTEM_SCHEMA;
 use crate::wasm_udf::data_types::CreateFunctionDetails;
 
 // The native catalog implementation for Seafowl.
@@ -93,6 +94,13 @@ impl SchemaStore for RepositoryStore {
             return Err(CatalogError::UsedStagingSchema);
         }
 
+        // Queries could never reach the tables of such a schema
+        if [SYSTEM_SCHEMA, INFORMATION_SCHEMA].contains(&schema_name) {
+            return Err(CatalogError::ReservedSchema {
+                name: schema_name.to_string(),
+            });
+        }
+
         let database = CatalogStore::get(self, catalog_name).await?;
 
         self.repository
-- 
2.43.0


From 8502787df90aceec89b3347f418eb519428dffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 54/70] fix: fold unquoted function and VACUUM DATABASE names
 to lower case, as queries do

---
 src/context/logical.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index d702387..a0b4904 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -1,7 +1,7 @@
 use crate::catalog::DEFAULT_SCHEMA;
 use crate::context::SeafowlContext;
 use crate::datafusion::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA};
-use crate::datafusion::utils::build_schema;
+use crate::datafusion::utils::{build_schema, normalize_ident};
 use crate::nodes::Truncate;
 use crate::wasm_udf::data_types::CreateFunctionDetails;
 use crate::{
@@ -29,12 +29,20 @@ use deltalake::DeltaTable;
 use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
-    CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
-    SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
+    CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectName, ObjectType,
+    Query, SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
 use tracing::debug;
 
+// The name by which queries find a function: identifiers that aren't quoted are lowercase
+fn normalize_function_name(name: &ObjectName) -> String {
+    match name.0.as_slice() {
+        [ident] => normalize_ident(ident),
+        _ => name.to_string(),
+    }
+}
+
 pub fn is_read_only(plan: &LogicalPlan) -> bool {
     !matches!(
         plan,
@@ -245,7 +253,7 @@ impl SeafowlContext {
                     Ok(LogicalPlan::Extension(Extension {
                         node: Arc::new(SeafowlExtensionNode::CreateFunction(CreateFunction {
                             or_replace: *or_replace,
-                            name: name.to_string(),
+                            name: normalize_function_name(name),
                             details: function_details,
                             output_schema: Arc::new(DFSchema::empty())
                         })),
@@ -261,7 +269,7 @@ impl SeafowlContext {
                     let mut database = None;
                     if let Some(sql_exprs) = partitions {
                         if let [SqlExpr::Identifier(name)] = sql_exprs.as_slice() {
-                            database = Some(name.value.clone());
+                            database = Some(normalize_ident(name));
                         }
                     }
 
@@ -287,7 +295,7 @@ impl SeafowlContext {
                     option: _
                 } => {
                     let func_names: Vec<String> =
-                        func_desc.iter().map(|desc| desc.name.to_string()).collect();
+                        func_desc.iter().map(|desc| normalize_function_name(&desc.name)).collect();
                     Ok(LogicalPlan::Extension(Extension {
                         node: Arc::new(SeafowlExtensionNode::DropFunction(DropFunction {
                             if_exists: *if_exists,
-- 
2.43.0


From 99133e4b570e15334eeca1a800233fe0f46e4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 55/70] fix: forget functions dropped elsewhere when reloading
 the schema

---
 src/context/mod.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 03a912c..06c6b03 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -15,6 +15,8 @@ use base64::{engine::general_purpose::STANDARD, Engine};
 pub use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::{
     error::DataFusionError,
+    execution::SessionStateDefaults,
+    logical_expr::expr_fn::SimpleScalarUDF,
     prelude::SessionContext,
     sql::{ResolvedTableReference, TableReference},
 };
@@ -103,10 +105,37 @@ impl SeafowlContext {
             Arc::new(self.metastore.build_catalog(&self.default_catalog).await?),
         );
 
-        // Register all functions in the database
-        self.metastore
+        let functions = self
+            .metastore
             .build_functions(&self.default_catalog)
-            .await?
+            .await?;
+
+        // Forget the functions which aren't in the database (anymore)
+        let stale = self
+            .inner
+            .state_ref()
+            .read()
+            .scalar_functions()
+            .iter()
+            .filter(|(name, udf)| {
+                udf.inner().as_any().is::<SimpleScalarUDF>()
+                    && !functions.iter().any(|f| f.name == **name)
+            })
+            .map(|(name, _)| name.clone())
+            .collect::<Vec<_>>();
+        for name in stale {
+            self.inner.deregister_udf(&name);
+            // The function may have been hiding a built-in one
+            if let Some(udf) = SessionStateDefaults::default_scalar_functions()
+                .into_iter()
+                .find(|udf| udf.name() == name || udf.aliases().contains(&name))
+            {
+                self.inner.register_udf(udf.as_ref().clone());
+            }
+        }
+
+        // Register all functions in the database
+        functions
             .iter()
             .try_for_each(|f| self.register_function(&f.name, &f.details))
     }
-- 
2.43.0


From 5e2255809251c83715b1a9c1ab123bc52f5d3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 56/70] fix: keep the case of quoted external table names

---
 src/context/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 06c6b03..06c10d7 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -154,14 +154,9 @@ impl SeafowlContext {
     // We create all external tables in the staging schema (backed by DataFusion's
     // in-memory schema provider) instead.
     fn resolve_staging_ref(&self, name: &TableReference) -> Result<TableReference> {
-        // NB: Since Datafusion 16.0.0 for external tables the parsed ObjectName is coerced into the
-        // `TableReference::Bare` enum variant, since qualified names are not supported for them
-        // (see `external_table_to_plan` in datafusion-sql).
-        //
-        // This means that any potential catalog/schema references get condensed into the name, so
-        // we have to unravel that name here again, and then resolve it properly.
-        let reference = TableReference::from(name.to_string());
-        let resolved_reference = reference.resolve(&self.default_catalog, STAGING_SCHEMA);
+        let resolved_reference = name
+            .clone()
+            .resolve(&self.default_catalog, STAGING_SCHEMA);
 
         if resolved_reference.catalog.as_ref() != self.default_catalog
             || resolved_reference.schema.as_ref() != STAGING_SCHEMA
-- 
2.43.0


From c26143003bcf0293a465d426502ce0a08a828a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:36 +0000
Subject: [PATCH 57/70] fix: keep inline metastore queries from replacing other
 queries' catalog

---
 src/context/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 06c10d7..a81b243 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -73,9 +73,16 @@ impl SeafowlContext {
     }
 
     pub fn with_metastore(&self, metastore: Arc<Metastore>) -> Arc<SeafowlContext> {
+        // Use a separate session, so that registering the catalog of this metastore doesn't
+        // replace the one that queries against the original metastore get planned with
+        let state = build_state_with_table_factories(
+            self.inner().copied_config(),
+            self.inner().runtime_env(),
+        );
+
         Arc::from(SeafowlContext {
             config: self.config.clone(),
-            inner: self.inner.clone(),
+            inner: SessionContext::new_with_state(state),
             metastore,
             internal_object_store: self.internal_object_store.clone(),
             default_catalog: self.default_catalog.clone(),
-- 
2.43.0


From 9e411c7aeb9658b330c0db4b9c2919b214cdfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:36 +0000
Subject: [PATCH 58/70] fix: answer unexpected Flight commands with an error
 instead of panicking

---
 src/frontend/flight/sql.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/frontend/flight/sql.rs b/src/frontend/flight/sql.rs
index 0ad0bd7..dbdd07c 100644
--- a/src/frontend/flight/sql.rs
+++ b/src/frontend/flight/sql.rs
@@ -117,7 +117,12 @@ impl FlightSqlService for SeafowlFlightHandler {
                 warn!(err);
                 Status::invalid_argument(err)
             })?,
-            _ => unreachable!("The fallback method should only be called with `Command::Unknown` variant"),
+            cmd => {
+                return Err(Status::unimplemented(format!(
+                    "get_flight_info is not implemented for command {}",
+                    cmd.type_url()
+                )))
+            }
         };
 
         let query_id = Uuid::new_v4().to_string();
@@ -129,7 +134,9 @@ impl FlightSqlService for SeafowlFlightHandler {
         );
 
         let memory_store = MemoryStore {
-            schemas: inline_query.schemas.expect("Schema list provided"),
+            schemas: inline_query.schemas.ok_or_else(|| {
+                Status::invalid_argument("No schema list provided with the command")
+            })?,
         };
 
         let info = self
-- 
2.43.0


From a5dcc1abec8c13a4c6eadd1bb54140b295fa3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:32 +0000
Subject: [PATCH 59/70] fix: issue redeemable tickets for Flight SQL server
 information

---
 src/frontend/flight/sql.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/frontend/flight/sql.rs b/src/frontend/flight/sql.rs
index dbdd07c..32d9544 100644
--- a/src/frontend/flight/sql.rs
+++ b/src/frontend/flight/sql.rs
@@ -9,7 +9,8 @@ use arrow_flight::error::FlightError;
 use arrow_flight::flight_service_server::FlightService;
 use arrow_flight::sql::server::{FlightSqlService, PeekableFlightDataStream};
 use arrow_flight::sql::{
-    Any, Command, CommandGetSqlInfo, CommandStatementQuery, SqlInfo, TicketStatementQuery,
+    Any, Command, CommandGetSqlInfo, CommandStatementQuery, ProstMessageExt, SqlInfo,
+    TicketStatementQuery,
 };
 use arrow_flight::{
     FlightDescriptor, FlightEndpoint, FlightInfo, HandshakeRequest, HandshakeResponse,
@@ -68,7 +69,7 @@ impl FlightSqlService for SeafowlFlightHandler {
             request.metadata()
         );
         let flight_descriptor = request.into_inner();
-        let ticket = Ticket::new(query.encode_to_vec());
+        let ticket = Ticket::new(query.as_any().encode_to_vec());
         let endpoint = FlightEndpoint::new().with_ticket(ticket);
 
         let flight_info = FlightInfo::new()
@@ -80,6 +81,23 @@ impl FlightSqlService for SeafowlFlightHandler {
         Ok(Response::new(flight_info))
     }
 
+    // Redeem the ticket issued above
+    async fn do_get_sql_info(
+        &self,
+        query: CommandGetSqlInfo,
+        _request: Request<Ticket>,
+    ) -> Result<Response<<Self as FlightService>::DoGetStream>, Status> {
+        let builder = query.into_builder(&SEAFOWL_SQL_DATA);
+        let schema = builder.schema();
+        let batch = builder.build().map_err(FlightError::from);
+        let stream = FlightDataEncoderBuilder::new()
+            .with_schema(schema)
+            .build(futures::stream::once(async { batch }))
+            .map_err(Status::from);
+
+        Ok(Response::new(Box::pin(stream)))
+    }
+
     // As per the spec, we should execute the query here
     // https://arrow.apache.org/docs/format/FlightSql.html#query-execution
     async fn get_flight_info_statement(
-- 
2.43.0


From 5e2eeb0679a9c95646f5e2cfa310d0d36decd634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:52 +0000
Subject: [PATCH 60/70] fix: report success for a table created while the
 session reloaded its catalog

---
 src/context/delta.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index 7db3b26..57edddf 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -419,7 +419,11 @@ impl SeafowlContext {
         }
 
         let table = Arc::new(table);
-        self.inner.register_table(resolved_ref, table.clone())?;
+        // The session may already know of this table (if reloaded in the meantime), or still hold
+        // one that was dropped since; the table is there in either case
+        if !self.inner.table_exist(resolved_ref.clone())? {
+            self.inner.register_table(resolved_ref, table.clone())?;
+        }
         debug!("Created new table {table}");
         Ok(table)
     }
-- 
2.43.0


From 16826c5ff3815c2928418a73e1378104cbaf0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:52 +0000
Subject: [PATCH 61/70] fix: give each HTTP and Flight query a session of its
 own

Queries sharing the session replaced each other's snapshot of the catalog,
so one running at the same time as DDL could fail or see the wrong tables.
---
 src/frontend/flight/handler.rs |  5 ++++-
 src/frontend/http.rs           | 31 ++++++++++++++++++-------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/frontend/flight/handler.rs b/src/frontend/flight/handler.rs
index 36287b9..e77458f 100644
--- a/src/frontend/flight/handler.rs
+++ b/src/frontend/flight/handler.rs
@@ -80,7 +80,10 @@ impl SeafowlFlightHandler {
                     .to_string(),
             )
         } else {
-            self.context.clone()
+            // Use a separate session, so that concurrent queries don't replace each other's
+            // snapshot of the catalog
+            self.context
+                .scope_to_schema(self.context.default_schema.clone())
         };
 
         if let Some(memory_store) = memory_store {
diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 9ea3c0b..327e3b6 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -162,6 +162,21 @@ async fn plan_to_response(
     Ok(Response::new(body))
 }
 
+/// Use a separate session for each request, so that concurrent ones don't replace each other's
+/// snapshot of the catalog.
+fn context_for_request(
+    context: &Arc<SeafowlContext>,
+    database_name: String,
+) -> Arc<SeafowlContext> {
+    if database_name != context.default_catalog {
+        // If a specific DB name was used as a parameter in the route, scope the context to it,
+        // effectively making it the default DB for the duration of the session.
+        context.scope_to_catalog(database_name)
+    } else {
+        context.scope_to_schema(context.default_schema.clone())
+    }
+}
+
 /// POST /q or /[database_name]/q
 pub async fn uncached_read_write_query(
     database_name: String,
@@ -171,11 +186,7 @@ pub async fn uncached_read_write_query(
 ) -> Result<Response, ApiError> {
     let timer = Instant::now();
 
-    // If a specific DB name was used as a parameter in the route, scope the context to it,
-    // effectively making it the default DB for the duration of the session.
-    if database_name != context.default_catalog {
-        context = context.scope_to_catalog(database_name);
-    }
+    context = context_for_request(&context, database_name);
 
     let statements = context.parse_query(&query).await?;
 
@@ -335,11 +346,7 @@ pub async fn cached_read_query(
         percent_decode_str(query_or_hash).decode_utf8()?.to_string()
     };
 
-    // If a specific DB name was used as a parameter in the route, scope the context to it,
-    // effectively making it the default DB for the duration of the session.
-    if database_name != context.default_catalog {
-        context = context.scope_to_catalog(database_name);
-    }
+    context = context_for_request(&context, database_name);
 
     // Plan the query
     let plan = context.create_logical_plan(&decoded_query).await?;
@@ -395,9 +402,7 @@ pub async fn upload(
         return Err(ApiError::WriteForbidden);
     };
 
-    if database_name != context.default_catalog {
-        context = context.scope_to_catalog(database_name.clone());
-    }
+    context = context_for_request(&context, database_name.clone());
 
     let mut has_header = true;
     let mut schema: Option<SchemaRef> = None;
-- 
2.43.0


From 858cf279c4ca2822b2b93e2cc0aee264d53ba859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:12 +0000
Subject: [PATCH 62/70] fix: read tables as of a time from their own store,
 schema and name as written

---
 src/context/logical.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index a0b4904..7a556fd 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -1,4 +1,3 @@
-use crate::catalog::DEFAULT_SCHEMA;
 use crate::context::SeafowlContext;
 use crate::datafusion::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA};
 use crate::datafusion::utils::{build_schema, normalize_ident};
@@ -387,7 +386,7 @@ impl SeafowlContext {
     async fn rewrite_time_travel_query(&self, q: &mut Query) -> Result<SessionState> {
         let mut version_processor = TableVersionProcessor::new(
             self.default_catalog.clone(),
-            DEFAULT_SCHEMA.to_string(),
+            self.default_schema.clone(),
         );
         q.visit(&mut version_processor);
 
@@ -408,15 +407,22 @@ impl SeafowlContext {
             let name_with_version =
                 TableVersionProcessor::table_with_version(table, version);
 
-            let full_table_name = table.to_string();
-            let mut resolved_ref = TableReference::from(full_table_name.as_str())
-                .resolve(&self.default_catalog, &self.default_schema);
+            // These are already normalized, so they shouldn't be parsed again
+            let mut resolved_ref = match table.0.as_slice() {
+                [catalog, schema, table] => TableReference::full(
+                    catalog.value.as_str(),
+                    schema.value.as_str(),
+                    table.value.as_str(),
+                ),
+                _ => TableReference::from(table.to_string()),
+            }
+            .resolve(&self.default_catalog, &self.default_schema);
 
             // We only support datetime DeltaTable version specification for start
-            let table_uuid = self.get_table_uuid(resolved_ref.clone()).await?;
             let table_log_store = self
-                .get_internal_object_store()?
-                .get_log_store(&table_uuid.to_string());
+                .try_get_delta_table(resolved_ref.clone())
+                .await?
+                .log_store();
             let datetime = TableVersionProcessor::version_to_datetime(version)?;
 
             let mut delta_table = DeltaTable::new(table_log_store, Default::default());
-- 
2.43.0


From 2f2685ba8caaf4520cde11fd0e00c51e7017bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:12 +0000
Subject: [PATCH 63/70] fix: refuse changes of tables before making them when
 the catalog can't record them

---
 src/catalog/mod.rs          | 6 ++++++
 src/catalog/repository.rs   | 4 ++++
 src/context/delta.rs        | 2 ++
 src/context/physical.rs     | 6 ++++++
 src/repository/default.rs   | 8 ++++++++
 src/repository/interface.rs | 3 +++
 6 files changed, 29 insertions(+)

diff --git a/src/catalog/mod.rs b/src/catalog/mod.rs
index 9be3f63..c39f9f4 100644
--- a/src/catalog/mod.rs
+++ b/src/catalog/mod.rs
@@ -196,6 +196,12 @@ pub trait SchemaStore: Debug + Sync + Send {
 
 #[async_trait]
 pub trait TableStore: Debug + Sync + Send {
+    // Meant to be called prior to changing any of the objects that make up a table, given that
+    // those changes can't be recorded afterwards in a store that doesn't support it
+    async fn check_writable(&self) -> CatalogResult<()> {
+        not_impl()
+    }
+
     async fn create(
         &self,
         _catalog_name: &str,
diff --git a/src/catalog/repository.rs b/src/catalog/repository.rs
index 658a4a6..cb642eb 100644
--- a/src/catalog/repository.rs
+++ b/src/catalog/repository.rs
@@ -198,6 +198,10 @@ impl SchemaStore for RepositoryStore {
 
 #[async_trait]
 impl TableStore for RepositoryStore {
+    async fn check_writable(&self) -> CatalogResult<()> {
+        Ok(self.repository.check_writable().await?)
+    }
+
     async fn create(
         &self,
         catalog_name: &str,
diff --git a/src/context/delta.rs b/src/context/delta.rs
index 57edddf..36495ac 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -314,6 +314,7 @@ impl SeafowlContext {
             .schemas
             .get(&resolved_ref.catalog, &schema_name)
             .await?;
+        self.metastore.tables.check_writable().await?;
 
         // The version that has the initial rows, if there are any
         let mut data_version = None;
@@ -479,6 +480,7 @@ impl SeafowlContext {
         plan: &Arc<dyn ExecutionPlan>,
     ) -> Result<DeltaTable> {
         let name = name.into();
+        self.metastore.tables.check_writable().await?;
         let table_uuid = self.get_table_uuid(name.clone()).await?;
         let table_schema = self.inner.table_provider(name).await?.schema();
         let (table, version) = self.append_plan(table_uuid, table_schema, plan).await?;
diff --git a/src/context/physical.rs b/src/context/physical.rs
index f799355..dadb382 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -247,6 +247,8 @@ impl SeafowlContext {
                     ));
                 };
 
+                self.metastore.tables.check_writable().await?;
+
                 let mut table = self.try_get_delta_table(table_name.clone()).await?;
                 table.load().await?;
                 let snapshot = table.snapshot()?;
@@ -377,6 +379,7 @@ impl SeafowlContext {
                 ..
             }) => {
                 let internal_object_store = self.get_internal_object_store()?;
+                self.metastore.tables.check_writable().await?;
                 let uuid = self.get_table_uuid(table_name.clone()).await?;
 
                 let mut table = self.try_get_delta_table(table_name.clone()).await?;
@@ -708,6 +711,8 @@ impl SeafowlContext {
                         SeafowlExtensionNode::Truncate(Truncate {
                             table_name, ..
                         }) => {
+                            self.metastore.tables.check_writable().await?;
+
                             let mut table = self.try_get_delta_table(table_name).await?;
                             table.load().await?;
                             let snapshot = table.snapshot()?;
@@ -764,6 +769,7 @@ impl SeafowlContext {
                                 )
                                 .await;
                             } else if let Some(table_name) = table_name {
+                                self.metastore.tables.check_writable().await?;
                                 let resolved_ref = self.resolve_table_ref(table_name);
 
                                 if let Ok(mut delta_table) =
diff --git a/src/repository/default.rs b/src/repository/default.rs
index 2deea92..8eef116 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -281,6 +281,14 @@ impl Repository for $repo {
         Ok((new_table_id, new_version_id))
     }
 
+    async fn check_writable(&self) -> Result<(), Error> {
+        sqlx::query("UPDATE table_version SET version = version WHERE 1 = 0")
+            .execute(&self.executor)
+            .await
+            .map_err($repo::interpret_error)?;
+        Ok(())
+    }
+
     async fn delete_old_versions(
         &self,
         table_id: TableId,
diff --git a/src/repository/interface.rs b/src/repository/interface.rs
index 54639bf..df7ef87 100644
--- a/src/repository/interface.rs
+++ b/src/repository/interface.rs
@@ -155,6 +155,9 @@ pub trait Repository: Send + Sync + Debug {
         uuid: Uuid,
     ) -> Result<(TableId, TableVersionId), Error>;
 
+    /// Error out if the database doesn't accept any writes (e.g. it's a read replica)
+    async fn check_writable(&self) -> Result<(), Error>;
+
     async fn delete_old_versions(&self, table_id: TableId) -> Result<u64, Error>;
 
     async fn create_new_version(
-- 
2.43.0


From 30c968bdfd99f1ece7019d348ed2ac5a5347162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:17 +0000
Subject: [PATCH 64/70] fix: run the statements typed into the CLI one after
 the other

---
 src/cli/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 132aa1a..e00012f 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -101,18 +101,14 @@ impl SeafowlCli {
         // Parse queries into statements
         let statements = self.ctx.parse_query(query).await?;
 
-        // Generate physical plans from the statements
-        let mut plans = vec![];
+        // Run each of the statements and print its output before going on to the next one, which
+        // can change (or remove) what this one reads, or fail
         for statement in statements {
             let logical = self
                 .ctx
                 .create_logical_plan_from_statement(statement)
                 .await?;
-            plans.push(self.ctx.create_physical_plan(&logical).await?);
-        }
-
-        // Collect batches and print them
-        for plan in plans {
+            let plan = self.ctx.create_physical_plan(&logical).await?;
             let batches = self.ctx.collect(plan).await?;
             if !batches.is_empty() {
                 println!(
-- 
2.43.0


From 029a57e9df74abe334259d18bf4ab3b5720e4904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:17 +0000
Subject: [PATCH 65/70] fix: COUNT(*) and other queries that need no columns
 failed on remote tables, as an empty select list was sent

---
 datafusion_remote_tables/src/provider.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/datafusion_remote_tables/src/provider.rs b/datafusion_remote_tables/src/provider.rs
index aec8b73..b7f09f3 100644
--- a/datafusion_remote_tables/src/provider.rs
+++ b/datafusion_remote_tables/src/provider.rs
@@ -133,15 +133,21 @@ impl TableProvider for RemoteTable {
 
         if let Some(indices) = projection {
             schema = schema.project(indices)?;
-            columns = schema
-                .fields()
-                .iter()
-                .map(|f| match self.source_conn.ty {
-                    SourceType::MySQL => quote_identifier_backticks(f.name()),
-                    _ => quote_identifier_double_quotes(f.name()),
-                })
-                .collect::<Vec<String>>()
-                .join(", ")
+            columns = if indices.is_empty() {
+                // Only the number of rows matters (e.g. for COUNT(*)), but an empty select list
+                // isn't valid SQL in most sources
+                "1".to_string()
+            } else {
+                schema
+                    .fields()
+                    .iter()
+                    .map(|f| match self.source_conn.ty {
+                        SourceType::MySQL => quote_identifier_backticks(f.name()),
+                        _ => quote_identifier_double_quotes(f.name()),
+                    })
+                    .collect::<Vec<String>>()
+                    .join(", ")
+            }
         }
 
         // Apply LIMIT if any
-- 
2.43.0


From d629762876e280ddb3b6e9cb1aedee1ff64d83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:17 +0000
Subject: [PATCH 66/70] fix: squashing pending syncs raised the in-memory rows
 metric by the rows removed, for good, instead of lowering it

---
 src/sync/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index f66a9cb..1fadb6c 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -565,7 +565,7 @@ impl SeafowlDataSyncWriter {
                     .squashed_rows
                     .increment(old_rows.saturating_sub(rows) as u64);
                 self.metrics.in_memory_bytes.decrement(size_delta as f64);
-                self.metrics.in_memory_rows.increment(rows_delta as f64);
+                self.metrics.in_memory_rows.decrement(rows_delta as f64);
 
                 self.size -= old_size;
                 self.size += size;
-- 
2.43.0


From 8d64f6f1ff0d46110d31f447a03c0193b47fc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:45 +0000
Subject: [PATCH 67/70] fix: requests refused by a filter (missing rights,
 wrong token, no query) were logged and counted with status 500 instead of the
 status replied with

---
 src/frontend/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 327e3b6..27557e2 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -669,9 +669,10 @@ pub fn filters(
         .or(upload_route)
         .or(health_route)
         .with(cors)
-        .with(log)
         .map(|r| with_header(r, header::VARY, VARY))
         .recover(handle_rejection)
+        // Log last, so that rejected requests are logged and counted with the status we reply with
+        .with(log)
 }
 
 pub async fn run_server(
-- 
2.43.0


From 5d958f6db2eb1a1d5226b94861881c3a2b36f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:06 +0000
Subject: [PATCH 68/70] fix: the flush time metric is named in seconds, but was
 recorded in milliseconds

---
 src/sync/writer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 1fadb6c..0cf63ec 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -518,8 +518,7 @@ impl SeafowlDataSyncWriter {
         self.advance_durable();
 
         // Record flush metrics
-        let flush_duration = start.elapsed().as_millis();
-        self.metrics.flush_time.record(flush_duration as f64);
+        self.metrics.flush_time.record(start.elapsed().as_secs_f64());
         self.metrics.flush_bytes.increment(size as u64);
         self.metrics.flush_rows.increment(rows as u64);
         self.metrics.flush_last.set(now() as f64);
-- 
2.43.0


From 75c06925874c0a5dfdc3a2116cb64f362451a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:30 +0000
Subject: [PATCH 69/70] fix: an upload limit of 2^44 MB or more overflowed, so
 that the HTTP server didn't start (or allowed no uploads)

---
 src/frontend/http.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 27557e2..645b6d3 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -647,7 +647,9 @@ pub fn filters(
         .unify()
         .and(with_auth(access_policy))
         .and(
-            warp::multipart::form().max_length(config.upload_data_max_length * MEBIBYTES),
+            warp::multipart::form().max_length(
+                config.upload_data_max_length.saturating_mul(MEBIBYTES),
+            ),
         )
         .and(warp::any().map(move || ctx.clone()))
         .then(upload)
-- 
2.43.0


From 26086731b280d2b73d09e5906d8f1c7e024d2a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:30 +0000
Subject: [PATCH 70/70] fix: multipart uploads begun with options were missing
 from the object store request metrics

---
 src/object_store/cache.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 740614f..1330f23 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -647,7 +647,14 @@ impl ObjectStore for CachingObjectStore {
         location: &object_store::path::Path,
         opts: PutMultipartOpts,
     ) -> object_store::Result<Box<dyn MultipartUpload>> {
-        self.inner.put_multipart_opts(location, opts).await
+        let start = Instant::now();
+        let result = self.inner.put_multipart_opts(location, opts).await;
+        self.metrics.log_object_store_outbound_request(
+            start,
+            "put_multipart",
+            Some(result.is_ok()),
+        );
+        result
     }
 
     async fn get_opts(
-- 
2.43.0

