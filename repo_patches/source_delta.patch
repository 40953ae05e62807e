From ae5101343de78ed7a638c564dd6eacab1b07c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/57] fix: create a catalog table and its columns in one
 transaction

The columns were inserted after the transaction that creates the table had been
committed: when that failed (duplicate column names, a database error), the
caller got an error but a table without columns was left behind.
---
 src/repository/default.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index aa853d9..b926f69 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -254,8 +254,6 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         // Create columns
         // TODO this breaks if we have more than (bind limit) columns
         if !schema.fields().is_empty() {
@@ -274,9 +272,11 @@ impl Repository for $repo {
             });
 
             let query = builder.build();
-            query.execute(&self.executor).await.map_err($repo::interpret_error)?;
+            query.execute(&mut *tx).await.map_err($repo::interpret_error)?;
         }
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok((new_table_id, new_version_id))
     }
 
-- 
2.43.0


From 893dfd6f2760e9f95e90a73065e4dab79053511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 02/57] fix: record a new table version and its columns in one
 transaction

The version was committed before its columns were copied, from a last version
that had been read outside of the transaction: a failure or a concurrent pruning
in between left a version without columns. An unknown table is now reported as
such instead of as a NULL decoding error.
---
 src/repository/default.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index b926f69..b5eee1e 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -301,18 +301,20 @@ impl Repository for $repo {
         uuid: Uuid,
         version: i64,
     ) -> Result<TableVersionId, Error> {
+        let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
+
         // For now we only support linear history
-        let last_version_id: TableVersionId = sqlx::query(r#"SELECT max(table_version.id) AS id
+        let last_version_id: TableVersionId = sqlx::query(r#"SELECT table_version.id AS id
                 FROM table_version
                 JOIN "table" ON table_version.table_id = "table".id
-                WHERE "table".uuid = $1"#)
+                WHERE "table".uuid = $1
+                ORDER BY table_version.id DESC
+                LIMIT 1"#)
             .bind(uuid)
-            .fetch_one(&self.executor)
+            .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?
             .try_get("id").map_err($repo::interpret_error)?;
 
-        let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-
         let new_version_id = sqlx::query(
             "INSERT INTO table_version (table_id, version)
             SELECT table_id, $1 FROM table_version WHERE id = $2
@@ -324,17 +326,17 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         sqlx::query(
             "INSERT INTO table_column (table_version_id, name, type)
             SELECT $2, name, type FROM table_column WHERE table_version_id = $1;",
         )
         .bind(last_version_id)
         .bind(new_version_id)
-        .execute(&self.executor)
+        .execute(&mut *tx)
         .await.map_err($repo::interpret_error)?;
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok(new_version_id)
     }
 
-- 
2.43.0


From c687cf5b15785ef82efcf9445b300f03b6ff46cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 03/57] fix: drop every function named in a DROP FUNCTION, not
 just the first

All names were given the same bind parameter.
---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index b5eee1e..040b56d 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -491,7 +491,7 @@ impl Repository for $repo {
             AND name IN ({})
             RETURNING id;
             "#,
-            func_names.iter().map(|_| "$2").collect::<Vec<_>>().join(", ")
+            (0..func_names.len()).map(|i| format!("${}", i + 2)).collect::<Vec<_>>().join(", ")
         );
 
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-- 
2.43.0


From f69d901bdbd605db369574a73a02b92d941bba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 04/57] fix: store the deletion status of a dropped table as it
 is declared

The status was bound through sqlx's own encoding of the enum ("Retry"), which
the column's CHECK constraint (and the decoding) refuse, so no status could ever
be updated.
---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 040b56d..63af246 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -576,7 +576,7 @@ impl Repository for $repo {
     async fn update_dropped_table(&self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error> {
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
         sqlx::query("UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid")
-            .bind(deletion_status)
+            .bind(deletion_status.to_string())
             .bind(uuid)
             .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 5287f34b71c0192b5a5cd3789c543e29006d2d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 05/57] fix: keep the exact name of a quoted table read at a
 version

---
 src/version.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/version.rs b/src/version.rs
index f45ad52..82b147c 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -82,9 +82,9 @@ impl VisitorMut for TableVersionProcessor {
                     let resolved_ref = TableReference::from(unresolved_name.as_str())
                         .resolve(&self.default_catalog, &self.default_schema);
                     let full_object_name = ObjectName(vec![
-                        Ident::new(resolved_ref.catalog.as_ref()),
-                        Ident::new(resolved_ref.schema.as_ref()),
-                        Ident::new(resolved_ref.table.as_ref()),
+                        Ident::with_quote('"', resolved_ref.catalog.as_ref()),
+                        Ident::with_quote('"', resolved_ref.schema.as_ref()),
+                        Ident::with_quote('"', resolved_ref.table.as_ref()),
                     ]);
 
                     self.table_versions
-- 
2.43.0


From b199d717d22fadf38f01a1c12ba618d4472e135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 06/57] fix: let further statements follow a COPY statement

---
 src/datafusion/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0452316..e7d956b 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -310,7 +310,8 @@ impl<'a> DFParser<'a> {
                     }
                 }
             } else {
-                let token = self.parser.next_token();
+                // Leave the delimiter to the caller, which expects it between statements
+                let token = self.parser.peek_token();
                 if token == Token::EOF || token == Token::SemiColon {
                     break;
                 } else {
-- 
2.43.0


From 92b8c21dcd2ada35e79cc010df9a7490038e0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 07/57] fix: reject a qualified name as the target of VACUUM
 DATABASE

---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index e7d956b..5c230f9 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -212,7 +212,7 @@ impl<'a> DFParser<'a> {
         if self.parser.parse_keyword(Keyword::TABLE) {
             table_name = self.parser.parse_object_name(true)?;
         } else if self.parser.parse_keyword(Keyword::DATABASE) {
-            let database_name = self.parser.parse_object_name(false)?.0[0].clone();
+            let database_name = self.parser.parse_identifier(false)?;
             partitions = Some(vec![Expr::Identifier(database_name)]);
         } else {
             return self.expected(
-- 
2.43.0


From 78efff926a10d6ea06cc6cc7eeaffbc8ed668da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 08/57] fix: keep quotes out of the names of partition columns

---
 src/datafusion/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 5c230f9..a7fad6e 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -464,7 +464,7 @@ impl<'a> DFParser<'a> {
         loop {
             if let Token::Word(_) = self.parser.peek_token().token {
                 let identifier = self.parser.parse_identifier(false)?;
-                partitions.push(identifier.to_string());
+                partitions.push(identifier.value);
             } else {
                 return self.expected("partition name", self.parser.peek_token());
             }
@@ -675,7 +675,7 @@ impl<'a> DFParser<'a> {
                             // List of column defs
                             let (cols, cons) = self.parse_columns()?;
                             builder.table_partition_cols = Some(
-                                cols.iter().map(|col| col.name.to_string()).collect(),
+                                cols.iter().map(|col| col.name.value.clone()).collect(),
                             );
 
                             columns.extend(cols);
-- 
2.43.0


From cab76553ae765cbf3f60eab271350d42514f0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 09/57] fix: do not drop OR REPLACE from the CREATE statements
 it precedes

---
 src/datafusion/parser.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index a7fad6e..e6d6a2c 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -391,7 +391,20 @@ impl<'a> DFParser<'a> {
     pub fn parse_create(&mut self) -> Result<Statement, ParserError> {
         let or_replace = self.parser.parse_keywords(&[Keyword::OR, Keyword::REPLACE]);
 
-        if self.parser.parse_keyword(Keyword::EXTERNAL) {
+        if or_replace
+            && matches!(
+                self.parser.peek_token().token,
+                Token::Word(Word {
+                    keyword: Keyword::EXTERNAL | Keyword::UNBOUNDED,
+                    ..
+                })
+            )
+        {
+            self.expected(
+                "FUNCTION, TABLE or VIEW after OR REPLACE",
+                self.parser.peek_token(),
+            )
+        } else if self.parser.parse_keyword(Keyword::EXTERNAL) {
             self.parse_create_external_table(false)
         } else if self.parser.parse_keyword(Keyword::UNBOUNDED) {
             self.parser.expect_keyword(Keyword::EXTERNAL)?;
@@ -403,6 +416,11 @@ impl<'a> DFParser<'a> {
             self.parse_create_function(or_replace, false)
         // XXX SEAFOWL: change ends here
         } else {
+            if or_replace {
+                // Let the native parser see OR REPLACE too
+                self.parser.prev_token();
+                self.parser.prev_token();
+            }
             Ok(Statement::Statement(Box::from(self.parser.parse_create()?)))
         }
     }
-- 
2.43.0


From 55a04b5465cc36ad5ef385632dd006d4655f22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 10/57] fix: reject decimal precisions and scales that do not
 fit

---
 src/datafusion/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/datafusion/utils.rs b/src/datafusion/utils.rs
index 440a730..8e96c10 100644
--- a/src/datafusion/utils.rs
+++ b/src/datafusion/utils.rs
@@ -185,8 +185,12 @@ pub(crate) fn make_decimal_type(
 ) -> Result<DataType> {
     // postgres like behavior
     let (precision, scale) = match (precision, scale) {
-        (Some(p), Some(s)) => (p as u8, s as i8),
-        (Some(p), None) => (p as u8, 0),
+        // Values out of range are rejected below rather than wrapped around
+        (Some(p), Some(s)) => (
+            u8::try_from(p).unwrap_or(u8::MAX),
+            i8::try_from(s).unwrap_or(i8::MAX),
+        ),
+        (Some(p), None) => (u8::try_from(p).unwrap_or(u8::MAX), 0),
         (None, Some(_)) => {
             return Err(DataFusionError::Internal(
                 "Cannot specify only scale for decimal data type".to_string(),
-- 
2.43.0


From 1cf1d24c1deb30dad8e2cb6ec4a66ac5b5dafe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 11/57] fix: group the operands of filters sent to a remote
 database explicitly

---
 .../src/filter_pushdown.rs                    | 103 ++++++++++++------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 2050e4c..5e594a3 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -26,6 +26,50 @@ impl<T: FilterPushdownConverter> FilterPushdownVisitor<T> {
             .pop()
             .expect("No SQL expression in the stack")
     }
+
+    // Same as above, for the sole operand of a parent node.
+    fn pop_operand(&mut self, operand: &Expr) -> String {
+        let sql = self.pop_sql_expr();
+        if is_atomic(operand) {
+            sql
+        } else {
+            format!("({sql})")
+        }
+    }
+}
+
+// Expressions that come out as a single unit of SQL, and never need parenthesis around them.
+fn is_atomic(expr: &Expr) -> bool {
+    matches!(
+        expr,
+        Expr::Column(_) | Expr::Literal(_) | Expr::Negative(_)
+    )
+}
+
+// Whether the operand of a binary operator can go without parenthesis. Operator precedence differs
+// among the remote systems, so rely only on what they have in common.
+fn binds_tighter(operand: &Expr, op: Operator, is_right: bool) -> bool {
+    let arithmetic_precedence = |op: Operator| match op {
+        Operator::Plus | Operator::Minus => Some(1),
+        Operator::Multiply | Operator::Divide | Operator::Modulo => Some(2),
+        _ => None,
+    };
+
+    match (op, operand) {
+        _ if is_atomic(operand) => true,
+        (Operator::And, Expr::BinaryExpr(inner)) => inner.op != Operator::Or,
+        (Operator::And | Operator::Or, _) => true,
+        (_, Expr::BinaryExpr(inner)) => {
+            match (arithmetic_precedence(op), arithmetic_precedence(inner.op)) {
+                (None, Some(_)) => op.is_comparison_operator(),
+                (Some(outer), Some(inner)) => {
+                    outer < inner || (outer == inner && !is_right)
+                }
+                _ => false,
+            }
+        }
+        _ => false,
+    }
 }
 
 pub struct PostgresFilterPushdown {}
@@ -162,20 +206,13 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 let mut right_sql = self.pop_sql_expr();
                 let mut left_sql = self.pop_sql_expr();
 
-                // Similar as in Display impl for BinaryExpr: since the Expr has an implicit operator
-                // precedence we need to convert it to an explicit one using extra parenthesis if the
-                // left/right expression is also a BinaryExpr of lower operator precedence.
-                if let Expr::BinaryExpr(right_be @ BinaryExpr { .. }) = &*be.right {
-                    let p = right_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        right_sql = format!("({right_sql})")
-                    }
+                // Since the Expr has an implicit grouping we need to convert it to an explicit one using
+                // extra parenthesis, unless all remote systems group the operand in the same way anyhow.
+                if !binds_tighter(&be.right, be.op, true) {
+                    right_sql = format!("({right_sql})")
                 }
-                if let Expr::BinaryExpr(left_be @ BinaryExpr { .. }) = &*be.left {
-                    let p = left_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        left_sql = format!("({left_sql})")
-                    }
+                if !binds_tighter(&be.left, be.op, false) {
+                    left_sql = format!("({left_sql})")
                 }
 
                 let op_sql = self.source.op_to_sql(&be.op).ok_or_else(|| {
@@ -188,44 +225,48 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 self.sql_exprs
                     .push(format!("{left_sql} {op_sql} {right_sql}"))
             }
-            Expr::Not(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Not(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("NOT {inner_sql}"));
             }
-            Expr::Negative(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Negative(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("(- {inner_sql})"));
             }
-            Expr::IsNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNull(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NULL"));
             }
-            Expr::IsNotNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotNull(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT NULL"));
             }
-            Expr::IsTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsTrue(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS TRUE"));
             }
-            Expr::IsFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsFalse(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS FALSE"));
             }
-            Expr::IsNotTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotTrue(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT TRUE"));
             }
-            Expr::IsNotFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotFalse(inner) => {
+                let inner_sql = self.pop_operand(inner);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT FALSE"));
             }
-            Expr::InList(InList { list, negated, .. }) => {
+            Expr::InList(InList {
+                expr: inner,
+                list,
+                negated,
+            }) => {
                 // The N elements of the list are on the top of the stack, we need to pop them first
                 let index = self.sql_exprs.len() - list.len();
                 let list_sql = self.sql_exprs.split_off(index).iter().join(", ");
                 // Now consume the expression
-                let expr_sql = self.pop_sql_expr();
+                let expr_sql = self.pop_operand(inner);
                 if *negated {
                     self.sql_exprs
                         .push(format!("{expr_sql} NOT IN ({list_sql})"));
-- 
2.43.0


From c21284019e3fe339c0bd7ab2d52e4a598cdcc4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 12/57] fix: only send operators to remote databases that mean
 the same there

---
 .../src/filter_pushdown.rs                    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 5e594a3..fd29910 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -76,7 +76,14 @@ pub struct PostgresFilterPushdown {}
 pub struct SQLiteFilterPushdown {}
 pub struct MySQLFilterPushdown {}
 
-impl FilterPushdownConverter for PostgresFilterPushdown {}
+impl FilterPushdownConverter for PostgresFilterPushdown {
+    fn op_to_sql(&self, op: &Operator) -> Option<String> {
+        match op {
+            Operator::BitwiseXor => Some("#".to_string()),
+            _ => Some(op.to_string()),
+        }
+    }
+}
 
 impl FilterPushdownConverter for SQLiteFilterPushdown {
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
@@ -85,6 +92,13 @@ impl FilterPushdownConverter for SQLiteFilterPushdown {
             | Operator::RegexIMatch
             | Operator::RegexNotMatch
             | Operator::RegexNotIMatch
+            // LIKE isn't case-sensitive in SQLite, and GLOB has a different pattern syntax
+            | Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt
             | Operator::BitwiseXor => None,
             _ => Some(op.to_string()),
         }
@@ -100,6 +114,16 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
             Operator::RegexIMatch | Operator::RegexNotIMatch => None,
+            // Case-sensitivity of LIKE depends on the collation in MySQL
+            Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch => None,
+            // Division of integers isn't an integer in MySQL, and || is a logical operator
+            Operator::Divide | Operator::StringConcat => None,
+            Operator::AtArrow | Operator::ArrowAt => None,
+            Operator::IsDistinctFrom => None,
+            Operator::IsNotDistinctFrom => Some("<=>".to_string()),
             Operator::RegexMatch => Some("RLIKE".to_string()),
             Operator::RegexNotMatch => Some("NOT RLIKE".to_string()),
             Operator::BitwiseXor => Some("^".to_string()),
-- 
2.43.0


From 667708cd239e1fdacd43dbb331abe8d333d06b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 13/57] fix: only send literals to remote databases that denote
 the same value there

---
 .../src/filter_pushdown.rs                    | 65 +++++++++++++------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index fd29910..e4a7076 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -40,10 +40,7 @@ impl<T: FilterPushdownConverter> FilterPushdownVisitor<T> {
 
 // Expressions that come out as a single unit of SQL, and never need parenthesis around them.
 fn is_atomic(expr: &Expr) -> bool {
-    matches!(
-        expr,
-        Expr::Column(_) | Expr::Literal(_) | Expr::Negative(_)
-    )
+    matches!(expr, Expr::Column(_) | Expr::Literal(_) | Expr::Negative(_))
 }
 
 // Whether the operand of a binary operator can go without parenthesis. Operator precedence differs
@@ -110,6 +107,12 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         quote_identifier_backticks(&col.name)
     }
 
+    fn text_to_sql(&self, text: &str) -> Option<String> {
+        // Backslash is an escape character in MySQL text
+        (!text.contains('\0'))
+            .then(|| format!("'{}'", text.replace('\\', "\\\\").replace('\'', "''")))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
@@ -132,6 +135,13 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
     }
 }
 
+// Quote the textual form of a date or a timestamp, as long as it has a 4 digit year
+fn datetime_to_sql(datetime: impl ToString) -> Option<String> {
+    let datetime = datetime.to_string();
+    let year = datetime.split('-').next()?;
+    (year.len() == 4 && year != "0000").then(|| format!("'{datetime}'"))
+}
+
 pub trait FilterPushdownConverter {
     fn col_to_sql(&self, col: &Column) -> String {
         quote_identifier_double_quotes(&col.name)
@@ -139,38 +149,55 @@ pub trait FilterPushdownConverter {
 
     fn scalar_value_to_sql(&self, value: &ScalarValue) -> Option<String> {
         match value {
-            ScalarValue::Utf8(Some(val)) | ScalarValue::LargeUtf8(Some(val)) => {
-                Some(format!("'{}'", val.replace('\'', "''")))
-            }
+            ScalarValue::Utf8(Some(val))
+            | ScalarValue::LargeUtf8(Some(val))
+            | ScalarValue::Utf8View(Some(val)) => self.text_to_sql(val),
             ScalarValue::Date32(Some(days)) => {
-                let date = date32_to_datetime(*days)?.date();
-                Some(format!("'{date}'"))
+                datetime_to_sql(date32_to_datetime(*days)?.date())
             }
             ScalarValue::Date64(Some(t_ms))
             | ScalarValue::TimestampMillisecond(Some(t_ms), None) => {
-                let timestamp = timestamp_ms_to_datetime(*t_ms)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_ms_to_datetime(*t_ms)?)
             }
             ScalarValue::TimestampSecond(Some(t_s), None) => {
-                let timestamp = timestamp_s_to_datetime(*t_s)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_s_to_datetime(*t_s)?)
             }
             ScalarValue::TimestampMicrosecond(Some(t_us), None) => {
-                let timestamp = timestamp_us_to_datetime(*t_us)?;
-                Some(format!("'{timestamp}'"))
+                datetime_to_sql(timestamp_us_to_datetime(*t_us)?)
             }
-            ScalarValue::TimestampNanosecond(Some(t_ns), None) => {
-                let timestamp = timestamp_ns_to_datetime(*t_ns)?;
-                Some(format!("'{timestamp}'"))
+            // Remote timestamps have microsecond precision at most
+            ScalarValue::TimestampNanosecond(Some(t_ns), None) if t_ns % 1000 == 0 => {
+                datetime_to_sql(timestamp_ns_to_datetime(*t_ns)?)
             }
             ScalarValue::TimestampSecond(_, Some(_))
             | ScalarValue::TimestampMillisecond(_, Some(_))
             | ScalarValue::TimestampMicrosecond(_, Some(_))
             | ScalarValue::TimestampNanosecond(_, Some(_)) => None,
-            _ => Some(format!("{value}")),
+            ScalarValue::Float32(Some(val)) if !val.is_finite() => None,
+            ScalarValue::Float64(Some(val)) if !val.is_finite() => None,
+            // The number is going to be read with double precision
+            ScalarValue::Float32(Some(val)) => Some(format!("{}", f64::from(*val))),
+            ScalarValue::Boolean(_)
+            | ScalarValue::Float64(_)
+            | ScalarValue::Int8(_)
+            | ScalarValue::Int16(_)
+            | ScalarValue::Int32(_)
+            | ScalarValue::Int64(_)
+            | ScalarValue::UInt8(_)
+            | ScalarValue::UInt16(_)
+            | ScalarValue::UInt32(_)
+            | ScalarValue::UInt64(_) => Some(format!("{value}")),
+            _ if value.is_null() => Some("NULL".to_string()),
+            // The remaining types have no textual form that is a literal of that type remotely
+            _ => None,
         }
     }
 
+    fn text_to_sql(&self, text: &str) -> Option<String> {
+        // There's no way to write the NUL character
+        (!text.contains('\0')).then(|| format!("'{}'", text.replace('\'', "''")))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         Some(op.to_string())
     }
-- 
2.43.0


From 916be28d9da97a682df4bee13d9948c91ee4c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 14/57] fix: do not write past the input buffer of a WASM
 function

The size in front of the input is one i32, but was written as a usize: with
less than four bytes of input, zeros ended up beyond the allocated buffer.
---
 src/wasm_udf/wasm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9b875be..591fc0f 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -190,7 +190,11 @@ impl WasmMessagePackUDFInstance {
         let ptr: usize = udf_input_ptr.try_into().unwrap();
         // write size of input buffer first
         self.memory
-            .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
+            .write(
+                &mut self.store,
+                ptr,
+                &(udf_input_buf.len() as i32).to_ne_bytes(),
+            )
             .map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error copying input buffer size to WASM memory: {err:?}"
-- 
2.43.0


From 0807460ff8f46ae9ed82e2fe24aca15295a3b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 15/57] fix: read back decimals that WASM functions return as
 they were sent

The low half was sign-extended, so values with its top bit set came out
2^64 too small, and negative scales were taken for an error.
---
 src/wasm_udf/wasm.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 591fc0f..ab5e94a 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -512,10 +512,11 @@ fn messagepack_decode_results(
                                     }
                                     Ok(p_u8)
                                 })?;
-                            decimal_array[1].as_u64()
+                            // scales can be negative
+                            decimal_array[1].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal scale expected to be integer, found {:?} instead", decimal_array[1])))
-                                .and_then(|s_u64| {
-                                    let s_i8: i8 = s_u64.try_into().map_err(|err| DataFusionError::Internal(format!("Couldn't convert 64-bit scale value {s_u64:?} to i8 {err:?}")))?;
+                                .and_then(|s_i64| {
+                                    let s_i8: i8 = s_i64.try_into().map_err(|err| DataFusionError::Internal(format!("Couldn't convert 64-bit scale value {s_i64:?} to i8 {err:?}")))?;
                                     if s_i8 != *s {
                                         return Err(DataFusionError::Internal(format!("Expected to receive a decimal with scale {:?}, got {:?} instead.", *s, s_i8)))
                                     }
@@ -525,7 +526,8 @@ fn messagepack_decode_results(
                                 .ok_or(DataFusionError::Internal(format!("Decimal value high half expected to be integer, found {:?} instead", decimal_array[2])))?;
                             let low = decimal_array[3].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal value low half expected to be integer, found {:?} instead", decimal_array[3])))?;
-                            let value:i128 = (low as i128) + ((high as i128) << 64);
+                            // the low half carries no sign of its own
+                            let value:i128 = ((high as i128) << 64) | (low as u64 as i128);
                             Ok(value)
                         }),
                 )
-- 
2.43.0


From 7e27bf4964fbfea4d0094f9ea5bcaabfbcd2c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 16/57] fix: refuse WASM functions whose type is not the
 declared one

Unsupported argument types panicked when the function was created, other
result types than the declared one when it was called.
---
 src/wasm_udf/wasm.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index ab5e94a..39448f4 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -15,7 +15,7 @@ use datafusion::{
 use datafusion::error::Result;
 use datafusion::prelude::*;
 
-use wasmtime::{Engine, Instance, Memory, Module, Store, TypedFunc, Val, ValType};
+use wasmtime::{Engine, FuncType, Instance, Memory, Module, Store, TypedFunc, Val, ValType};
 
 use super::data_types::{get_wasm_type, CreateFunctionDataType, CreateFunctionLanguage};
 
@@ -646,12 +646,24 @@ fn make_scalar_function_from_wasm(
         DataFusionError::Internal(format!("Error instantiating module: {e:?}"))
     })?;
 
-    let _func = instance
+    let func = instance
         .get_func(&mut store, function_name)
         .ok_or_else(|| {
             DataFusionError::Internal(format!("Error loading function {function_name:?}"))
         })?;
 
+    // ... and that its type is the declared one
+    let func_type = func.ty(&store);
+    if !func_type.matches(&FuncType::new(
+        store.engine(),
+        input_types.clone(),
+        [return_type.clone()],
+    )) {
+        return Err(DataFusionError::Internal(format!(
+            "The type of function {function_name:?} is {func_type}, which is not the declared one"
+        )));
+    }
+
     // This function has to be of type Fn instead of FnMut. The function invocation (func.call)
     // needs a mutable context, which forces this closure to be FnMut.
     // This means we have to create a store and load the function inside of this closure, discarding
@@ -735,8 +747,7 @@ fn make_scalar_function_from_wasm(
 
         // Convert the results back into Arrow (Arc<dyn Array>)
         // These functions panic on type mismatches, which shouldn't happen because
-        // we pre-validated them above (unless the function returns a different type
-        // than it advertised)
+        // we pre-validated them above
         let array = match return_type {
             ValType::I32 => Arc::new(
                 results
@@ -789,8 +800,8 @@ pub fn create_udf_from_wasm(
         CreateFunctionLanguage::Wasm => {
             let converted_input_types = input_types
                 .iter()
-                .map(|t| get_wasm_type(t).unwrap())
-                .collect();
+                .map(get_wasm_type)
+                .collect::<Result<_>>()?;
             make_scalar_function_from_wasm(
                 module_bytes,
                 function_name,
-- 
2.43.0


From d5a324cfa9201dcf810331429ceb291a0fcaa496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 17/57] fix: report invalid pointers from WASM functions
 instead of panicking

---
 src/wasm_udf/wasm.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 39448f4..f76e712 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -128,7 +128,8 @@ impl WasmMessagePackUDFInstance {
     }
 
     fn read_udf_output(&mut self, udf_output_ptr: i32) -> Result<(Value, i32)> {
-        let ptr: usize = udf_output_ptr.try_into().unwrap();
+        // pointers have no sign
+        let ptr = udf_output_ptr as u32 as usize;
         let mut size_buffer = [0u8; SIZE_BYTE_COUNT];
         self.memory
             .read(&self.store, ptr, &mut size_buffer)
@@ -161,8 +162,10 @@ impl WasmMessagePackUDFInstance {
                 ))
             })?;
         // return the entire size of the output buffer (including i32 size prefix) so it can be passed to dealloc() later
-        let result: (Value, i32) = (output, (size + SIZE_BYTE_COUNT).try_into().unwrap());
-        Ok(result)
+        let total_size = (size + SIZE_BYTE_COUNT).try_into().map_err(|e| {
+            DataFusionError::Internal(format!("Error freeing UDF output buffer: {e:?}"))
+        })?;
+        Ok((output, total_size))
     }
 
     fn write_udf_input(&mut self, input: &Value) -> Result<(i32, i32)> {
@@ -187,7 +190,7 @@ impl WasmMessagePackUDFInstance {
                     "Error allocating input buffer in WASM memory: {e:?}"
                 ))
             })?;
-        let ptr: usize = udf_input_ptr.try_into().unwrap();
+        let ptr = udf_input_ptr as u32 as usize;
         // write size of input buffer first
         self.memory
             .write(
-- 
2.43.0


From 81611a975703f240cc91c94fc40bd6fb0360626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 18/57] fix: call WASM functions on empty batches and without
 arguments

A constant first argument made an empty batch look like one with a row,
and a function without arguments had no length to go by: both panicked.
---
 src/wasm_udf/wasm.rs | 59 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index f76e712..19c40fd 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -8,7 +8,7 @@ use datafusion::{
         array::{ArrayRef, Float32Array, Float64Array, Int32Array, Int64Array},
         datatypes::{DataType, TimeUnit},
     },
-    common::DataFusionError,
+    common::{DataFusionError, ScalarValue},
     logical_expr::{ScalarFunctionImplementation, ScalarUDF, Volatility},
 };
 
@@ -548,19 +548,34 @@ fn messagepack_decode_results(
 
 // This is an alternative variant of `datafusion::physical_plan::functions::columnar_values_to_array`,
 // which tries to align scalars with the length of any arrays in the input.
-fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
+// Also gives that length, which is one if there are no arrays (so that a call with constant
+// arguments, or none, gets evaluated once).
+fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<(Vec<ArrayRef>, usize)> {
     let inferred_length = args
         .iter()
-        .map(|v| match v {
-            ColumnarValue::Array(array) => array.len(),
-            ColumnarValue::Scalar(_) => 1,
+        .find_map(|v| match v {
+            ColumnarValue::Array(array) => Some(array.len()),
+            ColumnarValue::Scalar(_) => None,
         })
-        .max()
-        .unwrap_or(0);
+        .unwrap_or(1);
 
-    args.iter()
+    let arrays = args
+        .iter()
         .map(|arg| arg.clone().into_array(inferred_length))
-        .collect::<Result<Vec<_>>>()
+        .collect::<Result<Vec<_>>>()?;
+    Ok((arrays, inferred_length))
+}
+
+// The result of a call: a single value if it is the same for all rows
+fn array_to_columnar_value(
+    args: &[ColumnarValue],
+    array: ArrayRef,
+) -> Result<ColumnarValue> {
+    if args.iter().any(|v| matches!(v, ColumnarValue::Array(_))) {
+        Ok(ColumnarValue::Array(array))
+    } else {
+        ScalarValue::try_from_array(&array, 0).map(ColumnarValue::Scalar)
+    }
 }
 
 fn make_scalar_function_wasm_messagepack(
@@ -596,10 +611,8 @@ fn make_scalar_function_wasm_messagepack(
             )));
         }
 
-        let args = columnar_values_to_array(args)?;
-
-        // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        // Arguments as vectorized arrays, and their length
+        let (arrays, array_len) = columnar_values_to_array(args)?;
 
         // Buffer for the results
         let mut encoded_results: Vec<Value> = Vec::with_capacity(array_len);
@@ -611,7 +624,7 @@ fn make_scalar_function_wasm_messagepack(
             for col_ix in 0..args.len() {
                 params.push(messagepack_encode_input_value(
                     input_types.get(col_ix).unwrap(),
-                    &args,
+                    &arrays,
                     row_ix,
                     col_ix,
                 )?);
@@ -625,7 +638,7 @@ fn make_scalar_function_wasm_messagepack(
         }
 
         let array = messagepack_decode_results(&return_type, &encoded_results)?;
-        Ok(ColumnarValue::from(array))
+        array_to_columnar_value(args, array)
     };
 
     Ok(Arc::new(inner))
@@ -698,10 +711,8 @@ fn make_scalar_function_from_wasm(
         // this is guaranteed by DataFusion based on the function's signature.
         assert_eq!(args.len(), input_types.len());
 
-        let args = columnar_values_to_array(args)?;
-
-        // Length of the vectorized array
-        let array_len = args.first().unwrap().len();
+        // Arguments as vectorized arrays, and their length
+        let (arrays, array_len) = columnar_values_to_array(args)?;
 
         // Buffer for the results
         let mut results: Vec<Val> = Vec::new();
@@ -714,23 +725,23 @@ fn make_scalar_function_from_wasm(
                 let wasm_val = match input_types.get(col_ix).unwrap() {
                     ValType::I32 => {
                         Val::I32(get_arrow_value::<arrow::datatypes::Int32Type>(
-                            &args, row_ix, col_ix,
+                            &arrays, row_ix, col_ix,
                         )?)
                     }
                     ValType::I64 => {
                         Val::I64(get_arrow_value::<arrow::datatypes::Int64Type>(
-                            &args, row_ix, col_ix,
+                            &arrays, row_ix, col_ix,
                         )?)
                     }
                     ValType::F32 => Val::F32(
                         get_arrow_value::<arrow::datatypes::Float32Type>(
-                            &args, row_ix, col_ix,
+                            &arrays, row_ix, col_ix,
                         )?
                         .to_bits(),
                     ),
                     ValType::F64 => Val::F64(
                         get_arrow_value::<arrow::datatypes::Float64Type>(
-                            &args, row_ix, col_ix,
+                            &arrays, row_ix, col_ix,
                         )?
                         .to_bits(),
                     ),
@@ -778,7 +789,7 @@ fn make_scalar_function_from_wasm(
             ) as ArrayRef,
             _ => panic!("unexpected type"),
         };
-        Ok(ColumnarValue::from(array))
+        array_to_columnar_value(args, array)
     };
 
     Ok(Arc::new(inner))
-- 
2.43.0


From 6442c1485d75a7dac605050f8481635fef67c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 19/57] fix: do not call WASM functions with made-up values for
 NULL arguments

The array slot of a NULL holds an arbitrary value, which the function was
called with. Such rows now yield NULL, without the function being called.
---
 src/wasm_udf/wasm.rs | 107 +++++++++++++++++++++++++------------------
 1 file changed, 62 insertions(+), 45 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 19c40fd..b9225e6 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -15,7 +15,9 @@ use datafusion::{
 use datafusion::error::Result;
 use datafusion::prelude::*;
 
-use wasmtime::{Engine, FuncType, Instance, Memory, Module, Store, TypedFunc, Val, ValType};
+use wasmtime::{
+    Engine, FuncType, Instance, Memory, Module, Store, TypedFunc, Val, ValType,
+};
 
 use super::data_types::{get_wasm_type, CreateFunctionDataType, CreateFunctionLanguage};
 
@@ -362,7 +364,7 @@ fn messagepack_encode_input_value(
 }
 
 fn decode_udf_result_primitive_array<T>(
-    encoded_results: &[Value],
+    encoded_results: &[Option<Value>],
     decoder: &dyn Fn(&Value) -> Result<T::Native>,
 ) -> Result<ArrayRef>
 where
@@ -370,14 +372,14 @@ where
 {
     encoded_results
         .iter()
-        .map(|i| Some(decoder(i)).transpose())
+        .map(|i| i.as_ref().map(decoder).transpose())
         .collect::<Result<PrimitiveArray<T>>>()
         .map(|a| Arc::new(a) as ArrayRef)
 }
 
 fn messagepack_decode_results(
     return_type: &CreateFunctionDataType,
-    encoded_results: &[Value],
+    encoded_results: &[Option<Value>],
 ) -> Result<ArrayRef> {
     match return_type {
         CreateFunctionDataType::SMALLINT => decode_udf_result_primitive_array::<
@@ -428,11 +430,14 @@ fn messagepack_decode_results(
         | CreateFunctionDataType::TEXT => encoded_results
             .iter()
             .map(|i| {
-                Some(i.as_str().ok_or(DataFusionError::Internal(format!(
-                    "Expected to find string value, received {:?} instead",
-                    &i
-                ))))
-                .transpose()
+                i.as_ref()
+                    .map(|i| {
+                        i.as_str().ok_or(DataFusionError::Internal(format!(
+                            "Expected to find string value, received {:?} instead",
+                            &i
+                        )))
+                    })
+                    .transpose()
             })
             .collect::<Result<StringArray>>()
             .map(|a| Arc::new(a) as ArrayRef),
@@ -461,10 +466,13 @@ fn messagepack_decode_results(
         CreateFunctionDataType::BOOLEAN => encoded_results
             .iter()
             .map(|i| {
-                Some(i.as_bool().ok_or(DataFusionError::Internal(format!(
-                    "Expected to find string value, received {i:?} instead"
-                ))))
-                .transpose()
+                i.as_ref()
+                    .map(|i| {
+                        i.as_bool().ok_or(DataFusionError::Internal(format!(
+                            "Expected to find string value, received {i:?} instead"
+                        )))
+                    })
+                    .transpose()
             })
             .collect::<Result<BooleanArray>>()
             .map(|a| Arc::new(a) as ArrayRef),
@@ -497,7 +505,7 @@ fn messagepack_decode_results(
         } => encoded_results
             .iter()
             .map(|i| {
-                Some(
+                i.as_ref().map(|i| {
                     i.as_array()
                         .ok_or(DataFusionError::Internal(format!(
                             "Expected to find array containing decimal parts, received {i:?} instead"
@@ -532,8 +540,8 @@ fn messagepack_decode_results(
                             // the low half carries no sign of its own
                             let value:i128 = ((high as i128) << 64) | (low as u64 as i128);
                             Ok(value)
-                        }),
-                )
+                        })
+                })
                 .transpose()
             })
             .collect::<Result<arrow::array::Decimal128Array>>()
@@ -578,6 +586,12 @@ fn array_to_columnar_value(
     }
 }
 
+// Functions aren't called for rows with a NULL argument: WASM has no value for it, and what the
+// argument's array holds in its place could be anything. The result for such a row is NULL.
+fn any_null(args: &[ArrayRef], row_ix: usize) -> bool {
+    args.iter().any(|arg| arg.is_null(row_ix))
+}
+
 fn make_scalar_function_wasm_messagepack(
     module_bytes: &[u8],
     function_name: &str,
@@ -615,9 +629,14 @@ fn make_scalar_function_wasm_messagepack(
         let (arrays, array_len) = columnar_values_to_array(args)?;
 
         // Buffer for the results
-        let mut encoded_results: Vec<Value> = Vec::with_capacity(array_len);
+        let mut encoded_results: Vec<Option<Value>> = Vec::with_capacity(array_len);
 
         for row_ix in 0..array_len {
+            if any_null(&arrays, row_ix) {
+                encoded_results.push(None);
+                continue;
+            }
+
             let mut params: Vec<Value> = Vec::with_capacity(args.len());
             // Build a slice of MessagePack Values which will be serialized
             // as an array.
@@ -630,11 +649,12 @@ fn make_scalar_function_wasm_messagepack(
                 )?);
             }
 
-            encoded_results.push(instance.call(params).map_err(|err| {
+            let result = instance.call(params).map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error invoking function {function_name:?}: {err:?}"
                 ))
-            })?);
+            })?;
+            encoded_results.push(Some(result));
         }
 
         let array = messagepack_decode_results(&return_type, &encoded_results)?;
@@ -719,6 +739,11 @@ fn make_scalar_function_from_wasm(
         results.resize(array_len, Val::null_extern_ref());
 
         for row_ix in 0..array_len {
+            // Leave the null reference in the results' buffer
+            if any_null(&arrays, row_ix) {
+                continue;
+            }
+
             let mut params: Vec<Val> = Vec::with_capacity(args.len());
             // Build a slice of WASM Val values to pass to the function
             for col_ix in 0..args.len() {
@@ -760,33 +785,25 @@ fn make_scalar_function_from_wasm(
         }
 
         // Convert the results back into Arrow (Arc<dyn Array>)
-        // These functions panic on type mismatches, which shouldn't happen because
-        // we pre-validated them above
+        // Type mismatches shouldn't happen because we pre-validated them above: only rows the
+        // function wasn't called for have no value of the return type
         let array = match return_type {
-            ValType::I32 => Arc::new(
-                results
-                    .iter()
-                    .map(|r| r.unwrap_i32())
-                    .collect::<Int32Array>(),
-            ) as ArrayRef,
-            ValType::I64 => Arc::new(
-                results
-                    .iter()
-                    .map(|r| r.unwrap_i64())
-                    .collect::<Int64Array>(),
-            ) as ArrayRef,
-            ValType::F32 => Arc::new(
-                results
-                    .iter()
-                    .map(|r| r.unwrap_f32())
-                    .collect::<Float32Array>(),
-            ) as ArrayRef,
-            ValType::F64 => Arc::new(
-                results
-                    .iter()
-                    .map(|r| r.unwrap_f64())
-                    .collect::<Float64Array>(),
-            ) as ArrayRef,
+            ValType::I32 => {
+                Arc::new(results.iter().map(|r| r.i32()).collect::<Int32Array>())
+                    as ArrayRef
+            }
+            ValType::I64 => {
+                Arc::new(results.iter().map(|r| r.i64()).collect::<Int64Array>())
+                    as ArrayRef
+            }
+            ValType::F32 => {
+                Arc::new(results.iter().map(|r| r.f32()).collect::<Float32Array>())
+                    as ArrayRef
+            }
+            ValType::F64 => {
+                Arc::new(results.iter().map(|r| r.f64()).collect::<Float64Array>())
+                    as ArrayRef
+            }
             _ => panic!("unexpected type"),
         };
         array_to_columnar_value(args, array)
-- 
2.43.0


From 5a168b090a5cd762700a873439ff364304f219d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 20/57] fix: report changes of memory reservations relatively,
 so that concurrent ones cannot leave a stale total

Setting the gauge to a total that was read earlier let a slower thread overwrite
a newer value; the gauge then stayed wrong until the next reservation.
---
 src/memory_pool.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/memory_pool.rs b/src/memory_pool.rs
index 739eaad..b66ea95 100644
--- a/src/memory_pool.rs
+++ b/src/memory_pool.rs
@@ -90,17 +90,13 @@ impl MemoryPool for MemoryPoolMetrics {
 
     fn grow(&self, reservation: &MemoryReservation, additional: usize) {
         self.inner.grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.increment(additional as f64);
         Metrics::register_allocation(reservation, additional, true)
     }
 
     fn shrink(&self, reservation: &MemoryReservation, shrink: usize) {
         self.inner.shrink(reservation, shrink);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        self.metrics.memory_reserved.decrement(shrink as f64);
         Metrics::register_deallocation(reservation, shrink)
     }
 
@@ -110,9 +106,9 @@ impl MemoryPool for MemoryPoolMetrics {
         additional: usize,
     ) -> datafusion_common::Result<()> {
         let result = self.inner.try_grow(reservation, additional);
-        self.metrics
-            .memory_reserved
-            .set(self.inner.reserved() as f64);
+        if result.is_ok() {
+            self.metrics.memory_reserved.increment(additional as f64);
+        }
 
         Metrics::register_allocation(reservation, additional, result.is_ok());
 
-- 
2.43.0


From 6afd0e9504fa6a76e7bec6f379005870d1606ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 21/57] fix: keep the rows for which the predicate of a DELETE
 evaluates to NULL

---
 src/context/physical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddbd5ab..484add4 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -54,7 +54,6 @@ use deltalake::protocol::{DeltaOperation, SaveMode};
 use deltalake::DeltaTable;
 use object_store::path::Path;
 use std::ops::Deref;
-use std::ops::Not;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 use tracing::info;
@@ -413,9 +412,10 @@ impl SeafowlContext {
                             (vec![], vec![])
                         } else {
                             // To simulate the effect of a WHERE clause from a DELETE, we need to use the
-                            // inverse clause in a scan, when filtering the rows that should remain.
+                            // inverse clause in a scan, when filtering the rows that should remain. Those
+                            // include the rows for which the clause evaluates to NULL.
                             let filter_expr = create_physical_expr(
-                                &predicate.clone().not(),
+                                &predicate.clone().is_not_true(),
                                 table_schema,
                                 &ExecutionProps::new(),
                             )?;
-- 
2.43.0


From b71aed658edd75c80f60ce1048d1c589ce9f336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:57 +0000
Subject: [PATCH 22/57] fix: do not empty the table on DELETE when the
 optimizer rewrites its WHERE clause

---
 src/context/physical.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 484add4..79c24d3 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -45,8 +45,9 @@ use datafusion_expr::logical_plan::{
     CreateCatalog, CreateCatalogSchema, CreateExternalTable, CreateMemoryTable,
     DropTable, Extension, LogicalPlan, Projection,
 };
+use datafusion_expr::utils::conjunction;
 use datafusion_expr::{
-    DdlStatement, DmlStatement, DropCatalogSchema, Expr, Filter, WriteOp,
+    DdlStatement, DmlStatement, DropCatalogSchema, Expr, Filter, TableScan, WriteOp,
 };
 use deltalake::kernel::{Action, Add, Remove};
 use deltalake::operations::vacuum::VacuumBuilder;
@@ -381,8 +382,31 @@ impl SeafowlContext {
                 let snapshot = table.snapshot()?;
                 let schema_ref = SchemaRef::from(table_schema.deref().clone());
 
+                // The optimizer replaces a WHERE clause which can't be satisfied with an empty relation,
+                // drops one which always holds, and may push one down into the scan or rewrite it into
+                // a join (when there are subqueries).
+                let predicate = match &**input {
+                    LogicalPlan::EmptyRelation(_) => None,
+                    LogicalPlan::TableScan(TableScan { filters, .. }) => {
+                        conjunction(filters.clone())
+                    }
+                    LogicalPlan::Filter(Filter {
+                        predicate, input, ..
+                    }) if matches!(input.as_ref(), LogicalPlan::TableScan(_)) => {
+                        Some(predicate.clone())
+                    }
+                    _ => {
+                        return Err(DataFusionError::NotImplemented(
+                            "Unsupported WHERE clause in DELETE".to_string(),
+                        ))
+                    }
+                };
+
                 let (adds, removes) =
-                    if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
+                    if let LogicalPlan::EmptyRelation(_) = &**input {
+                        // No row can match the WHERE clause, so there's nothing to remove.
+                        (vec![], vec![])
+                    } else if let Some(predicate) = predicate {
                         // A WHERE clause has been used; employ it to prune the filtration
                         // down to only a subset of partitions, re-use the rest as is
 
-- 
2.43.0


From e395c12f47bb43b2e785208990488cb5a862f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 23/57] fix: record the table version committed by TRUNCATE in
 the catalog

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 79c24d3..25e6666 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -690,6 +690,7 @@ impl SeafowlContext {
                         SeafowlExtensionNode::Truncate(Truncate {
                             table_name, ..
                         }) => {
+                            let uuid = self.get_table_uuid(table_name.as_str()).await?;
                             let mut table = self.try_get_delta_table(table_name).await?;
                             table.load().await?;
                             let snapshot = table.snapshot()?;
@@ -720,7 +721,13 @@ impl SeafowlContext {
                                 .collect();
 
                             let op = DeltaOperation::Delete { predicate: None };
-                            self.commit_delta_table(actions, &table, op).await?;
+                            let version =
+                                self.commit_delta_table(actions, &table, op).await?;
+
+                            self.metastore
+                                .tables
+                                .create_new_version(uuid, version)
+                                .await?;
 
                             Ok(make_dummy_exec())
                         }
-- 
2.43.0


From 7a049b2ef32ca50591b3fec8cbd69046679b511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:24 +0000
Subject: [PATCH 24/57] fix: resolve the columns of an UPDATE against the table
 as it is named

---
 src/context/physical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 25e6666..30ce804 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -234,7 +234,7 @@ impl SeafowlContext {
 
                 let schema_ref = TableProvider::schema(&table);
                 let df_schema = DFSchema::try_from_qualified_schema(
-                    table_name.table(),
+                    table_name.clone(),
                     schema_ref.as_ref(),
                 )?;
 
-- 
2.43.0


From feb41121d67a361de8f257a5be87ee49693657f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:18 +0000
Subject: [PATCH 25/57] fix: refuse to write NULLs into columns which aren't
 nullable

INSERT and UPDATE would succeed and leave behind a table that could no longer be read.
---
 src/context/delta.rs    | 36 ++++++++++++++++++++++++++++++------
 src/context/physical.rs |  5 +++--
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c1e894c..f25db10 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -13,7 +13,7 @@ use datafusion::{
     error::DataFusionError,
     execution::context::TaskContext,
     parquet::{arrow::ArrowWriter, file::properties::WriterProperties},
-    physical_plan::{ExecutionPlan, ExecutionPlanProperties},
+    physical_plan::{execute_input_stream, ExecutionPlan, ExecutionPlanProperties},
     sql::TableReference,
 };
 use deltalake::kernel::{Action, Add, Schema as DeltaSchema};
@@ -95,6 +95,28 @@ pub async fn plan_to_delta_adds(
     store: Arc<dyn ObjectStore>,
     local_data_dir: Option<String>,
     max_partition_size: u32,
+) -> Result<Vec<Add>> {
+    let schema = plan.schema();
+    plan_to_delta_table_adds(
+        state,
+        plan,
+        schema,
+        store,
+        local_data_dir,
+        max_partition_size,
+    )
+    .await
+}
+
+/// Same as [`plan_to_delta_adds`], but errors out on NULLs in columns which are not nullable in the
+/// schema of the table.
+pub(crate) async fn plan_to_delta_table_adds(
+    state: &SessionState,
+    plan: &Arc<dyn ExecutionPlan>,
+    table_schema: SchemaRef,
+    store: Arc<dyn ObjectStore>,
+    local_data_dir: Option<String>,
+    max_partition_size: u32,
 ) -> Result<Vec<Add>> {
     let mut current_partition_size = 0;
     let (mut current_partition_file_path, mut writer) =
@@ -108,7 +130,8 @@ pub async fn plan_to_delta_adds(
     info!("Persisting data into temporary partition objects on disk");
     for i in 0..plan.output_partitioning().partition_count() {
         let task_ctx = Arc::new(TaskContext::from(state));
-        let mut stream = plan.execute(i, task_ctx)?;
+        let mut stream =
+            execute_input_stream(plan.clone(), table_schema.clone(), i, task_ctx)?;
 
         while let Some(batch) = stream.next().await {
             let mut batch = batch?;
@@ -391,10 +414,14 @@ impl SeafowlContext {
         let table_log_store = internal_object_store.get_log_store(&prefix);
         let local_table_dir = internal_object_store.local_table_dir(&prefix);
 
+        let mut table = DeltaTable::new(table_log_store.clone(), Default::default());
+        table.load().await?;
+
         // Upload partition files to table's root directory
-        let adds = plan_to_delta_adds(
+        let adds = plan_to_delta_table_adds(
             &self.inner.state(),
             plan,
+            TableProvider::schema(&table),
             table_log_store.object_store(),
             local_table_dir,
             self.config.misc.max_partition_size,
@@ -402,9 +429,6 @@ impl SeafowlContext {
         .await?;
 
         // Commit the write into a new version
-        let mut table = DeltaTable::new(table_log_store.clone(), Default::default());
-        table.load().await?;
-
         let actions: Vec<Action> = adds.into_iter().map(Action::Add).collect();
         let op = DeltaOperation::Write {
             mode: SaveMode::Append,
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 30ce804..43a832e 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,7 +1,7 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
 use crate::catalog::{DEFAULT_SCHEMA, STAGING_SCHEMA};
-use crate::context::delta::plan_to_delta_adds;
+use crate::context::delta::{plan_to_delta_adds, plan_to_delta_table_adds};
 use crate::context::SeafowlContext;
 use crate::nodes::{
     ConvertTable, CreateFunction, CreateTable, DropFunction, RenameTable,
@@ -321,9 +321,10 @@ impl SeafowlContext {
                         .object_store();
                     let local_table_dir =
                         internal_object_store.local_table_dir(&uuid.to_string());
-                    let adds = plan_to_delta_adds(
+                    let adds = plan_to_delta_table_adds(
                         &state,
                         &update_plan,
+                        schema_ref.clone(),
                         object_store,
                         local_table_dir,
                         self.config.misc.max_partition_size,
-- 
2.43.0


From bbcfdd13137c6e5c23f593680cb08de64ff89f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 26/57] fix: drop the table when populating it in CREATE TABLE
 AS fails

---
 src/context/delta.rs    | 23 +++++++++++++++++++++++
 src/context/physical.rs | 23 +++++++++--------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index f25db10..b4f8b3d 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -463,6 +463,29 @@ impl SeafowlContext {
             .version)
     }
 
+    // Drop the table from the catalog, cleaning up its objects in the storage if possible
+    pub(super) async fn drop_delta_table(
+        &self,
+        table_name: impl Into<TableReference>,
+    ) -> Result<()> {
+        let table_ref = table_name.into();
+        let resolved_ref = self.resolve_table_ref(table_ref.clone());
+
+        self.delete_delta_table(table_ref.clone())
+            .await
+            .unwrap_or_else(|e| info!("Failed to cleanup table {table_ref}: {e}"));
+
+        self.metastore
+            .tables
+            .delete(
+                &resolved_ref.catalog,
+                &resolved_ref.schema,
+                &resolved_ref.table,
+            )
+            .await?;
+        Ok(())
+    }
+
     // Cleanup the table objects in the storage
     pub async fn delete_delta_table(
         &self,
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 43a832e..677ec92 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -57,7 +57,7 @@ use object_store::path::Path;
 use std::ops::Deref;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
-use tracing::info;
+use tracing::{info, warn};
 use url::Url;
 
 use object_store::ObjectStoreScheme;
@@ -186,7 +186,13 @@ impl SeafowlContext {
                     CreateDeltaTableDetails::EmptyTable(plan.schema().as_ref().clone()),
                 )
                 .await?;
-                self.plan_to_delta_table(name.clone(), &plan).await?;
+                if let Err(err) = self.plan_to_delta_table(name.clone(), &plan).await {
+                    // Don't leave the empty table behind
+                    self.drop_delta_table(name.clone())
+                        .await
+                        .unwrap_or_else(|e| warn!("Failed to drop table {name}: {e}"));
+                    return Err(err);
+                }
 
                 Ok(make_dummy_exec())
             }
@@ -526,18 +532,7 @@ impl SeafowlContext {
                     return Ok(make_dummy_exec());
                 }
 
-                self.delete_delta_table(name.clone())
-                    .await
-                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
-
-                self.metastore
-                    .tables
-                    .delete(
-                        &resolved_ref.catalog,
-                        &resolved_ref.schema,
-                        &resolved_ref.table,
-                    )
-                    .await?;
+                self.drop_delta_table(name.clone()).await?;
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::DropCatalogSchema(DropCatalogSchema {
-- 
2.43.0


From b8d1d4a3c6e3681bbd2b30fa18b55b7b5de5fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:59 +0000
Subject: [PATCH 27/57] fix: heed IF NOT EXISTS in CREATE TABLE and CREATE
 SCHEMA

---
 src/context/physical.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 677ec92..25e1f00 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -122,10 +122,22 @@ impl SeafowlContext {
             LogicalPlan::Ddl(DdlStatement::CreateCatalogSchema(
                 CreateCatalogSchema {
                     schema_name,
-                    if_not_exists: _,
+                    if_not_exists,
                     schema: _,
                 },
             )) => {
+                if *if_not_exists
+                    && self
+                        .metastore
+                        .schemas
+                        .get(&self.default_catalog, schema_name)
+                        .await
+                        .is_ok()
+                {
+                    // Schema already exists
+                    return Ok(make_dummy_exec());
+                }
+
                 // CREATE SCHEMA
                 // Create a schema and register it
                 self.metastore
@@ -615,8 +627,16 @@ impl SeafowlContext {
                         SeafowlExtensionNode::CreateTable(CreateTable {
                             schema,
                             name,
+                            if_not_exists,
                             ..
                         }) => {
+                            if *if_not_exists
+                                && self.try_get_delta_table(name.as_str()).await.is_ok()
+                            {
+                                // Table already exists
+                                return Ok(make_dummy_exec());
+                            }
+
                             self.create_delta_table(
                                 name.as_str(),
                                 CreateDeltaTableDetails::EmptyTable(schema.clone()),
-- 
2.43.0


From 56478c01f9d75b39c2acec84d2b40ad89a1f12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:51 +0000
Subject: [PATCH 28/57] fix: keep the WHERE clause of a DELETE in one piece
 when it has common subexpressions

---
 src/context/logical.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 78fa6e7..b7f6fec 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -16,6 +16,7 @@ use datafusion::common::DFSchema;
 use datafusion::error::{DataFusionError as Error, Result};
 use datafusion::execution::context::SessionState;
 use datafusion::optimizer::analyzer::Analyzer;
+use datafusion::optimizer::common_subexpr_eliminate::CommonSubexprEliminate;
 use datafusion::optimizer::optimizer::Optimizer;
 use datafusion::optimizer::simplify_expressions::SimplifyExpressions;
 use datafusion::optimizer::{OptimizerContext, OptimizerRule};
@@ -157,7 +158,20 @@ impl SeafowlContext {
                 Statement::Delete{ .. } => {
                     let state = self.inner.state();
                     let plan = state.statement_to_plan(stmt).await?;
-                    state.optimize(&plan)
+                    let plan = state.analyzer().execute_and_check(
+                        plan,
+                        state.config_options(),
+                        |_, _| {},
+                    )?;
+
+                    // As above, `CommonSubexprEliminate` could mangle the WHERE clause
+                    let rules = state
+                        .optimizers()
+                        .iter()
+                        .filter(|rule| rule.name() != CommonSubexprEliminate::new().name())
+                        .cloned()
+                        .collect();
+                    Optimizer::with_rules(rules).optimize(plan, &state, |_, _| {})
                 }
                 Statement::Drop { object_type: ObjectType::Table | ObjectType::Schema, .. } => self.inner.state().statement_to_plan(stmt).await,
                 // CREATE TABLE (create empty table with columns)
-- 
2.43.0


From 580753a967d3af502b71390baf9952b9d851d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:01 +0000
Subject: [PATCH 29/57] fix: look up the table an uploaded file is appended to
 in its schema

---
 src/context/physical.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 25e1f00..9a63286 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -964,6 +964,11 @@ impl SeafowlContext {
         // information on our tables)
         self.reload_schema().await?;
 
+        let table_ref = TableReference::Full {
+            catalog: Arc::from(self.default_catalog.as_str()),
+            schema: Arc::from(schema_name.as_str()),
+            table: Arc::from(table_name),
+        };
         let mut table_schema = None;
 
         // Check whether table already exists and ensure that the schema exists
@@ -977,7 +982,7 @@ impl SeafowlContext {
         {
             Some(_) => {
                 // Schema exists, check if existing table's schema matches the new one
-                match self.inner.table_provider(&table_name).await {
+                match self.inner.table_provider(table_ref.clone()).await {
                     Ok(table) => {
                         table_schema = Some(table.schema());
                         true
@@ -1034,12 +1039,6 @@ impl SeafowlContext {
         // Make a scan plan for the listing table, which will be the input for the target table
         let plan = source.scan(&self.inner.state(), None, &[], None).await?;
 
-        let table_ref = TableReference::Full {
-            catalog: Arc::from(self.default_catalog.as_str()),
-            schema: Arc::from(schema_name),
-            table: Arc::from(table_name),
-        };
-
         if !table_exists {
             self.create_delta_table(
                 table_ref.clone(),
-- 
2.43.0


From c3ff0d8b3bb65314856be8e24859a79b1eee18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:06 +0000
Subject: [PATCH 30/57] fix: make the ETag of a query depend on the tables in
 its subqueries

The tables used only inside IN, EXISTS and scalar subqueries were not taken
into account, so a conditional GET was answered with 304 Not Modified after
they changed.
---
 src/frontend/http.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index b55e619..6594a0f 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -17,7 +17,7 @@ use bytes::Buf;
 use datafusion::datasource::DefaultTableSource;
 
 use datafusion::physical_plan::ExecutionPlan;
-use datafusion_common::tree_node::{TreeNode, TreeNodeRecursion, TreeNodeVisitor};
+use datafusion_common::tree_node::{TreeNodeRecursion, TreeNodeVisitor};
 use datafusion_expr::logical_plan::{LogicalPlan, TableScan};
 use deltalake::parquet::data_type::AsBytes;
 use deltalake::DeltaTable;
@@ -95,7 +95,8 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
 
 fn plan_to_etag(plan: &LogicalPlan) -> String {
     let mut visitor = ETagBuilderVisitor::default();
-    plan.visit(&mut visitor).unwrap();
+    // The tables used only in subquery expressions determine the result as well
+    plan.visit_with_subqueries(&mut visitor).unwrap();
 
     debug!("Extracted table versions: {:?}", visitor.table_versions);
 
-- 
2.43.0


From d2852398ff6ec9d10c84c951b9f429427c16c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:14 +0000
Subject: [PATCH 31/57] fix: don't tag the results of queries over unversioned
 tables

A query which reads something else than Delta tables (information_schema, the
system tables, external or Iceberg tables) got an ETag that didn't depend on
these, so a conditional GET was answered with 304 Not Modified regardless of
the changes. There's no ETag in these cases now.
---
 src/frontend/http.rs | 49 +++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 6594a0f..413d733 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -63,6 +63,8 @@ const VARY: &str = "Authorization, Content-Type, Origin, X-Seafowl-Query";
 #[derive(Default)]
 struct ETagBuilderVisitor {
     table_versions: Vec<u8>,
+    // Whether there's a table in the plan whose contents aren't identified by a version
+    unversioned: bool,
 }
 
 impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
@@ -74,35 +76,39 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
     ) -> Result<TreeNodeRecursion, DataFusionError> {
         if let LogicalPlan::TableScan(TableScan { source, .. }) = plan {
             // TODO handle external Parquet tables too
-            if let Some(default_table_source) =
-                source.as_any().downcast_ref::<DefaultTableSource>()
+            if let Some(table) = source
+                .as_any()
+                .downcast_ref::<DefaultTableSource>()
+                .and_then(|s| s.table_provider.as_any().downcast_ref::<DeltaTable>())
             {
-                if let Some(table) = default_table_source
-                    .table_provider
-                    .as_any()
-                    .downcast_ref::<DeltaTable>()
-                {
-                    self.table_versions
-                        .extend(table.table_uri().as_bytes().to_vec());
-                    self.table_versions
-                        .extend(table.version().as_bytes().to_vec());
-                }
+                self.table_versions
+                    .extend(table.table_uri().as_bytes().to_vec());
+                self.table_versions
+                    .extend(table.version().as_bytes().to_vec());
+            } else {
+                self.unversioned = true;
             }
         }
         Ok(TreeNodeRecursion::Continue)
     }
 }
 
-fn plan_to_etag(plan: &LogicalPlan) -> String {
+/// The tag identifying the result of the plan, or None when the result can change without the
+/// versions of the tables in the plan doing so (e.g. it reads the system tables)
+fn plan_to_etag(plan: &LogicalPlan) -> Option<String> {
     let mut visitor = ETagBuilderVisitor::default();
     // The tables used only in subquery expressions determine the result as well
     plan.visit_with_subqueries(&mut visitor).unwrap();
 
     debug!("Extracted table versions: {:?}", visitor.table_versions);
 
+    if visitor.unversioned {
+        return None;
+    }
+
     let mut hasher = Sha256::new();
     hasher.update(json!(visitor.table_versions).to_string());
-    encode(hasher.finalize())
+    Some(encode(hasher.finalize()))
 }
 
 // Construct a content-type header value that also includes schema information.
@@ -348,9 +354,12 @@ pub async fn cached_read_query(
 
     // Pre-execution check: if ETags match, we don't need to re-execute the query
     let etag = plan_to_etag(&plan);
-    debug!("ETag: {}, if-none-match header: {:?}", etag, if_none_match);
+    debug!(
+        "ETag: {:?}, if-none-match header: {:?}",
+        etag, if_none_match
+    );
 
-    if let Some(if_none_match) = if_none_match {
+    if let (Some(etag), Some(if_none_match)) = (&etag, &if_none_match) {
         if etag == if_none_match {
             return Ok(warp::reply::with_status(
                 "NOT_MODIFIED",
@@ -369,9 +378,11 @@ pub async fn cached_read_query(
     response
         .headers_mut()
         .insert(QUERY_TIME_HEADER, elapsed.parse().unwrap());
-    response
-        .headers_mut()
-        .insert(header::ETAG, etag.parse().unwrap());
+    if let Some(etag) = etag {
+        response
+            .headers_mut()
+            .insert(header::ETAG, etag.parse().unwrap());
+    }
     response
         .headers_mut()
         .insert(header::CONTENT_TYPE, content_type_with_schema(schema));
-- 
2.43.0


From e70a082aed27f27b9de7654c75dd2a3b6cf5c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:51 +0000
Subject: [PATCH 32/57] fix: strip the Bearer prefix from the authorization
 header just once

The prefix was stripped as many times as it's repeated, so that a token which
starts with it itself could not be used, and one that isn't the access token
was accepted.
---
 src/frontend/http.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 413d733..414e5cc 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -245,11 +245,9 @@ fn header_to_user_context(
 ) -> Result<UserContext, ApiError> {
     let token = header
         .map(|h| {
-            if h.starts_with(BEARER_PREFIX) {
-                Ok(h.trim_start_matches(BEARER_PREFIX).to_string())
-            } else {
-                Err(ApiError::InvalidAuthorizationHeader)
-            }
+            h.strip_prefix(BEARER_PREFIX)
+                .map(|token| token.to_string())
+                .ok_or(ApiError::InvalidAuthorizationHeader)
         })
         .transpose()?;
 
-- 
2.43.0


From a126f26ebb3c112e447572842009a0ac35e59bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:40 +0000
Subject: [PATCH 33/57] fix: require the read permission for a query that
 follows writes

A POST request with write statements and a query at the end needed just the
write permission, so when the writes are open but the reads are not anyone
could read any table by putting a write statement before the query.
---
 src/frontend/http.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 414e5cc..49a8cda 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -188,14 +188,13 @@ pub async fn uncached_read_write_query(
         .filter(|s| is_statement_read_only(s))
         .count();
 
-    // Check for authorization
-    if !user_context.can_perform_action(if reads == statements.len() {
-        Action::Read
-    } else {
-        Action::Write
-    }) {
+    // Check for authorization: having the permission to write doesn't imply having the one to read
+    if reads < statements.len() && !user_context.can_perform_action(Action::Write) {
         return Err(ApiError::WriteForbidden);
     };
+    if reads > 0 && !user_context.can_perform_action(Action::Read) {
+        return Err(ApiError::ReadForbidden);
+    };
 
     // If we have a read statement, make sure it's the last and only one (that's the only one
     // we'll return actual results for)
-- 
2.43.0


From c1d908e3487e206b6598f75d9d701e49a793fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:18 +0000
Subject: [PATCH 34/57] fix: don't panic on ranges that are empty or start past
 the end in the cache

Reading an empty range at the beginning of an object through the cache, or one
that starts past the end of an object but in its last chunk, panicked.
---
 src/object_store/cache.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 5b045de..456a137 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -660,9 +660,13 @@ impl ObjectStore for CachingObjectStore {
         self.metrics.get_range_calls.increment(1);
         self.metrics
             .get_range_bytes
-            .increment((range.end - range.start).try_into().unwrap());
+            .increment(range.len().try_into().unwrap());
 
         debug!("{location}-{range:?} get_range");
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         // Expand the range to the next max_fetch_size (+ alignment)
         let start_chunk = range.start / self.min_fetch_size as usize;
         // The final chunk to fetch (inclusively). E.g. with min_fetch_size = 16:
@@ -676,6 +680,15 @@ impl ObjectStore for CachingObjectStore {
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
         let offset = range.start - start_chunk * self.min_fetch_size as usize;
+        if offset >= data.len() {
+            return Err(object_store::Error::Generic {
+                store: "CachingObjectStore",
+                source: format!(
+                    "Range {range:?} starts beyond the end of the object {location}"
+                )
+                .into(),
+            });
+        }
         data.advance(offset);
         data.truncate(range.end - range.start);
         debug!("{location}-{range:?} return");
-- 
2.43.0


From 7558ff9735aa26d9c97c36107f3e6539137f0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:54 +0000
Subject: [PATCH 35/57] fix: don't cache the last chunk of an object for the
 chunks past its end

Reading a range which goes more than a chunk beyond the end of an object stored
the contents of the last chunk for the following ones as well, so that reading
the same range again returned these bytes repeatedly.
---
 src/object_store/cache.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 456a137..bc49ace 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -515,12 +515,14 @@ impl CachingObjectStore {
                 result.extend_from_slice(&batch_data);
 
                 for key in &chunk_batch {
-                    // Split the next chunk from the batch
-                    let data = if batch_data.len() < self.min_fetch_size as usize {
-                        batch_data.clone()
-                    } else {
-                        batch_data.split_to(self.min_fetch_size as usize)
-                    };
+                    // There's nothing to cache past the end of the object
+                    if batch_data.is_empty() {
+                        break;
+                    }
+
+                    // Split the next chunk from the batch; the last one can be shorter
+                    let chunk_size = batch_data.len().min(self.min_fetch_size as usize);
+                    let data = batch_data.split_to(chunk_size);
 
                     self.cache_chunk_data(key.clone(), data).await;
                 }
@@ -531,6 +533,11 @@ impl CachingObjectStore {
             // Finally append the current chunk data (if not included in the batch above).
             if let Some(data) = chunk_data {
                 result.extend_from_slice(&data);
+
+                // A chunk that isn't full is the last one of the object
+                if data.len() < self.min_fetch_size as usize {
+                    break;
+                }
             }
         }
 
-- 
2.43.0


From 35331db020dce0843f287fdb6dbf992cc1a69885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:13 +0000
Subject: [PATCH 36/57] fix: don't leave a partially written file of the cache
 behind

When writing a chunk to the disk failed midway (e.g. with no space left) the
partial file stayed, and was used instead of the chunk once it was fetched
again.
---
 src/object_store/cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index bc49ace..bacbf12 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -14,7 +14,7 @@ use object_store::{
     GetOptions, GetResult, ListResult, MultipartUpload, ObjectMeta, ObjectStore,
     PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
-use tempfile::TempDir;
+use tempfile::{NamedTempFile, TempDir};
 use tokio::time::Instant;
 use tracing::{debug, error, warn};
 
@@ -57,7 +57,11 @@ impl CacheFileManager {
         }
 
         let start = Instant::now();
-        tokio::fs::write(&path, data.as_ref()).await?;
+        // Write to a temporary file first (removed upon errors), so that there's never a file with
+        // only a part of the data to be found under the actual path.
+        let temp_path = NamedTempFile::new_in(&self.base_path)?.into_temp_path();
+        tokio::fs::write(&temp_path, data.as_ref()).await?;
+        temp_path.persist(&path)?;
 
         debug!("Written data for {:?} to {:?}", cache_key, path);
         self.metrics.log_cache_disk_write(start, data.len());
-- 
2.43.0


From 597c719cec6c76fb6f396177ed41370516a607cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:02 +0000
Subject: [PATCH 37/57] fix: retry the cleanup of a dropped table after its
 first failure

A pending table went straight to the failed state (which is never tried again),
and only a table being retried was kept for another try, forever.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0157b4a..d5407b1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -80,7 +80,7 @@ pub async fn gc_databases(
                 "Encountered error while trying to delete table in directory {}: {err}",
                 dt.uuid
             );
-            if dt.deletion_status != DroppedTableDeletionStatus::Pending {
+            if dt.deletion_status == DroppedTableDeletionStatus::Pending {
                 dt.deletion_status = DroppedTableDeletionStatus::Retry;
             } else {
                 dt.deletion_status = DroppedTableDeletionStatus::Failed;
-- 
2.43.0


From c5bfbf897aea4d4aa06fb474162645d81220f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:02 +0000
Subject: [PATCH 38/57] fix: don't take a table's directory for deleted when
 listing it fails

Errors of the listing were skipped, so that objects not seen stayed behind while
the record of the dropped table was removed.
---
 src/object_store/wrapped.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object_store/wrapped.rs b/src/object_store/wrapped.rs
index a17b10c..7c5d709 100644
--- a/src/object_store/wrapped.rs
+++ b/src/object_store/wrapped.rs
@@ -125,9 +125,8 @@ impl InternalObjectStore {
     pub async fn delete_in_prefix(&self, prefix: &Path) -> Result<(), Error> {
         let mut path_stream = self.inner.list(Some(prefix));
         while let Some(maybe_object) = path_stream.next().await {
-            if let Ok(ObjectMeta { location, .. }) = maybe_object {
-                self.inner.delete(&location).await?;
-            }
+            let ObjectMeta { location, .. } = maybe_object?;
+            self.inner.delete(&location).await?;
         }
         Ok(())
     }
-- 
2.43.0


From a2cd97404ae62d2057fb3c9489bba06433927110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:12 +0000
Subject: [PATCH 39/57] sync: expose the writer to outside checks under
 cfg(vp_hooks)

---
 src/sync/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sync/mod.rs b/src/sync/mod.rs
index 0118158..887ff9d 100644
--- a/src/sync/mod.rs
+++ b/src/sync/mod.rs
@@ -12,6 +12,11 @@ pub mod schema;
 mod utils;
 pub(crate) mod writer;
 
+// Access to the writer for checks outside of this crate
+#[allow(unexpected_cfgs)]
+#[cfg(vp_hooks)]
+pub use crate::sync::writer::SeafowlDataSyncWriter as SyncWriter;
+
 pub(super) type Origin = String;
 pub(super) type SequenceNumber = u64;
 
-- 
2.43.0


From 1c1c81b774b4fc5e20e2f8ccca16c78133c4bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 40/57] fix: treat a change of any primary key column as a key
 change when syncing

Only the first column of a composite key was compared, so an update of another
one left the row with the old key in place.
---
 src/sync/planner.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index e60dd17..56afbe2 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -318,16 +318,30 @@ impl SeafowlSyncPlanner {
 
         // Construct the conditions for all possible 4 cases that we want to normalize
         let insert = old_pk.clone().is_null().and(new_pk.clone().is_not_null());
-        let pk_preserving_update = old_pk
+        let pk_update = old_pk
             .clone()
             .is_not_null()
-            .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().eq(new_pk.clone()));
-        let pk_changing_update = old_pk
-            .clone()
-            .is_not_null()
-            .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().not_eq(new_pk.clone()));
+            .and(new_pk.clone().is_not_null());
+        // The PK is preserved only if none of its columns changes
+        let (pk_same, pk_differs) = sync_schema
+            .columns()
+            .iter()
+            .filter(|sc| sc.role() == ColumnRole::OldPk)
+            .map(|sc| {
+                let new_name = sync_schema
+                    .column(sc.name(), ColumnRole::NewPk)
+                    .unwrap()
+                    .field()
+                    .name();
+                let (old, new) = (col(sc.field().name()), col(new_name));
+                (old.clone().eq(new.clone()), old.not_eq(new))
+            })
+            .reduce(|(same, differs), (next_same, next_differs)| {
+                (same.and(next_same), differs.or(next_differs))
+            })
+            .expect("At least 1 old PK column must exist");
+        let pk_preserving_update = pk_update.clone().and(pk_same);
+        let pk_changing_update = pk_update.and(pk_differs);
 
         let mut projection = vec![];
         let mut unnest_cols = vec![];
-- 
2.43.0


From 3ce458d967cc780a04ee73332a3e1f449bb79f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:12 +0000
Subject: [PATCH 41/57] fix: don't lose values when squashing syncs with
 unchanged or missing columns

Joining a sync with one that leaves a column as it is (by its Changed flag, or by
not having the column) took the flag and value of the latter for rows changed in
both, so that the first change of the value was lost. Such syncs are now applied
one after the other.
---
 src/sync/planner.rs | 105 +++++++++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 30 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 56afbe2..afcdf31 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -35,6 +35,46 @@ pub(super) const UPPER_REL: &str = "__upper_rel";
 pub(super) const UPSERT_COL: &str = "__upsert_col";
 const FINE_GRAINED_PRUNING_ROW_CRITERIA: i64 = 3_000_000;
 
+// Whether the batch consists of INSERTs only, i.e. there are no old PKs in it.
+fn is_append_only(sync_schema: &SyncSchema, data: &RecordBatch) -> bool {
+    sync_schema
+        .columns()
+        .iter()
+        .find_map(|sc| {
+            if sc.role() == ColumnRole::OldPk {
+                let null_count = data
+                    .column_by_name(sc.field().name())
+                    .expect("Old PK array must exist")
+                    .null_count();
+                Some(data.num_rows() == null_count)
+            } else {
+                None
+            }
+        })
+        .expect("At least 1 old PK column must exist")
+}
+
+// Whether for each row changed in both syncs the values of the upper sync replace those of the
+// lower sync as a whole.
+//
+// This isn't the case if the upper sync may leave a value as it is in the lower sync, as joining the
+// two would then lose the value.
+fn overrides_values(lower_schema: &SyncSchema, upper_schema: &SyncSchema) -> bool {
+    lower_schema
+        .columns()
+        .iter()
+        .filter(|sc| sc.role() == ColumnRole::Value)
+        .all(|sc| {
+            let is_changed = |schema: &SyncSchema| {
+                schema.column(sc.name(), ColumnRole::Changed).is_some()
+            };
+            match upper_schema.column(sc.name(), ColumnRole::Value) {
+                Some(_) => !is_changed(upper_schema),
+                None => !is_changed(lower_schema),
+            }
+        })
+}
+
 pub(super) struct SeafowlSyncPlanner {
     context: Arc<SeafowlContext>,
     metrics: SyncPlanMetrics,
@@ -104,13 +144,24 @@ impl SeafowlSyncPlanner {
             LogicalPlanBuilder::scan(LOWER_REL, provider_as_source(base_scan), None)?
                 .build()?;
 
-        let base_df = DataFrame::new(self.session_state(), base_plan);
-        let (sync_schema, sync_df) = self.squash_syncs(syncs)?;
-        let (sync_schema, sync_df) = self.normalize_syncs(&sync_schema, sync_df)?;
+        let mut input_df = DataFrame::new(self.session_state(), base_plan);
+        let mut pending = syncs;
+        while !pending.is_empty() {
+            if pending.len() < syncs.len() {
+                // The outcome of the preceding syncs acts as the base for the remaining ones
+                let (session_state, plan) = input_df.into_parts();
+                let plan = LogicalPlanBuilder::from(plan).alias(LOWER_REL)?.build()?;
+                input_df = DataFrame::new(session_state, plan);
+            }
 
-        let input_df = self
-            .apply_syncs(full_schema, base_df, sync_df, &sync_schema)
-            .await?;
+            let (sync_schema, sync_df, squashed) = self.squash_syncs(pending)?;
+            pending = &pending[squashed..];
+
+            let (sync_schema, sync_df) = self.normalize_syncs(&sync_schema, sync_df)?;
+            input_df = self
+                .apply_syncs(full_schema.clone(), input_df, sync_df, &sync_schema)
+                .await?;
+        }
         let input_plan = input_df.create_physical_plan().await?;
 
         Ok((input_plan, removes))
@@ -126,11 +177,14 @@ impl SeafowlSyncPlanner {
     }
 
     // Perform logical squashing of the provided sync batches into a single dataframe/plan, which can
-    // then be joined against the base scan
+    // then be joined against the base scan.
+    //
+    // Stops at the first sync that can't be squashed with the preceding ones, and also returns the
+    // number of the squashed syncs.
     fn squash_syncs(
         &self,
         syncs: &[DataSyncItem],
-    ) -> SyncResult<(SyncSchema, DataFrame)> {
+    ) -> SyncResult<(SyncSchema, DataFrame, usize)> {
         let first_sync = syncs.first().unwrap();
         let mut sync_schema = first_sync.sync_schema.clone();
         let first_sync_data = first_sync.data.clone();
@@ -146,17 +200,22 @@ impl SeafowlSyncPlanner {
         .build()?;
 
         // Make a plan to squash all syncs into a single change stream
+        let mut squashed = 1;
         for sync in &syncs[1..] {
-            (sync_schema, sync_plan) = self.merge_syncs(
-                &sync_schema,
-                sync_plan,
-                &sync.sync_schema,
-                sync.data.first().unwrap().clone(),
-            )?;
+            let upper_data = sync.data.first().unwrap().clone();
+            if !is_append_only(&sync.sync_schema, &upper_data)
+                && !overrides_values(&sync_schema, &sync.sync_schema)
+            {
+                break;
+            }
+
+            (sync_schema, sync_plan) =
+                self.merge_syncs(&sync_schema, sync_plan, &sync.sync_schema, upper_data)?;
+            squashed += 1;
         }
 
         let sync_df = DataFrame::new(self.session_state(), sync_plan);
-        Ok((sync_schema, sync_df))
+        Ok((sync_schema, sync_df, squashed))
     }
 
     fn merge_syncs(
@@ -166,21 +225,7 @@ impl SeafowlSyncPlanner {
         upper_schema: &SyncSchema,
         upper_data: RecordBatch,
     ) -> SyncResult<(SyncSchema, LogicalPlan)> {
-        let upper_append_only = upper_schema
-            .columns()
-            .iter()
-            .find_map(|sc| {
-                if sc.role() == ColumnRole::OldPk {
-                    let null_count = upper_data
-                        .column_by_name(sc.field().name())
-                        .expect("Old PK array must exist")
-                        .null_count();
-                    Some(upper_data.num_rows() == null_count)
-                } else {
-                    None
-                }
-            })
-            .expect("At least 1 old PK column must exist");
+        let upper_append_only = is_append_only(upper_schema, &upper_data);
 
         let provider = MemTable::try_new(upper_data.schema(), vec![vec![upper_data]])?;
         let upper_plan = LogicalPlanBuilder::scan(
-- 
2.43.0


From cbdc2512a32b6d8d4a9ad3b8bd22bc79cd51dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 42/57] fix: don't take syncs with different numbers of columns
 for compatible

---
 src/sync/schema/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index 03342d0..d6ca122 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -181,14 +181,16 @@ impl SyncSchema {
     // This is a shallower check than the equality check, since it checks for the sync column roles,
     // names, data types and order (and doesn't inspect the underlying arrows field equality).
     pub fn is_compatible_with(&self, other: &SyncSchema) -> bool {
-        self.columns()
-            .iter()
-            .zip(other.columns().iter())
-            .all(|(this, other)| {
-                this.name == other.name
-                    && this.role == other.role
-                    && this.field().data_type() == other.field().data_type()
-            })
+        self.columns().len() == other.columns().len()
+            && self
+                .columns()
+                .iter()
+                .zip(other.columns().iter())
+                .all(|(this, other)| {
+                    this.name == other.name
+                        && this.role == other.role
+                        && this.field().data_type() == other.field().data_type()
+                })
     }
 }
 
-- 
2.43.0


From 91e75c13ac8c0af8a41d4d0282c6741516d3c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 43/57] fix: squash each column with a changed flag by its own
 flag

---
 src/sync/utils.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 39d8e7e..2ba3931 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -11,7 +11,7 @@ use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
 use datafusion_expr::{col, lit, Accumulator, Expr};
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
 
@@ -165,11 +165,9 @@ pub(super) fn squash_batches(
 
     // Transpose the changed rows so that we obtain the indices for each column role
     let rows = column_rows.len();
-    let (mut old_pks, mut new_pks, mut changed_rows) = (
-        Vec::with_capacity(rows),
-        Vec::with_capacity(rows),
-        VecDeque::with_capacity(rows),
-    );
+    let (mut old_pks, mut new_pks) =
+        (Vec::with_capacity(rows), Vec::with_capacity(rows));
+    let mut changed_rows = vec![Vec::with_capacity(rows); changed.len()];
     for (id, (old_pk, new_pk, changed_row)) in column_rows.into_iter().enumerate() {
         if temp_rows.contains(&id) {
             // Exclude temporary rows from the output batch
@@ -178,11 +176,8 @@ pub(super) fn squash_batches(
 
         old_pks.push(old_pk);
         new_pks.push(new_pk);
-        for (idx, changed_row) in changed_row.iter().enumerate() {
-            match changed_rows.get_mut(idx) {
-                None => changed_rows.push_back(vec![*changed_row]),
-                Some(v) => v.push(*changed_row),
-            };
+        for (rows, changed_row) in changed_rows.iter_mut().zip(changed_row) {
+            rows.push(changed_row);
         }
     }
 
@@ -190,8 +185,8 @@ pub(super) fn squash_batches(
     let old_pk_indices = UInt64Array::from(old_pks);
     let new_pk_indices = UInt64Array::from(new_pks);
     let changed_indices = changed_rows
-        .iter()
-        .map(|rows| UInt64Array::from(rows.clone()))
+        .into_iter()
+        .map(UInt64Array::from)
         .collect::<Vec<_>>();
     let mut changed_pos = 0;
     let mut indices: HashMap<usize, &UInt64Array> = HashMap::new();
@@ -209,7 +204,7 @@ pub(super) fn squash_batches(
                 }
                 ColumnRole::Changed => {
                     // Insert the indices for both this column...
-                    indices.insert(col_id, &changed_indices[0]);
+                    indices.insert(col_id, &changed_indices[changed_pos]);
 
                     // ... as well as for the actual changed Value column
                     let changed_col_id = schema
@@ -221,7 +216,7 @@ pub(super) fn squash_batches(
                                 .name(),
                         )
                         .expect("Field exists");
-                    indices.insert(changed_col_id, &changed_indices[0]);
+                    indices.insert(changed_col_id, &changed_indices[changed_pos]);
                     changed_pos += 1;
                 }
                 ColumnRole::Value => {
-- 
2.43.0


From 64ced6cbfb44c01adef7e60c8e9b7bbaaf70f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 44/57] fix: flush syncs whose rows are all temporary

---
 src/sync/planner.rs | 3 ++-
 src/sync/writer.rs  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index afcdf31..613767d 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -628,7 +628,8 @@ impl SeafowlSyncPlanner {
             (Some(old_pk_q), Some(new_pk_q)) => old_pk_q.or(new_pk_q),
             (Some(old_pk_q), None) => old_pk_q,
             (None, Some(new_pk_q)) => new_pk_q,
-            _ => panic!("There can be no situation without either old or new PKs"),
+            // All of the changed rows were temporary, so there's nothing to re-write
+            (None, None) => return Ok(vec![]),
         };
 
         let prune_expr = create_physical_expr(
diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 46e99bd..4227f09 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -572,7 +572,7 @@ impl SeafowlDataSyncWriter {
             let duration = start.elapsed().as_millis();
             info!(
                 "Squashed {} bytes in {duration} ms for {url}",
-                old_size - self.size,
+                old_size.saturating_sub(self.size),
             );
         };
 
-- 
2.43.0


From cb9631aaceb835bb048deb0d0aa224dfdeb823ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 45/57] fix: refer to the columns of syncs by their exact names

---
 src/sync/planner.rs      | 51 ++++++++++++++++++++--------------------
 src/sync/schema/union.rs | 26 ++++++++++----------
 src/sync/utils.rs        | 10 ++++----
 3 files changed, 44 insertions(+), 43 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 613767d..84e694e 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -18,7 +18,7 @@ use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::{Column, DFSchemaRef, JoinType, ScalarValue, ToDFSchema};
 use datafusion_expr::execution_props::ExecutionProps;
 use datafusion_expr::{
-    col, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
+    col, ident, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
 };
 use datafusion_functions_nested::expr_fn::make_array;
 use deltalake::delta_datafusion::DeltaTableProvider;
@@ -279,7 +279,7 @@ impl SeafowlSyncPlanner {
         let exprs = self.add_sync_flag(upper_plan.schema(), UPPER_REL);
         let upper_plan = upper_plan.project(exprs)?;
 
-        let (lower_join_cols, upper_join_cols): (Vec<String>, Vec<String>) = upper_schema
+        let (lower_join_cols, upper_join_cols): (Vec<Column>, Vec<Column>) = upper_schema
             .map_columns(ColumnRole::OldPk, |sc| {
                 let lower_name = lower_schema
                     .column(sc.name(), ColumnRole::NewPk)
@@ -288,7 +288,7 @@ impl SeafowlSyncPlanner {
                     .name()
                     .clone();
                 let upper_name = sc.field().name().clone();
-                (lower_name, upper_name)
+                (Column::from_name(lower_name), Column::from_name(upper_name))
             })
             .into_iter()
             .unzip();
@@ -350,7 +350,7 @@ impl SeafowlSyncPlanner {
                         .unwrap()
                         .field()
                         .name();
-                    Some((col(old_name), col(new_name)))
+                    Some((ident(old_name), ident(new_name)))
                 } else {
                     None
                 }
@@ -378,7 +378,7 @@ impl SeafowlSyncPlanner {
                     .unwrap()
                     .field()
                     .name();
-                let (old, new) = (col(sc.field().name()), col(new_name));
+                let (old, new) = (ident(sc.field().name()), ident(new_name));
                 (old.clone().eq(new.clone()), old.not_eq(new))
             })
             .reduce(|(same, differs), (next_same, next_differs)| {
@@ -413,12 +413,14 @@ impl SeafowlSyncPlanner {
         // +-----------+----------------------+--------------+
         for sync_col in sync_schema.columns().iter() {
             if sync_col.role() == ColumnRole::OldPk {
-                let old_pk = col(sync_col.field().name());
-                let new_pk = col(sync_schema
-                    .column(sync_col.name(), ColumnRole::NewPk)
-                    .unwrap()
-                    .field()
-                    .name());
+                let old_pk = ident(sync_col.field().name());
+                let new_pk = ident(
+                    sync_schema
+                        .column(sync_col.name(), ColumnRole::NewPk)
+                        .unwrap()
+                        .field()
+                        .name(),
+                );
 
                 let name =
                     SyncColumn::canonical_field_name(ColumnRole::NewPk, sync_col.name());
@@ -444,7 +446,7 @@ impl SeafowlSyncPlanner {
                 let name =
                     SyncColumn::canonical_field_name(sync_col.role(), sync_col.name());
                 projection.push(
-                    col(sync_col.field().name())
+                    ident(sync_col.field().name())
                         .alias_qualified(Some(UPPER_REL), name.clone()),
                 );
                 column_descriptors.push(sync_col.column_descriptor());
@@ -514,28 +516,27 @@ impl SeafowlSyncPlanner {
     ) -> SyncResult<DataFrame> {
         // These differ since the physical column names are reflected in the ColumnDescriptor,
         // while logical column names are found in the arrow fields
-        let (base_pk_cols, sync_pk_cols): (Vec<String>, Vec<String>) = sync_schema
+        let (base_pk_cols, sync_pk_cols): (Vec<Column>, Vec<Column>) = sync_schema
             .map_columns(ColumnRole::NewPk, |c| {
-                (c.name().to_string(), c.field().name().clone())
+                (
+                    Column::from_name(c.name()),
+                    Column::from_name(c.field().name()),
+                )
             })
             .into_iter()
             .unzip();
 
-        let input_df = base_df
-            .with_column(LOWER_REL, lit(true))?
+        let (session_state, base_plan) =
+            base_df.with_column(LOWER_REL, lit(true))?.into_parts();
+        let joined_plan = LogicalPlanBuilder::from(base_plan)
             .join(
-                sync_df,
+                sync_df.into_parts().1,
                 JoinType::Full,
-                &base_pk_cols
-                    .iter()
-                    .map(|pk| pk.as_str())
-                    .collect::<Vec<_>>(),
-                &sync_pk_cols
-                    .iter()
-                    .map(|pk| pk.as_str())
-                    .collect::<Vec<_>>(),
+                (base_pk_cols, sync_pk_cols),
                 None,
             )?
+            .build()?;
+        let input_df = DataFrame::new(session_state, joined_plan)
             .filter(col(UPSERT_COL).is_not_false())?; // Remove deleted rows
 
         // Normalize the schema, by ordering columns according to the full table schema and
diff --git a/src/sync/schema/union.rs b/src/sync/schema/union.rs
index 18d013f..903939b 100644
--- a/src/sync/schema/union.rs
+++ b/src/sync/schema/union.rs
@@ -3,7 +3,7 @@ use crate::sync::schema::{SyncColumn, SyncSchema};
 use crate::sync::SyncResult;
 use clade::sync::{ColumnDescriptor, ColumnRole};
 use datafusion_common::ScalarValue;
-use datafusion_expr::{col, lit, Expr};
+use datafusion_expr::{ident, lit, Expr};
 use indexmap::IndexSet;
 
 pub(super) fn union_pk_column(
@@ -15,8 +15,8 @@ pub(super) fn union_pk_column(
         .expect("Old Pk columns must be the same across syncs");
 
     (
-        col(lower_pk_col.field().name()),
-        col(upper_pk_col.field().name()),
+        ident(lower_pk_col.field().name()),
+        ident(upper_pk_col.field().name()),
     )
 }
 
@@ -31,8 +31,8 @@ pub(super) fn union_changed_column(
         // ... other sync has the corresponding `Changed` column, projects both
         match sync_position {
             SyncPosition::Lower => (
-                col(this_changed_col.field().name()),
-                col(other_changed_col.field().name()),
+                ident(this_changed_col.field().name()),
+                ident(other_changed_col.field().name()),
             ),
             SyncPosition::Upper => {
                 unreachable!("Picked up `Changed` column during processing of lower sync")
@@ -46,17 +46,17 @@ pub(super) fn union_changed_column(
         // the corresponding `Value` column
         match sync_position {
             // project true to pick those upper values up
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(true)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(true)),
             // project true to pick those lower values up
-            SyncPosition::Upper => (lit(true), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(true), ident(this_changed_col.field().name())),
         }
     } else {
         // ... other sync has neither the `Changed` nor the associated `Value` column,
         match sync_position {
             // project false to avoid overriding lower values with NULL values
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(false)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(false)),
             // project false to avoid overriding upper values with NULL values
-            SyncPosition::Upper => (lit(false), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(false), ident(this_changed_col.field().name())),
         }
     }
 }
@@ -96,8 +96,8 @@ pub(super) fn union_value_column(
             // ... other sync has the corresponding `Changed` column, projects both
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
-                    col(other_value_col.field().name()),
+                    ident(this_value_col.field().name()),
+                    ident(other_value_col.field().name()),
                 ),
                 SyncPosition::Upper => {
                     unreachable!(
@@ -110,12 +110,12 @@ pub(super) fn union_value_column(
             // `Changed` column will be added regardless ...
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
                 ),
                 SyncPosition::Upper => (
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                 ),
             }
         },
diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 2ba3931..1ea14a6 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -9,8 +9,8 @@ use arrow_schema::{Field, Fields, Schema};
 use clade::sync::ColumnRole;
 use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
-use datafusion_common::{DataFusionError, Result};
-use datafusion_expr::{col, lit, Accumulator, Expr};
+use datafusion_common::{Column, DataFusionError, Result};
+use datafusion_expr::{ident, lit, Accumulator, Expr};
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
@@ -296,7 +296,7 @@ pub(super) fn construct_qualifier(
             let max_value = max_value.evaluate().ok()?;
             if !min_value.is_null() && !max_value.is_null() {
                 Some(Ok(
-                    col(pk_col.as_str()).between(lit(min_value), lit(max_value))
+                    ident(pk_col.as_str()).between(lit(min_value), lit(max_value))
                 ))
             } else {
                 // There shouldn't be a situation where a max is NULL but min isn't and vice-versa.
@@ -336,8 +336,8 @@ pub(super) fn get_prune_map(
         .iter()
         .filter(|col| col.role() == ColumnRole::OldPk)
     {
-        let maybe_min_vals = pruning_stats.min_values(&col.name().into());
-        let maybe_max_vals = pruning_stats.max_values(&col.name().into());
+        let maybe_min_vals = pruning_stats.min_values(&Column::from_name(col.name()));
+        let maybe_max_vals = pruning_stats.max_values(&Column::from_name(col.name()));
 
         if maybe_min_vals.is_none() && maybe_max_vals.is_none() {
             // We have no stats for any partition for this PK column, so short-circuit pruning
-- 
2.43.0


From 0d5e32fe09a03beb1817c1c4eaad2021d944d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:29 +0000
Subject: [PATCH 46/57] fix: compare old and new keys of syncs column by column
 when squashing

---
 src/sync/utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 1ea14a6..4e4e3f2 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -81,7 +81,22 @@ pub(super) fn squash_batches(
     };
 
     let (old_pk_cols, (sort_fields, nulls)) = columns(ColumnRole::OldPk);
-    let (new_pk_cols, _) = columns(ColumnRole::NewPk);
+    // The new PK columns must come in the same order as the old ones in order to be comparable
+    let new_pk_cols = sync_schema
+        .columns()
+        .iter()
+        .filter(|old_pk| old_pk.role() == ColumnRole::OldPk)
+        .map(|old_pk| {
+            let idx = sync_schema
+                .columns()
+                .iter()
+                .position(|col| {
+                    col.role() == ColumnRole::NewPk && col.name() == old_pk.name()
+                })
+                .expect("PK columns identical");
+            batch.column(idx).clone()
+        })
+        .collect::<Vec<_>>();
 
     // NB: we must use the same row converter in order to compare fields, or else the comparison
     // might not make sense:
-- 
2.43.0


From b7354cbcd2eb208f5107325ae60c757b6b02dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:27 +0000
Subject: [PATCH 47/57] fix: refuse syncs whose columns are ambiguous

---
 src/sync/schema/mod.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index d6ca122..dcbcf3f 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -29,7 +29,6 @@ impl SyncSchema {
 
         // Validate field role's are parsable, we have the correct number of old/new PKs,
         // and Changed role is a boolean type which points to an existing column
-        // TODO: Validate a column can not be a PK and Value at the same time
         let mut old_pk_types = HashSet::new();
         let mut new_pk_types = HashSet::new();
         for (col_desc, field) in column_descriptors.iter().zip(schema.fields()) {
@@ -86,6 +85,37 @@ impl SyncSchema {
                             .to_string(),
                 });
             }
+
+            // Make sure that each column and field is referred to unambiguously
+            let mut descriptors = HashSet::new();
+            let mut field_names = HashSet::new();
+            for (col_desc, field) in column_descriptors.iter().zip(schema.fields()) {
+                if !descriptors.insert((col_desc.role, &col_desc.name)) {
+                    return Err(SyncError::SchemaError {
+                        reason: format!(
+                            "Column {} occurs more than once with the same role",
+                            &col_desc.name,
+                        ),
+                    });
+                }
+
+                if !field_names.insert(field.name()) {
+                    return Err(SyncError::SchemaError {
+                        reason: format!("Field {} occurs more than once", field.name()),
+                    });
+                }
+
+                if col_desc.role() == ColumnRole::Value
+                    && new_pk_types.iter().any(|(name, _)| *name == &col_desc.name)
+                {
+                    return Err(SyncError::SchemaError {
+                        reason: format!(
+                            "Column {} can not have both a PK and the `Value` role",
+                            &col_desc.name,
+                        ),
+                    });
+                }
+            }
         }
 
         let mut indices = HashMap::new();
-- 
2.43.0


From 04b892433cad78dc9c56dbe78134855c0ba8e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:35 +0000
Subject: [PATCH 48/57] fix: report transactions durable whose sequence number
 comes after their changes were flushed

---
 src/sync/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 4227f09..2773149 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -323,6 +323,9 @@ impl SeafowlDataSyncWriter {
             self.flush_syncs(url).await?;
         }
 
+        // A transaction may get its sequence number only after all of its changes have been flushed
+        self.advance_durable();
+
         self.metrics.in_memory_oldest.set(
             self.syncs
                 .first()
-- 
2.43.0


From 9b051863f5bb068ce38d3fc12b94d0c836093923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:39 +0000
Subject: [PATCH 49/57] fix: name functions in CREATE and DROP FUNCTION the way
 queries do

---
 src/context/logical.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index b7f6fec..0b706ad 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -1,7 +1,7 @@
 use crate::catalog::DEFAULT_SCHEMA;
 use crate::context::SeafowlContext;
 use crate::datafusion::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA};
-use crate::datafusion::utils::build_schema;
+use crate::datafusion::utils::{build_schema, normalize_ident};
 use crate::nodes::Truncate;
 use crate::wasm_udf::data_types::CreateFunctionDetails;
 use crate::{
@@ -28,8 +28,8 @@ use deltalake::DeltaTable;
 use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
-    CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
-    Statement, TableFactor, TableWithJoins, Value, VisitMut,
+    CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectName, ObjectType,
+    Query, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
 use tracing::debug;
@@ -58,6 +58,14 @@ pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     }
 }
 
+// The name by which DataFusion looks up a function spelled like this in a query
+fn function_name(name: &ObjectName) -> String {
+    match name.0.as_slice() {
+        [ident] => normalize_ident(ident),
+        _ => name.to_string(),
+    }
+}
+
 impl SeafowlContext {
     pub async fn create_logical_plan(&self, sql: &str) -> Result<LogicalPlan> {
         let mut statements = self.parse_query(sql).await?;
@@ -254,7 +262,7 @@ impl SeafowlContext {
                     Ok(LogicalPlan::Extension(Extension {
                         node: Arc::new(SeafowlExtensionNode::CreateFunction(CreateFunction {
                             or_replace: *or_replace,
-                            name: name.to_string(),
+                            name: function_name(name),
                             details: function_details,
                             output_schema: Arc::new(DFSchema::empty())
                         })),
@@ -296,7 +304,7 @@ impl SeafowlContext {
                     option: _
                 } => {
                     let func_names: Vec<String> =
-                        func_desc.iter().map(|desc| desc.name.to_string()).collect();
+                        func_desc.iter().map(|desc| function_name(&desc.name)).collect();
                     Ok(LogicalPlan::Extension(Extension {
                         node: Arc::new(SeafowlExtensionNode::DropFunction(DropFunction {
                             if_exists: *if_exists,
-- 
2.43.0


From 09a4bd6cfa3137617ab28c7b59b363b2af12381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:30 +0000
Subject: [PATCH 50/57] fix: forget dropped functions, and uncover the built-in
 ones they hid

---
 src/context/mod.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 03a912c..d33854c 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -13,6 +13,8 @@ use crate::wasm_udf::wasm::create_udf_from_wasm;
 use crate::config::schema::SeafowlConfig;
 use base64::{engine::general_purpose::STANDARD, Engine};
 pub use datafusion::error::{DataFusionError as Error, Result};
+use datafusion::execution::SessionStateDefaults;
+use datafusion::logical_expr::expr_fn::SimpleScalarUDF;
 use datafusion::{
     error::DataFusionError,
     prelude::SessionContext,
@@ -21,6 +23,7 @@ use datafusion::{
 use deltalake::DeltaTable;
 use iceberg_datafusion::IcebergTableProvider;
 use object_store::path::Path;
+use std::collections::HashSet;
 use std::sync::Arc;
 use uuid::Uuid;
 
@@ -104,13 +107,39 @@ impl SeafowlContext {
         );
 
         // Register all functions in the database
-        self.metastore
+        let functions = self
+            .metastore
             .build_functions(&self.default_catalog)
-            .await?
+            .await?;
+        self.deregister_functions_except(
+            functions.iter().map(|f| f.name.as_str()).collect(),
+        );
+        functions
             .iter()
             .try_for_each(|f| self.register_function(&f.name, &f.details))
     }
 
+    // Forget the previously registered functions that have been dropped since
+    fn deregister_functions_except(&self, kept: HashSet<&str>) {
+        let state = self.inner.state();
+        // All built-in functions have types of their own
+        let dropped = state.scalar_functions().iter().filter(|(name, udf)| {
+            !kept.contains(name.as_str())
+                && udf.inner().as_any().is::<SimpleScalarUDF>()
+        });
+
+        for (name, _) in dropped {
+            self.inner.deregister_udf(name);
+            // Uncover the built-in function that was hidden by the dropped one, if any
+            if let Some(built_in) = SessionStateDefaults::default_scalar_functions()
+                .into_iter()
+                .find(|udf| udf.name() == name || udf.aliases().contains(name))
+            {
+                self.inner.register_udf(built_in.as_ref().clone());
+            }
+        }
+    }
+
     // Taken from DF SessionState where's it's private
     pub fn resolve_table_ref(
         &self,
-- 
2.43.0


From 52d9a89fe194c59bdd35f9c859b07c9df228015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:30 +0000
Subject: [PATCH 51/57] fix: accept types of function arguments written with
 JSON escapes

---
 src/wasm_udf/data_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/data_types.rs b/src/wasm_udf/data_types.rs
index 1195771..47b9f25 100644
--- a/src/wasm_udf/data_types.rs
+++ b/src/wasm_udf/data_types.rs
@@ -103,8 +103,8 @@ impl<'de> Visitor<'de> for DataTypeVecDeserializer {
         A: SeqAccess<'de>,
     {
         let mut new_obj = Vec::with_capacity(seq.size_hint().unwrap_or_default());
-        while let Some(key) = seq.next_element()? as Option<&str> {
-            let parsed = parse_create_function_data_type(key);
+        while let Some(key) = seq.next_element()? as Option<String> {
+            let parsed = parse_create_function_data_type(&key);
             match parsed {
                 Ok(dt) => new_obj.push(dt),
                 Err(_) => return Err(A::Error::custom(format!("couldn't decode {key}"))),
-- 
2.43.0


From dea47d5ad8621ea623df39c44cc3b92fd7556679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:15 +0000
Subject: [PATCH 52/57] fix: refuse Flight commands of unsupported kinds or
 without a schema list instead of panicking

---
 src/frontend/flight/sql.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/frontend/flight/sql.rs b/src/frontend/flight/sql.rs
index 0ad0bd7..390f97f 100644
--- a/src/frontend/flight/sql.rs
+++ b/src/frontend/flight/sql.rs
@@ -112,12 +112,19 @@ impl FlightSqlService for SeafowlFlightHandler {
         request: Request<FlightDescriptor>,
     ) -> Result<Response<FlightInfo>, Status> {
         let inline_query: InlineMetastoreCommandStatementQuery = match cmd {
-            Command::Unknown(message) => Message::decode(&*message.value).map_err(|err| {
-                let err = format!("Couldn't decode command: {err}");
-                warn!(err);
-                Status::invalid_argument(err)
-            })?,
-            _ => unreachable!("The fallback method should only be called with `Command::Unknown` variant"),
+            Command::Unknown(message) => {
+                Message::decode(&*message.value).map_err(|err| {
+                    let err = format!("Couldn't decode command: {err}");
+                    warn!(err);
+                    Status::invalid_argument(err)
+                })?
+            }
+            cmd => {
+                return Err(Status::unimplemented(format!(
+                    "Getting flight info for {} is not supported",
+                    cmd.type_url()
+                )))
+            }
         };
 
         let query_id = Uuid::new_v4().to_string();
@@ -129,7 +136,9 @@ impl FlightSqlService for SeafowlFlightHandler {
         );
 
         let memory_store = MemoryStore {
-            schemas: inline_query.schemas.expect("Schema list provided"),
+            schemas: inline_query.schemas.ok_or_else(|| {
+                Status::invalid_argument("No schema list provided with the query")
+            })?,
         };
 
         let info = self
-- 
2.43.0


From 42dd79f1c7448b2dac72c683b1e9de21aaea37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:15 +0000
Subject: [PATCH 53/57] fix: keep the tables of an inline metastore out of the
 session shared with other queries

---
 src/context/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index d33854c..d6077b2 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -73,10 +73,17 @@ impl SeafowlContext {
         self.scope_to(self.default_catalog.clone(), schema)
     }
 
+    // Create a new `SeafowlContext` that resolves tables through a different metastore. It gets an inner
+    // context of its own, since the metastore's tables are registered there before each query.
     pub fn with_metastore(&self, metastore: Arc<Metastore>) -> Arc<SeafowlContext> {
+        let state = build_state_with_table_factories(
+            self.inner().copied_config(),
+            self.inner().runtime_env(),
+        );
+
         Arc::from(SeafowlContext {
             config: self.config.clone(),
-            inner: self.inner.clone(),
+            inner: SessionContext::new_with_state(state),
             metastore,
             internal_object_store: self.internal_object_store.clone(),
             default_catalog: self.default_catalog.clone(),
-- 
2.43.0


From c0763a69fe687198729f4d9b7de67f1707b01e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:45 +0000
Subject: [PATCH 54/57] fix: don't squash already squashed changes together
 with later ones

The rows of a squashed batch aren't a sequence of changes, so squashing it again
with new ones linked unrelated rows, losing changes.
---
 src/sync/writer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 2773149..84f8bba 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -232,17 +232,19 @@ impl SeafowlDataSyncWriter {
                 .and_modify(|entry| {
                     let prev_item = entry.syncs.last_mut().unwrap();
                     let (_, prev_rows) = get_size_and_rows(&prev_item.data);
-                    if prev_item.sync_schema.is_compatible_with(&sync_schema)
+                    // The rows of a squashed item aren't a sequence of changes anymore, so they can't
+                    // be squashed again together with the new ones
+                    if !prev_item.is_squashed
+                        && prev_item.sync_schema.is_compatible_with(&sync_schema)
                         && prev_rows + sync_rows <= MAX_ROWS_PER_SYNC
                     {
                         debug!("{}: Appending batch with schema {} to existing sync collection with {} row(s), schema {}", &url, sync_schema, prev_rows, prev_item.sync_schema);
                         // Just append to the last item if the sync schema matches and the row count
                         // is smaller than a predefined value
-                        prev_item.is_squashed = false;
                         prev_item.tx_ids.push(tx_id);
                         prev_item.data.extend(batches.clone());
                     } else {
-                        debug!("{}: Adding new sync item for batch with schema {} (incompatible schema or too many rows in old item)", &url, sync_schema);
+                        debug!("{}: Adding new sync item for batch with schema {} (incompatible schema, or too many rows in old item, or old item squashed)", &url, sync_schema);
                         entry.syncs.push(DataSyncItem {
                             is_squashed: false,
                             tx_ids: vec![tx_id],
-- 
2.43.0


From c6b4eca9360890cd5c4e1a19bac3d55655ad5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:08 +0000
Subject: [PATCH 55/57] fix: DROP TABLE IF EXISTS of an external table dropped
 nothing, and without IF EXISTS a missing one was no error

---
 src/context/physical.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 9a63286..06a6515 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -531,16 +531,21 @@ impl SeafowlContext {
                 if_exists,
                 schema: _,
             })) => {
-                if *if_exists && self.try_get_delta_table(name.clone()).await.is_err() {
-                    // The table doesn't exist
-                    return Ok(make_dummy_exec());
-                }
-
                 let resolved_ref = self.resolve_table_ref(name.clone());
 
                 if resolved_ref.schema.as_ref() == STAGING_SCHEMA {
                     // Dropping a staging table is a in-memory only op
-                    self.inner.deregister_table(resolved_ref)?;
+                    if self.inner.deregister_table(resolved_ref)?.is_none() && !*if_exists
+                    {
+                        return Err(DataFusionError::Plan(format!(
+                            "Table {name} doesn't exist"
+                        )));
+                    }
+                    return Ok(make_dummy_exec());
+                }
+
+                if *if_exists && self.try_get_delta_table(name.clone()).await.is_err() {
+                    // The table doesn't exist
                     return Ok(make_dummy_exec());
                 }
 
-- 
2.43.0


From 2e019dfb5021aff91d3c4963b33c1412a03d5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:56 +0000
Subject: [PATCH 56/57] fix: CONVERT of a location under a taken name changed
 the location, and of a converted one under another name did nothing but
 succeed

---
 src/context/delta.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index b4f8b3d..ffdfbbf 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -350,6 +350,16 @@ impl SeafowlContext {
                 let table_log_store =
                     internal_object_store.get_log_store(&table_uuid.to_string());
 
+                // Don't touch the location if the name belongs to another table
+                let registered = match self.get_table_uuid(resolved_ref.clone()).await {
+                    Ok(uuid) if uuid != table_uuid => {
+                        return Err(DataFusionError::Plan(format!(
+                            "Table {table_name:?} already exists"
+                        )))
+                    }
+                    r => r.is_ok(),
+                };
+
                 let table = match ConvertToDeltaBuilder::new()
                     .with_log_store(table_log_store.clone())
                     .with_table_name(&*table_name)
@@ -372,7 +382,12 @@ impl SeafowlContext {
                         let mut table =
                             DeltaTable::new(table_log_store, Default::default());
                         table.load().await?;
-                        // NB we're not registering it with the catalog, and presume that was already done
+                        // NB we're not registering it with the catalog, so that must have been done already
+                        if !registered {
+                            return Err(DataFusionError::Plan(format!(
+                                "Location {path} is already a Delta table, but not {table_name:?}"
+                            )));
+                        }
                         return Ok(Arc::new(table));
                     }
                     Err(err) => return Err(err.into()),
-- 
2.43.0


From b79467cd0f936f77c7740620295edaa4f9cc2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:41 +0000
Subject: [PATCH 57/57] fix: a refused upload left an empty table behind

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 06a6515..3650ff8 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1052,7 +1052,14 @@ impl SeafowlContext {
             .await?;
         }
 
-        self.plan_to_delta_table(table_ref, &plan).await
+        let result = self.plan_to_delta_table(table_ref.clone(), &plan).await;
+        if result.is_err() && !table_exists {
+            // Don't leave the empty table behind
+            self.drop_delta_table(table_ref.clone())
+                .await
+                .unwrap_or_else(|e| warn!("Failed to drop table {table_ref}: {e}"));
+        }
+        result
     }
 }
 
-- 
2.43.0

