From eb2ab032c536a2370a01b7af16c8a6c0fe98e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 01/69] fix: reset the syntax error state on every ParseString
 call

A parser kept its error listener between calls, so once a query had failed
every later query, valid or not, was rejected with the first error.
---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..2fad0c7 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -66,6 +66,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
 	tree := parser.parser.Parse()
-- 
2.43.0


From 80bf9cc9f2a146a14a2c08de9d6ea6640ca4fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 02/69] fix: drop the named column or index from a schema, not
 the first other one

---
 sql/query/schema.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..1ee5644 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -179,10 +179,9 @@ func (schema *schema) AddColumn(column Column) error {
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
 		if strings.EqualFold(column.Name(), name) {
-			continue
+			schema.columns = append(schema.columns[:n:n], schema.columns[n+1:]...)
+			return nil
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
-		return nil
 	}
 	return newErrColumnNotFound(name)
 }
@@ -197,10 +196,9 @@ func (schema *schema) AddIndex(index Index) error {
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
 		if strings.EqualFold(index.Name(), name) {
-			continue
+			schema.indexes = append(schema.indexes[:n:n], schema.indexes[n+1:]...)
+			return nil
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
-		return nil
 	}
 	return newErrIndexNotFound(name)
 }
-- 
2.43.0


From 65176025559227bf19fc739365f59c5750923fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 03/69] fix: ALTER TABLE DROP COLUMN takes the column name, not
 the whole clause text

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..a47f2a6 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -217,7 +217,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithName(strings.UnEscapeNameString(ctx.Column_name().GetText()))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From de0e66113eb9952b7c2b9d54c5d5298afa339e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:02 +0000
Subject: [PATCH 04/69] fix: report unsupported clauses as errors instead of
 panicking

INSERT ... DEFAULT VALUES, INSERT ... SELECT, UPDATE ... SET (a,b) = (...),
expressions in CREATE INDEX and in PRIMARY KEY (...) dereferenced nil parse
nodes, and CREATE TABLE ... AS SELECT produced an empty table definition.
---
 sql/parser/sqlite/parser_antlr.go         |  10 ++-
 sql/parser/sqlite/parser_antlr_visitor.go | 105 +++++++++++++++-------
 2 files changed, 77 insertions(+), 38 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 2fad0c7..ca7c79d 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -75,12 +75,14 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())
 	}
 
-	v := tree.Accept(newANTLRVisitor())
-	stmtList, ok := v.(query.StatementList)
-	if !ok {
+	switch v := tree.Accept(newANTLRVisitor()).(type) {
+	case query.StatementList:
+		parser.stmts = v
+	case error:
+		return nil, fmt.Errorf("%s (%w)", queryString, v)
+	default:
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
 	}
-	parser.stmts = stmtList
 
 	return parser.stmts, nil
 }
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a47f2a6..ad18390 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -15,6 +15,9 @@
 package sqlite
 
 import (
+	"fmt"
+
+	go_antlr "github.com/antlr4-go/antlr/v4"
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
@@ -35,27 +38,38 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
-	return newStatementListWith(ctx.AllSql_stmt_list())
+	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	if err != nil {
+		return err
+	}
+	return stmtList
+}
+
+func newErrNotSupportedClause(ctx go_antlr.ParserRuleContext) error {
+	return fmt.Errorf("%s is %w", ctx.GetText(), query.ErrNotSupported)
 }
 
-func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.StatementList {
+func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
 		for _, sqlStmt := range ctx.AllSql_stmt() {
-			stmt := newStatementWith(sqlStmt)
+			stmt, err := newStatementWith(sqlStmt)
+			if err != nil {
+				return nil, err
+			}
 			if stmt == nil {
 				continue
 			}
 			stmtList = append(stmtList, stmt)
 		}
 	}
-	return stmtList
+	return stmtList, nil
 }
 
-func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
+func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 	// DDL (Data Definition Language) - CREATE
 	if stmt := ctx.Create_database_stmt(); stmt != nil {
-		return newCreateDatabaseWith(stmt)
+		return newCreateDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Create_table_stmt(); stmt != nil {
 		return newCreateTableWith(stmt)
@@ -65,20 +79,20 @@ func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
 	}
 	// DDL (Data Definition Language) - DROP
 	if stmt := ctx.Drop_database_stmt(); stmt != nil {
-		return newDropDatabaseWith(stmt)
+		return newDropDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Drop_table_stmt(); stmt != nil {
-		return newDropTableWith(stmt)
+		return newDropTableWith(stmt), nil
 	}
 	if stmt := ctx.Drop_index_stmt(); stmt != nil {
-		return newDropIndexWith(stmt)
+		return newDropIndexWith(stmt), nil
 	}
 	// DDL (Data Definition Language) - ALTER
 	if stmt := ctx.Alter_database_stmt(); stmt != nil {
-		return newAlterDatabaseWith(stmt)
+		return newAlterDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Alter_table_stmt(); stmt != nil {
-		return newAlterTableWith(stmt)
+		return newAlterTableWith(stmt), nil
 	}
 	// DML (Data Manipulation Language)
 	if stmt := ctx.Insert_stmt(); stmt != nil {
@@ -88,38 +102,38 @@ func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
 		return newUpdateWith(stmt)
 	}
 	if stmt := ctx.Select_stmt(); stmt != nil {
-		return newSelectWith(stmt)
+		return newSelectWith(stmt), nil
 	}
 	if stmt := ctx.Delete_stmt(); stmt != nil {
-		return newDeleteWith(stmt)
+		return newDeleteWith(stmt), nil
 	}
 	if stmt := ctx.Commit_stmt(); stmt != nil {
-		return query.NewCommit()
+		return query.NewCommit(), nil
 	}
 	// Transaction statements
 	if stmt := ctx.Begin_stmt(); stmt != nil {
-		return newBeginWith(stmt)
+		return newBeginWith(stmt), nil
 	}
 	if stmt := ctx.Rollback_stmt(); stmt != nil {
-		return newRollbackWith(stmt)
+		return newRollbackWith(stmt), nil
 	}
 	if stmt := ctx.Commit_stmt(); stmt != nil {
-		return newCommitWith(stmt)
+		return newCommitWith(stmt), nil
 	}
 	// Extra statements
 	if stmt := ctx.Use_stmt(); stmt != nil {
-		return newUseWith(stmt)
+		return newUseWith(stmt), nil
 	}
 	if stmt := ctx.Copy_stmt(); stmt != nil {
-		return newCopyWith(stmt)
+		return newCopyWith(stmt), nil
 	}
 	if stmt := ctx.Truncate_stmt(); stmt != nil {
-		return newTruncateWith(stmt)
+		return newTruncateWith(stmt), nil
 	}
 	if stmt := ctx.Vacuum_stmt(); stmt != nil {
-		return newVacuumWith(stmt)
+		return newVacuumWith(stmt), nil
 	}
-	return nil
+	return nil, nil //nolint:nilnil
 }
 
 func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateDatabase {
@@ -131,20 +145,31 @@ func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateD
 	return query.NewCreateDatabaseWith(dbName, ifNotExists)
 }
 
-func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) query.CreateTable {
+func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) (query.Statement, error) {
 	ifNotExists := query.NewIfNotExistsWith(false)
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateTableWith(newTableSchemaWith(ctx), ifNotExists)
+	if ctx.Select_stmt() != nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
+	schema, err := newTableSchemaWith(ctx)
+	if err != nil {
+		return nil, err
+	}
+	return query.NewCreateTableWith(schema, ifNotExists), nil
 }
 
-func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
+func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) (query.Statement, error) {
 	ifNotExists := query.NewIfNotExistsWith(false)
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateIndexWith(newIndexSchemaWith(ctx), ifNotExists)
+	schema, err := newIndexSchemaWith(ctx)
+	if err != nil {
+		return nil, err
+	}
+	return query.NewCreateIndexWith(schema, ifNotExists), nil
 }
 
 func newDropDatabaseWith(ctx antlr.IDrop_database_stmtContext) query.DropDatabase {
@@ -244,7 +269,7 @@ func newAddIndexSchemaWith(ctx antlr.IAdd_table_indexContext) query.Index {
 	return query.NewIndexWith(indexName, indexType, columns)
 }
 
-func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
+func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, error) {
 	indexDefs := func(ctx antlr.IColumn_defContext) []string {
 		typNames := []string{
 			strings.UnEscapeNameString(ctx.Column_name().GetText()),
@@ -327,6 +352,9 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
 			indexColums := query.NewColumns()
 			for _, columDef := range primaryDef.AllIndexed_column() {
+				if columDef.Column_name() == nil {
+					return nil, newErrNotSupportedClause(columDef)
+				}
 				column := newIndexedColumnWith(columDef)
 				indexColums = append(indexColums, column)
 			}
@@ -334,22 +362,25 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		}
 	}
 	// Return schema.
-	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes))
+	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
 }
 
-func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
+func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) (query.Schema, error) {
 	idxName := strings.UnEscapeNameString(ctx.Index_name().GetText())
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 	indexColumns := query.NewColumns()
 	for _, columDef := range ctx.AllIndexed_column() {
+		if columDef.Column_name() == nil {
+			return nil, newErrNotSupportedClause(columDef)
+		}
 		columDef := strings.UnEscapeNameString(columDef.Column_name().GetText())
 		indexColumn := query.NewColumnWithName(columDef)
 		indexColumns = append(indexColumns, indexColumn)
 	}
 	indexes = append(indexes, query.NewSecondaryIndexWith(idxName, indexColumns))
-	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes))
+	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
 }
 
 func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
@@ -420,13 +451,16 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 	return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(t))
 }
 
-func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
+func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	tbl := query.NewTableWith(tblName)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
 	}
+	if ctx.Values_clause() == nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	values := []query.Columns{}
 	for _, row := range ctx.Values_clause().AllValue_row() {
 		columns := query.NewColumns()
@@ -454,13 +488,16 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 		}
 		values = append(values, columns)
 	}
-	return query.NewInsertWith(tbl, values)
+	return query.NewInsertWith(tbl, values), nil
 }
 
-func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
+func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
+		if set.Column_name() == nil {
+			return nil, newErrNotSupportedClause(set)
+		}
 		name := set.Column_name().GetText()
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
@@ -486,7 +523,7 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
 	}
-	return query.NewUpdateWith(tbl, columns, where)
+	return query.NewUpdateWith(tbl, columns, where), nil
 }
 
 func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
-- 
2.43.0


From 7335fae07d5e0b7d833806347578d97c024557ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:27 +0000
Subject: [PATCH 05/69] fix: keep WHERE conditions that have no dedicated
 expression type

LIKE, IN, BETWEEN, IS NULL, ==, parenthesised and other conditions were
dropped silently, so a DELETE, UPDATE or SELECT with such a condition was
returned as one without any condition. Keep their source text instead.
---
 sql/parser/sqlite/parser_antlr_visitor.go |  8 +++++-
 sql/query/expr_raw.go                     | 31 +++++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)
 create mode 100644 sql/query/expr_raw.go

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index ad18390..173e0e0 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -738,7 +738,13 @@ func newExprWith(ctx antlr.IExprContext) query.Expr {
 		return newCmpExpr(cmpExpr)
 	}
 
-	return nil
+	return query.NewRawExprWith(newSourceTextWith(ctx))
+}
+
+// newSourceTextWith returns the source text of the specified context.
+func newSourceTextWith(ctx go_antlr.ParserRuleContext) string {
+	start, stop := ctx.GetStart(), ctx.GetStop()
+	return start.GetInputStream().GetText(start.GetStart(), stop.GetStop())
 }
 
 func newUseWith(ctx antlr.IUse_stmtContext) query.Use {
diff --git a/sql/query/expr_raw.go b/sql/query/expr_raw.go
new file mode 100644
index 0000000..a5571ec
--- /dev/null
+++ b/sql/query/expr_raw.go
@@ -0,0 +1,31 @@
+// Copyright (C) 2025 The go-sqlparser Authors All rights reserved.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package query
+
+// RawExpr represents an expression which is not modeled by the other expression types.
+// It keeps the source text of the expression so that a condition is never lost.
+type RawExpr struct {
+	text string
+}
+
+// NewRawExprWith returns a new RawExpr instance with the specified source text.
+func NewRawExprWith(text string) *RawExpr {
+	return &RawExpr{text: text}
+}
+
+// String returns the source text of the expression.
+func (expr *RawExpr) String() string {
+	return expr.text
+}
-- 
2.43.0


From 6f3b18b2b35d666e290a4c27cf1e8e86163d5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 06/69] fix: escape and unescape quotes in string literals

Literal text lost every leading and trailing quote character, kept doubled
quotes in its value, and was printed without doubling them again.
---
 sql/util/strings/strings.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..8104f5e 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -29,14 +29,22 @@ func JoinWithComma(elems []string) string {
 	return strings.Join(elems, ", ")
 }
 
-// UnEscapeString returns an unescaped string.
+// UnEscapeString returns an unescaped string. It removes the enclosing quotes and restores the doubled quotes.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	l := len(s)
+	if l < 2 || s[0] != s[l-1] {
+		return s
+	}
+	quote := s[:1]
+	if quote != "'" && quote != "\"" {
+		return s
+	}
+	return strings.ReplaceAll(s[1:l-1], quote+quote, quote)
 }
 
-// EscapeString returns an escaped string.
+// EscapeString returns an escaped string. It doubles the single quotes and encloses the string in single quotes.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From 2ef95a3164cfb19904fc586b281b3e8ff4758620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:16 +0000
Subject: [PATCH 07/69] fix: bind parameters as values

Parameter text was pasted into the query with no escaping, and placeholders
were found by substring search: quotes in a value changed the statement, a '?'
or $n inside a literal, a comment or an already bound value was replaced,
$1 matched the head of $10, a repeated $1 was bound once, and nil and byte
slices became bare words.
---
 sql/stmt/bind_impl.go       | 102 +++++++++++++++++++++++++++++++-----
 sql/stmt/bind_param_impl.go |   7 ++-
 2 files changed, 94 insertions(+), 15 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..55ddf5e 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,14 +16,15 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
 )
 
 const (
-	stdPlaceholder      = "?"
-	pgPlaceholderFormat = "$%d"
+	stdPlaceholder = '?'
+	pgPlaceholder  = '$'
 )
 
 type bindStmt struct {
@@ -62,26 +63,99 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 
 // Statement returns the statement with the bound parameters.
 func (stmt *bindStmt) Statements() ([]Statement, error) {
-	q := stmt.query
+	q, err := stmt.bind()
+	if err != nil {
+		return nil, err
+	}
+	stmts, err := sql.NewParser().ParseString(q)
+	if err != nil {
+		return nil, err
+	}
+	return stmts, nil
+}
+
+// bind returns the query whose placeholders are replaced with the parameters.
+// Placeholders in quoted texts and comments, and in the replaced parameters are not replaced.
+func (stmt *bindStmt) bind() (string, error) {
+	values := make([]string, len(stmt.params))
 	for n, param := range stmt.params {
 		s, err := param.String()
 		if err != nil {
-			return nil, err
+			return "", err
 		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
+		values[n] = s
+	}
+
+	q := stmt.query
+	isBound := make([]bool, len(values))
+	nextStd := 0
+	var bound strings.Builder
+	for pos := 0; pos < len(q); {
+		if end := skipQuotedText(q, pos); pos < end {
+			bound.WriteString(q[pos:end])
+			pos = end
 			continue
 		}
-		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
+		end := pos + 1
+		param := -1
+		switch q[pos] {
+		case stdPlaceholder, pgPlaceholder:
+			for end < len(q) && '0' <= q[end] && q[end] <= '9' {
+				end++
+			}
+			switch {
+			case (pos + 1) < end:
+				if n, err := strconv.Atoi(q[pos+1 : end]); err == nil {
+					param = n - 1
+				}
+			case q[pos] == stdPlaceholder:
+				param = nextStd
+				nextStd++
+			}
+		}
+		if param < 0 || len(values) <= param {
+			bound.WriteString(q[pos:end])
+			pos = end
 			continue
 		}
-		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
+		if 0 < pos && q[pos-1] == '-' {
+			// A negative number just after a minus sign must not be a comment.
+			bound.WriteByte(' ')
+		}
+		bound.WriteString(values[param])
+		isBound[param] = true
+		pos = end
 	}
-	stmts, err := sql.NewParser().ParseString(q)
-	if err != nil {
-		return nil, err
+
+	for n, ok := range isBound {
+		if !ok {
+			return "", fmt.Errorf("placeholder (%c/%c%d) %w: %s", stdPlaceholder, pgPlaceholder, n+1, ErrNotFound, values[n])
+		}
 	}
-	return stmts, nil
+
+	return bound.String(), nil
+}
+
+// skipQuotedText returns the end position of the quoted text or comment at the specified position.
+// It returns the specified position when there is no quoted text or comment.
+func skipQuotedText(q string, pos int) int {
+	var opener, closer string
+	switch {
+	case q[pos] == '\'' || q[pos] == '"' || q[pos] == '`':
+		opener, closer = q[pos:pos+1], q[pos:pos+1]
+	case q[pos] == '[':
+		opener, closer = "[", "]"
+	case strings.HasPrefix(q[pos:], "--"):
+		opener, closer = "--", "\n"
+	case strings.HasPrefix(q[pos:], "/*"):
+		opener, closer = "/*", "*/"
+	default:
+		return pos
+	}
+	start := pos + len(opener)
+	n := strings.Index(q[start:], closer)
+	if n < 0 {
+		return len(q)
+	}
+	return start + n + len(closer)
 }
diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..8179a3e 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -33,8 +34,12 @@ func NewBindParam(v any) BindParam {
 // String returns the string representation of the bind parameter.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
+	case nil:
+		return "NULL", nil
 	case string:
-		return "'" + v + "'", nil
+		return strings.EscapeString(v), nil
+	case []byte:
+		return strings.EscapeString(string(v)), nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
-- 
2.43.0


From 976e72befaeb493650486ced41d6c3577b04de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:17 +0000
Subject: [PATCH 08/69] fix: keep ORDER BY terms without ASC or DESC, which
 sort in ascending order

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 173e0e0..7adf3ea 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -567,13 +567,10 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-				if orderType.IsNone() {
-					continue
-				}
 				orders = append(orders, query.NewOrderWith(orderColumn, orderType))
 			}
 			if 0 < len(orders) {
-- 
2.43.0


From 69214f12315f28eaca9e33cb61f66dbc654eb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 09/69] fix: LIMIT x, y is an offset followed by a limit

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 7adf3ea..cf330d8 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -581,6 +581,10 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 
 	if ctx := ctx.Limit_stmt(); ctx != nil {
 		limits := ctx.AllExpr()
+		if ctx.COMMA() != nil && len(limits) == 2 {
+			// LIMIT offset, limit
+			limits[0], limits[1] = limits[1], limits[0]
+		}
 		if 0 < len(limits) {
 			var limit uint
 			err := safecast.ToUint(limits[0].GetText(), &limit)
-- 
2.43.0


From 3be1f2aa98be30a3607bdc6366164a2726b0d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:18 +0000
Subject: [PATCH 10/69] fix: print GROUP BY before ORDER BY and LIMIT in SELECT
 statements

---
 sql/query/select.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 04e2f67..4708e57 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -137,6 +137,10 @@ func (stmt *selectStmt) String() string {
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
 	}
+	groupBy := stmt.groupBy.String()
+	if 0 < len(groupBy) {
+		strs = append(strs, groupBy)
+	}
 	orderBy := stmt.orderBy.String()
 	if 0 < len(orderBy) {
 		strs = append(strs, orderBy)
@@ -145,9 +149,5 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(limit) {
 		strs = append(strs, limit)
 	}
-	groupBy := stmt.groupBy.String()
-	if 0 < len(groupBy) {
-		strs = append(strs, groupBy)
-	}
 	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From e3e270a68a929bd85e438a65c05bf4a9252e2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:27 +0000
Subject: [PATCH 11/69] fix: do not glue table and column aliases to the names

'FROM t AS x' selected from table tASx, 'DELETE FROM t AS x' deleted from it,
and 'SELECT a AS b' selected column aASb.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index cf330d8..f666662 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -207,6 +207,15 @@ func newDropIndexWith(ctx antlr.IDrop_index_stmtContext) query.DropIndex {
 	return query.NewDropIndexWith(schemaName, idxName, ifExists)
 }
 
+// newTableNameWith returns the table name qualified by the schema name.
+func newTableNameWith(schema antlr.ISchema_nameContext, table antlr.ITable_nameContext) string {
+	name := table.GetText()
+	if schema != nil {
+		name = schema.GetText() + query.TableNameSep + name
+	}
+	return name
+}
+
 func newAlterDatabaseWith(ctx antlr.IAlter_database_stmtContext) query.AlterDatabase {
 	dbName := ctx.Database_name().GetText()
 	toDBName := ""
@@ -492,7 +501,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()))
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
 		if set.Column_name() == nil {
@@ -545,7 +554,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 				if schema := tbl.Schema_name(); schema != nil {
 					ops = append(ops, query.WithTableSchema(schema.GetText()))
 				}
-				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+				tbls = append(tbls, query.NewTableWith(newTableNameWith(tbl.Schema_name(), tbl.Table_name()), ops...))
 			}
 		}
 		if w := parentQuery.GetWhereExpr(); w != nil {
@@ -623,11 +632,15 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 			), nil
 		}
 	}
-	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
+	if expr != nil {
+		// The column alias is not a part of the column name.
+		return query.NewColumnWithName(expr.GetText()), nil
+	}
+	return query.NewColumnWithName(ctx.GetText()), nil
 }
 
 func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()))
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
@@ -649,7 +662,7 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 		opts = append(opts, query.WithCopyFormat(fmt))
 	}
 	return query.NewCopyWith(
-		strings.UnEscapeString(ctx.GetTable().GetText()),
+		strings.UnEscapeString(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name())),
 		strings.UnEscapeString(ctx.Source_name().GetText()),
 		opts...,
 	)
-- 
2.43.0


From 2a28c1743a48380749db96f51004643a067f2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:35 +0000
Subject: [PATCH 12/69] fix: unquote names in every statement

CREATE TABLE removed the quotes of names while INSERT, UPDATE, DELETE, SELECT,
WHERE, ORDER BY, GROUP BY, ALTER, TRUNCATE, USE and the database statements
kept them, so a quoted column was never found in its schema. Double quoted
identifiers are unquoted as well.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 58 +++++++++++++----------
 sql/util/strings/strings.go               |  2 +-
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index f666662..28a9189 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -137,7 +137,7 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 }
 
 func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateDatabase {
-	dbName := ctx.Database_name().GetText()
+	dbName := strings.UnEscapeNameString(ctx.Database_name().GetText())
 	ifNotExists := query.NewIfNotExistsWith(false)
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
@@ -173,7 +173,7 @@ func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) (query.Statement, e
 }
 
 func newDropDatabaseWith(ctx antlr.IDrop_database_stmtContext) query.DropDatabase {
-	dbName := ctx.Database_name().GetText()
+	dbName := strings.UnEscapeNameString(ctx.Database_name().GetText())
 	ifExists := query.NewIfExistsWith(false)
 	if ctx.If_exists() != nil {
 		ifExists = query.NewIfExistsWith(true)
@@ -209,18 +209,26 @@ func newDropIndexWith(ctx antlr.IDrop_index_stmtContext) query.DropIndex {
 
 // newTableNameWith returns the table name qualified by the schema name.
 func newTableNameWith(schema antlr.ISchema_nameContext, table antlr.ITable_nameContext) string {
-	name := table.GetText()
+	name := strings.UnEscapeNameString(table.GetText())
 	if schema != nil {
-		name = schema.GetText() + query.TableNameSep + name
+		name = strings.UnEscapeNameString(schema.GetText()) + query.TableNameSep + name
 	}
 	return name
 }
 
+// newColumnNameWith returns the text of the specified expression, which is unescaped if it is a column name.
+func newColumnNameWith(expr antlr.IExprContext) string {
+	if expr.Column_name() != nil && expr.Table_name() == nil {
+		return strings.UnEscapeNameString(expr.GetText())
+	}
+	return expr.GetText()
+}
+
 func newAlterDatabaseWith(ctx antlr.IAlter_database_stmtContext) query.AlterDatabase {
-	dbName := ctx.Database_name().GetText()
+	dbName := strings.UnEscapeNameString(ctx.Database_name().GetText())
 	toDBName := ""
 	if ctx := ctx.Rename_database_to(); ctx != nil {
-		toDBName = ctx.GetNew_database_name().GetText()
+		toDBName = strings.UnEscapeNameString(ctx.GetNew_database_name().GetText())
 	}
 	return query.NewAlterDatabaseWith(dbName, toDBName)
 }
@@ -236,8 +244,8 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableRenameTo(query.NewTableWith(tblName)))
 	}
 	if ctx := ctx.Rename_table_colum(); ctx != nil {
-		fromColumn := query.NewColumnWithName(ctx.GetOld_column_name().GetText())
-		toColumn := query.NewColumnWithName(ctx.GetNew_column_name().GetText())
+		fromColumn := query.NewColumnWithName(strings.UnEscapeNameString(ctx.GetOld_column_name().GetText()))
+		toColumn := query.NewColumnWithName(strings.UnEscapeNameString(ctx.GetNew_column_name().GetText()))
 		opts = append(opts, query.WithAlterTableRenameColumn(fromColumn, toColumn))
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
@@ -254,7 +262,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		column := query.NewColumnWithName(strings.UnEscapeNameString(ctx.Column_name().GetText()))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
-	tblName := ctx.GetTarget_table_name().GetText()
+	tblName := strings.UnEscapeNameString(ctx.GetTarget_table_name().GetText())
 	return query.NewAlterTableWith(tblName, opts...)
 }
 
@@ -465,7 +473,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 	tbl := query.NewTableWith(tblName)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
-		names = append(names, name.GetText())
+		names = append(names, strings.UnEscapeNameString(name.GetText()))
 	}
 	if ctx.Values_clause() == nil {
 		return nil, newErrNotSupportedClause(ctx)
@@ -477,7 +485,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 		for _, expr := range row.AllExpr() {
 			if v := expr.Comparison_expr(); v != nil {
 				columns = append(columns,
-					query.NewColumnWithOptions(query.WithColumnName(v.Column_name().GetText()),
+					query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(v.Column_name().GetText())),
 						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
 			} else if v := expr.Literal_value(); v != nil {
 				if valueIdx < len(names) {
@@ -507,7 +515,7 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 		if set.Column_name() == nil {
 			return nil, newErrNotSupportedClause(set)
 		}
-		name := set.Column_name().GetText()
+		name := strings.UnEscapeNameString(set.Column_name().GetText())
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
 		}
@@ -518,8 +526,8 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 		} else if v := set.Expr().Arithmetic_expr(); v != nil {
 			ope := v.GetOpe().GetText()
 			args := []string{
-				v.Column_name().GetText(),
-				v.Expr().GetText(),
+				strings.UnEscapeNameString(v.Column_name().GetText()),
+				newColumnNameWith(v.Expr()),
 			}
 			if executor, _ := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args)); executor != nil {
 				opts = append(opts, query.WithColumnFunctionExecutor(executor))
@@ -552,7 +560,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			if tbl := from.From_table(); tbl != nil {
 				ops := []query.TableOption{}
 				if schema := tbl.Schema_name(); schema != nil {
-					ops = append(ops, query.WithTableSchema(schema.GetText()))
+					ops = append(ops, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
 				}
 				tbls = append(tbls, query.NewTableWith(newTableNameWith(tbl.Schema_name(), tbl.Table_name()), ops...))
 			}
@@ -562,7 +570,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		}
 		groupBy := parentQuery.GetGroupByExpr()
 		if 0 < len(groupBy) {
-			opts = append(opts, query.WithSelectGroupBy(groupBy[0].GetText()))
+			opts = append(opts, query.WithSelectGroupBy(newColumnNameWith(groupBy[0])))
 		}
 	}
 	where := query.NewCondition()
@@ -575,7 +583,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		if 0 < len(orderBy) {
 			orders := []query.Order{}
 			for _, order := range orderBy {
-				orderColumn := order.Expr().GetText()
+				orderColumn := newColumnNameWith(order.Expr())
 				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
@@ -623,7 +631,7 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 				args = append(args, fn.NewArgumentWith(star.GetText()))
 			} else {
 				for _, arg := range fx.AllExpr() {
-					args = append(args, fn.NewArgumentWith(arg.GetText()))
+					args = append(args, fn.NewArgumentWith(newColumnNameWith(arg)))
 				}
 			}
 			return fn.NewFunction(
@@ -634,7 +642,7 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	}
 	if expr != nil {
 		// The column alias is not a part of the column name.
-		return query.NewColumnWithName(expr.GetText()), nil
+		return query.NewColumnWithName(newColumnNameWith(expr)), nil
 	}
 	return query.NewColumnWithName(ctx.GetText()), nil
 }
@@ -653,7 +661,7 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 	if ctx := ctx.Copy_column_list(); ctx != nil {
 		columns := query.NewColumns()
 		for _, column := range ctx.AllColumn_name() {
-			columns = append(columns, query.NewColumnWithName(strings.UnEscapeString(column.GetText())))
+			columns = append(columns, query.NewColumnWithName(strings.UnEscapeNameString(column.GetText())))
 		}
 		opts = append(opts, query.WithCopyColumns(columns...))
 	}
@@ -662,7 +670,7 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 		opts = append(opts, query.WithCopyFormat(fmt))
 	}
 	return query.NewCopyWith(
-		strings.UnEscapeString(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name())),
+		newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()),
 		strings.UnEscapeString(ctx.Source_name().GetText()),
 		opts...,
 	)
@@ -671,14 +679,14 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 func newTruncateWith(ctx antlr.ITruncate_stmtContext) query.Truncate {
 	tbls := query.NewTables()
 	for _, table := range ctx.AllTable_name() {
-		tbls = append(tbls, query.NewTableWith(table.GetText()))
+		tbls = append(tbls, query.NewTableWith(strings.UnEscapeNameString(table.GetText())))
 	}
 	return query.NewTruncateWith(tbls)
 }
 
 func newVacuumWith(ctx antlr.IVacuum_stmtContext) query.Vacuum {
 	if schema, ok := ctx.Schema_name().(*antlr.Schema_nameContext); ok {
-		return query.NewVacuumWith(query.NewTableWith(schema.GetText()))
+		return query.NewVacuumWith(query.NewTableWith(strings.UnEscapeNameString(schema.GetText())))
 	}
 	return query.NewVacuum()
 }
@@ -715,7 +723,7 @@ func newBindParamWith(ctx antlr.IBind_paramContext) *query.Literal {
 
 func newExprWith(ctx antlr.IExprContext) query.Expr {
 	newCmpExpr := func(cmpExpr antlr.IComparison_exprContext) query.Expr {
-		c := query.NewColumnWithName(cmpExpr.Column_name().GetText())
+		c := query.NewColumnWithName(strings.UnEscapeNameString(cmpExpr.Column_name().GetText()))
 		l := newLiteralValueWith(cmpExpr.Literal_value())
 		if cmpExpr.ASSIGN() != nil {
 			return query.NewCmpExprWith(query.EQ, c, l)
@@ -762,5 +770,5 @@ func newSourceTextWith(ctx go_antlr.ParserRuleContext) string {
 }
 
 func newUseWith(ctx antlr.IUse_stmtContext) query.Use {
-	return query.NewUseWith(ctx.Database_name().GetText())
+	return query.NewUseWith(strings.UnEscapeNameString(ctx.Database_name().GetText()))
 }
diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index 8104f5e..bfb5f89 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -59,7 +59,7 @@ func EqualFold(s, t string) bool {
 
 // UnEscapeNameString returns an unescaped column name string.
 func UnEscapeNameString(s string) string {
-	return strings.Trim(s, "'`()")
+	return strings.Trim(s, "'\"`()")
 }
 
 // EscapeNameString returns an escaped column name string.
-- 
2.43.0


From 7ccbf00689d2f5f3d95af6fd00be863cf3245a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:35 +0000
Subject: [PATCH 13/69] fix: keep the schema qualifier of table names in CREATE
 TABLE, DROP TABLE and INSERT

The qualifier was dropped, so the statement addressed a table of another
schema than the one SELECT, UPDATE and DELETE address by the same name.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 28a9189..6af1589 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -187,8 +187,11 @@ func newDropTableWith(ctx antlr.IDrop_table_stmtContext) query.DropTable {
 		ifExists = query.NewIfExistsWith(true)
 	}
 	tbls := query.NewTables()
-	for _, tbl := range ctx.AllTable_name() {
+	for n, tbl := range ctx.AllTable_name() {
 		tblName := strings.UnEscapeNameString(tbl.GetText())
+		if n == 0 {
+			tblName = newTableNameWith(ctx.Schema_name(), tbl)
+		}
 		tbls = append(tbls, query.NewTableWith(tblName))
 	}
 	return query.NewDropTableWith(tbls, ifExists)
@@ -332,7 +335,7 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 		return "", nil, false
 	}
 
-	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
+	tblName := newTableNameWith(ctx.Schema_name(), ctx.Table_name())
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 
@@ -469,7 +472,7 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 }
 
 func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
-	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
+	tblName := newTableNameWith(ctx.Schema_name(), ctx.Table_name())
 	tbl := query.NewTableWith(tblName)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
-- 
2.43.0


From 4f5b673b7b3864028416945d2df6933a332f127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:38 +0000
Subject: [PATCH 14/69] fix: keep every INSERT value in its column

Values without a column list and surplus values were dropped, and a value
that is neither a literal nor a parameter was skipped, which moved the values
after it to the wrong columns. Keep unnamed values, and report the values and
rows that cannot be represented.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 35 ++++++++++++-----------
 sql/query/insert.go                       | 16 +++++++++--
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6af1589..12cb967 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -19,6 +19,7 @@ import (
 
 	go_antlr "github.com/antlr4-go/antlr/v4"
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/errors"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
 	"github.com/cybergarage/go-sqlparser/sql/query"
@@ -484,27 +485,27 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 	values := []query.Columns{}
 	for _, row := range ctx.Values_clause().AllValue_row() {
 		columns := query.NewColumns()
-		valueIdx := 0
-		for _, expr := range row.AllExpr() {
+		for n, expr := range row.AllExpr() {
+			name := ""
+			if n < len(names) {
+				name = names[n]
+			}
+			var lit *query.Literal
 			if v := expr.Comparison_expr(); v != nil {
-				columns = append(columns,
-					query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(v.Column_name().GetText())),
-						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
+				name = strings.UnEscapeNameString(v.Column_name().GetText())
+				lit = newLiteralValueWith(v.Literal_value())
 			} else if v := expr.Literal_value(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newLiteralValueWith(v))))
-					valueIdx++
-				}
+				lit = newLiteralValueWith(v)
 			} else if v := expr.Bind_param(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newBindParamWith(v))))
-					valueIdx++
-				}
+				lit = newBindParamWith(v)
+			} else {
+				return nil, newErrNotSupportedClause(expr)
 			}
+			columns = append(columns,
+				query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnLiteral(lit)))
+		}
+		if 0 < len(names) && len(columns) != len(names) {
+			return nil, errors.NewErrColumnsNotEqual(len(columns), len(names))
 		}
 		values = append(values, columns)
 	}
diff --git a/sql/query/insert.go b/sql/query/insert.go
index 5a1d34e..1643200 100644
--- a/sql/query/insert.go
+++ b/sql/query/insert.go
@@ -62,6 +62,16 @@ func (stmt *insertStmt) Values() []Columns {
 	return stmt.values
 }
 
+// hasColumnNames returns true whether the statement has the column name list.
+func (stmt *insertStmt) hasColumnNames() bool {
+	for _, col := range stmt.Columns() {
+		if len(col.Name()) == 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // String returns the statement string representation.
 func (stmt *insertStmt) String() string {
 	strs := make([]string, 0, 6)
@@ -69,9 +79,11 @@ func (stmt *insertStmt) String() string {
 		"INSERT",
 		"INTO",
 		stmt.FullTableName(),
-		"("+stmt.Columns().NameString()+")",
-		"VALUES",
 	)
+	if stmt.hasColumnNames() {
+		strs = append(strs, "("+stmt.Columns().NameString()+")")
+	}
+	strs = append(strs, "VALUES")
 	values := stmt.Values()
 	valuesStrs := make([]string, 0, len(values))
 	for _, values := range values {
-- 
2.43.0


From c82fca4f43bfca31dad41d23b530afebaff96f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:39 +0000
Subject: [PATCH 15/69] fix: report UPDATE assignments that cannot be
 represented instead of losing the value

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 12cb967..894b2f9 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -537,6 +537,8 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 				opts = append(opts, query.WithColumnFunctionExecutor(executor))
 				opts = append(opts, query.WithColumnArguments(args))
 			}
+		} else {
+			return nil, newErrNotSupportedClause(set)
 		}
 		columns = append(columns, query.NewColumnWithOptions(opts...))
 	}
-- 
2.43.0


From 0b9317120649285565a3e877f11e4680650a37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:08 +0000
Subject: [PATCH 16/69] fix: columns without a definition or a value do not
 panic

DataType, DataTypeSize, Constraint, Value, ValueType and SetValue dereferenced
nil for a column that only has a name, which is what the parser returns for
selectors, WHERE operands, index columns and dropped or renamed columns.
---
 sql/query/column.go  | 27 +++++++++++++++++++++++++++
 sql/query/literal.go |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..d90daff 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -176,6 +176,9 @@ func (col *column) IsName(name string) bool {
 
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
+	if col.Literal == nil {
+		col.Literal = NewLiteral()
+	}
 	col.Literal.SetValue(v)
 	return col.SetDefinition(col.ColumnDef)
 }
@@ -262,6 +265,30 @@ func (col *column) Definition() ColumnDef {
 	return col.ColumnDef
 }
 
+// Constraint returns the column constrains.
+func (col *column) Constraint() Constraint {
+	if col.ColumnDef == nil {
+		return ConstraintNone
+	}
+	return col.ColumnDef.Constraint()
+}
+
+// DataType returns the column data type.
+func (col *column) DataType() DataType {
+	if col.ColumnDef == nil {
+		return UnknownData
+	}
+	return col.ColumnDef.DataType()
+}
+
+// DataTypeSize returns the column data type size.
+func (col *column) DataTypeSize() int {
+	if col.ColumnDef == nil {
+		return -1
+	}
+	return col.ColumnDef.DataTypeSize()
+}
+
 // UpdatorString returns the updator string representation.
 func (col *column) UpdatorString() string {
 	if fn, ok := col.Function(); ok {
diff --git a/sql/query/literal.go b/sql/query/literal.go
index add7e82..e9f9628 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -99,6 +99,9 @@ func (lit *Literal) SetValue(v any) *Literal {
 
 // Value returns the literal value.
 func (lit *Literal) Value() any {
+	if lit == nil {
+		return nil
+	}
 	return lit.v
 }
 
@@ -110,6 +113,9 @@ func (lit *Literal) SetValueType(t LiteralType) *Literal {
 
 // ValueType returns the literal type.
 func (lit *Literal) ValueType() LiteralType {
+	if lit == nil {
+		return UnknownLiteral
+	}
 	return lit.t
 }
 
-- 
2.43.0


From dadf8185497a65f0cf693fe22bdd60f81ed547f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:09 +0000
Subject: [PATCH 17/69] fix: copy column values instead of sharing them

A copied column shared its value with the original, so setting a value or a
schema on one changed the other, and the copy lost the function and arguments.
---
 sql/query/column.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index d90daff..196567e 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -240,11 +240,12 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	cpCol := *col
+	if col.Literal != nil {
+		lit := *col.Literal
+		cpCol.Literal = &lit
+	}
+	return &cpCol
 }
 
 // String returns the string representation.
-- 
2.43.0


From 613a515f6ce71a49f93ebf9596b6a5a4a7e585eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:10 +0000
Subject: [PATCH 18/69] fix: classify asterisk, placeholder and function
 columns correctly

A column named * was not an asterisk, the string literals '?' and '*' were a
placeholder and an asterisk, selectors without functions claimed to have one
and the other way around, and every result set column claimed to be a function.
---
 sql/query/column.go                         |  5 +++++
 sql/query/literal.go                        |  4 ++--
 sql/query/response/resultset/column_impl.go | 10 +---------
 sql/query/selectors_helper.go               |  2 +-
 4 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 196567e..e1f5953 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -290,6 +290,11 @@ func (col *column) DataTypeSize() int {
 	return col.ColumnDef.DataTypeSize()
 }
 
+// IsAsterisk returns true if the column is an asterisk.
+func (col *column) IsAsterisk() bool {
+	return col.name == Asterisk
+}
+
 // UpdatorString returns the updator string representation.
 func (col *column) UpdatorString() string {
 	if fn, ok := col.Function(); ok {
diff --git a/sql/query/literal.go b/sql/query/literal.go
index e9f9628..e02f0d9 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -83,12 +83,12 @@ func (lit *Literal) Equal(v any) bool {
 
 // IsAsterisk returns true whether the literal is an asterisk.
 func (lit *Literal) IsAsterisk() bool {
-	return lit.Equal("*")
+	return lit.ValueType() != StringLiteral && lit.Equal("*")
 }
 
 // IsPlaceHolder returns true whether the literal is a place holder.
 func (lit *Literal) IsPlaceHolder() bool {
-	return lit.Equal("?")
+	return lit.ValueType() != StringLiteral && lit.Equal("?")
 }
 
 // SetValue sets a value.
diff --git a/sql/query/response/resultset/column_impl.go b/sql/query/response/resultset/column_impl.go
index a455d90..3c99506 100644
--- a/sql/query/response/resultset/column_impl.go
+++ b/sql/query/response/resultset/column_impl.go
@@ -16,15 +16,10 @@ package resultset
 
 import (
 	"fmt"
-	"regexp"
 
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 )
 
-var funcColumnNameRegex = regexp.MustCompile(
-	`^([a-zA-Z_][a-zA-Z0-9_]*)(\((.*)\))?$`,
-)
-
 type column struct {
 	name string
 	t    DataType
@@ -99,10 +94,7 @@ func (col *column) IsAsterisk() bool {
 
 // IsFunction returns true if the column is a function.
 func (col *column) IsFunction() bool {
-	if funcColumnNameRegex.MatchString(col.name) {
-		return true
-	}
-	return true
+	return col.fn != nil
 }
 
 // Function returns the function associated with the column.
diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 44bdf03..889cf7f 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -34,7 +34,7 @@ func (selectors Selectors) IsAsterisk() bool {
 func (selectors Selectors) HasFunction() bool {
 	for _, selector := range selectors {
 		_, ok := selector.Function()
-		if !ok {
+		if ok {
 			return true
 		}
 	}
-- 
2.43.0


From af347dc2547414e47b9007e5ae5c788ff383db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 19/69] fix: resolve functions by their exact, case-insensitive
 name

LOG10 resolved to LOG, and any name that merely started with a function
name (EXPLODE, SINH, MINUTE) resolved to that function.
---
 sql/fn/aggr_func.go     | 14 +++++-----
 sql/fn/executor_func.go | 57 +++++++++++++++++++----------------------
 sql/fn/func_impl.go     |  3 ++-
 sql/fn/names.go         | 14 +++++-----
 sql/fn/type.go          |  7 +++--
 5 files changed, 47 insertions(+), 48 deletions(-)

diff --git a/sql/fn/aggr_func.go b/sql/fn/aggr_func.go
index a55bf99..e375557 100644
--- a/sql/fn/aggr_func.go
+++ b/sql/fn/aggr_func.go
@@ -16,7 +16,6 @@ package fn
 
 import (
 	"fmt"
-	"strings"
 )
 
 // AggregatorOption is a function that configures the Aggregator.
@@ -39,17 +38,16 @@ func WithAggregatorGroupBys(groups ...GroupBy) AggregatorOption {
 
 // NewAggregatorForName creates an Aggregator instance for the specified function name.
 func NewAggregatorForName(name string, opts ...AggregatorOption) (Aggregator, error) {
-	upperName := strings.ToUpper(name)
-	switch {
-	case strings.HasPrefix(upperName, SumFunctionName):
+	switch normalizedFunctionName(name) {
+	case SumFunctionName:
 		return NewSum(opts...)
-	case strings.HasPrefix(upperName, AvgFunctionName):
+	case AvgFunctionName:
 		return NewAvg(opts...)
-	case strings.HasPrefix(upperName, MinFunctionName):
+	case MinFunctionName:
 		return NewMin(opts...)
-	case strings.HasPrefix(upperName, MaxFunctionName):
+	case MaxFunctionName:
 		return NewMax(opts...)
-	case strings.HasPrefix(upperName, CountFunctionName):
+	case CountFunctionName:
 		return NewCount(opts...)
 	}
 	return nil, fmt.Errorf("%w aggregator: %s", ErrNotSupported, name)
diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index ad95c77..72eb272 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -14,68 +14,63 @@
 
 package fn
 
-import (
-	"strings"
-)
-
 // NewExecutorForName returns a function executor with the specified name.
 func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
-	upperName := strings.ToUpper(name)
 	var ex Executor
-	switch {
+	switch normalizedFunctionName(name) {
 	// Math.
-	case strings.HasPrefix(upperName, AbsFunctionName):
+	case AbsFunctionName:
 		ex = NewAbs(opts...)
-	case strings.HasPrefix(upperName, FloorFunctionName):
+	case FloorFunctionName:
 		ex = NewFloor(opts...)
-	case strings.HasPrefix(upperName, CeilFunctionName):
+	case CeilFunctionName, "CEILING":
 		ex = NewCeil(opts...)
-	case strings.HasPrefix(upperName, RoundFunctionName):
+	case RoundFunctionName:
 		ex = NewRound(opts...)
-	case strings.HasPrefix(upperName, SqrtFunctionName):
+	case SqrtFunctionName:
 		ex = NewSqrt(opts...)
-	case strings.HasPrefix(upperName, LogFunctionName):
+	case LogFunctionName:
 		ex = NewLog(opts...)
-	case strings.HasPrefix(upperName, Log10FunctionName):
+	case Log10FunctionName:
 		ex = NewLog10(opts...)
-	case strings.HasPrefix(upperName, ExpFunctionName):
+	case ExpFunctionName:
 		ex = NewExp(opts...)
-	case strings.HasPrefix(upperName, PowerFunctionName):
+	case PowerFunctionName:
 		ex = NewPower(opts...)
-	case strings.HasPrefix(upperName, ModFunctionName):
+	case ModFunctionName:
 		ex = NewMod(opts...)
-	case strings.HasPrefix(upperName, SinFunctionName):
+	case SinFunctionName:
 		ex = NewSin(opts...)
-	case strings.HasPrefix(upperName, CosFunctionName):
+	case CosFunctionName:
 		ex = NewCos(opts...)
-	case strings.HasPrefix(upperName, TanFunctionName):
+	case TanFunctionName:
 		ex = NewTan(opts...)
-	case strings.HasPrefix(upperName, RandFunctionName):
+	case RandFunctionName:
 		ex = NewRand(opts...)
-	case strings.HasPrefix(upperName, PiFunctionName):
+	case PiFunctionName:
 		ex = NewPI(opts...)
 	// String.
-	case strings.HasPrefix(upperName, UpperFunctionName):
+	case UpperFunctionName:
 		ex = NewUpper(opts...)
-	case strings.HasPrefix(upperName, LowerFunctionName):
+	case LowerFunctionName:
 		ex = NewLower(opts...)
-	case strings.HasPrefix(upperName, TrimFunctionName):
+	case TrimFunctionName:
 		ex = NewTrim(opts...)
 	// Time.
-	case strings.HasPrefix(upperName, CurrentTimestampFunctionName):
+	case CurrentTimestampFunctionName:
 		ex = NewCurrentTimestamp(opts...)
-	case strings.HasPrefix(upperName, NowFunctionName):
+	case NowFunctionName:
 		ex = NewNow(opts...)
 	// Airthmetic.
-	case strings.EqualFold(upperName, AddOperatorID):
+	case AddOperatorID:
 		ex = NewAddOperator(opts...)
-	case strings.EqualFold(upperName, SubOperatorID):
+	case SubOperatorID:
 		ex = NewSubOperator(opts...)
-	case strings.EqualFold(upperName, MulOperatorID):
+	case MulOperatorID:
 		ex = NewMulOperator(opts...)
-	case strings.EqualFold(upperName, DivOperatorID):
+	case DivOperatorID:
 		ex = NewDivOperator(opts...)
-	case strings.EqualFold(upperName, ModOperatorID):
+	case ModOperatorID:
 		ex = NewModOperator(opts...)
 	default:
 		return nil, NewErrNotSupportedFunction(name)
diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..ececeaa 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -75,6 +75,7 @@ func WithFunctionExecutor(executor Executor) FunctionOption {
 // WithFunctionAggregator sets the function aggregator.
 func WithFunctionAggregator(aggregator Aggregator) FunctionOption {
 	return func(fn *function) {
+		fn.aggregator = aggregator
 		fn.name = aggregator.Name()
 		fn.typ = AggregateFunction
 	}
@@ -99,7 +100,7 @@ func (fn *function) Name() string {
 
 // IsName returns true whether the function name is the specified one.
 func (fn *function) IsName(name string) bool {
-	return fn.name == name
+	return strings.EqualFold(fn.name, name)
 }
 
 // Type returns the function type.
diff --git a/sql/fn/names.go b/sql/fn/names.go
index 83a8021..c069372 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -99,6 +99,13 @@ func RegisteredFunctionNames() []string {
 	return registeredFunctionNames
 }
 
+// normalizedFunctionName returns the upper-cased function name without the argument part of a call
+// such as "ABS(x)".
+func normalizedFunctionName(name string) string {
+	name, _, _ = strings.Cut(name, "(")
+	return strings.ToUpper(strings.TrimSpace(name))
+}
+
 // IsRegisteredFunction checks if the given name matches any registered function name pattern.
 func IsRegisteredFunction(name string) bool {
 	if len(name) == 0 {
@@ -112,12 +119,7 @@ func IsRegisteredFunction(name string) bool {
 				return true
 			}
 		default: // Functions with multiple characters
-			if len(name) == len(fn) {
-				if name == fn {
-					return true
-				}
-			}
-			if strings.HasPrefix(name, fn+"(") || strings.HasSuffix(name, ")") {
+			if name == fn || strings.HasPrefix(name, fn+"(") || name == fn+")" {
 				return true
 			}
 		}
diff --git a/sql/fn/type.go b/sql/fn/type.go
index 5286feb..c72e4e1 100644
--- a/sql/fn/type.go
+++ b/sql/fn/type.go
@@ -14,7 +14,10 @@
 
 package fn
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // FunctionType represents a function type.
 type FunctionType int
@@ -35,7 +38,7 @@ const (
 
 // NewFunctionTypeForName returns a FunctionType based on the function name.
 func NewFunctionTypeForName(name string) (FunctionType, error) {
-	switch name {
+	switch strings.ToUpper(name) {
 	case AbsFunctionName, FloorFunctionName, CeilFunctionName, RoundFunctionName, SqrtFunctionName, LogFunctionName, Log10FunctionName, ExpFunctionName, PowerFunctionName, ModFunctionName, SinFunctionName, CosFunctionName, TanFunctionName, RandFunctionName, PiFunctionName:
 		return MathFunction, nil
 	case SumFunctionName, AvgFunctionName, CountFunctionName, MaxFunctionName, MinFunctionName:
-- 
2.43.0


From c20010aeeec784f4a97456e260ab2997cbed2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:41 +0000
Subject: [PATCH 20/69] fix: the minimum of infinite values is infinite

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..2b48937 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From 9b8a58e9efbb4a2f13a37f031694bfff28e247d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:41 +0000
Subject: [PATCH 21/69] fix: aggregate rows by group without losing, merging or
 misaligning groups

- maps: the group by columns are taken from the map
- sets: the results of several aggregators are joined on all group by columns, in a fixed group order
- keys: different group values never share a group, and the caller may reuse its row
- NULL: NULL values are not aggregated, COUNT accepts any type, COUNT(*) counts every row
- an invalid row leaves no trace; Reset drops the old groups; more or less than one argument is an error
- descending order is a valid order
---
 sql/fn/aggr_impl.go | 95 ++++++++++++++++++++++++++++++---------------
 sql/fn/aggr_set.go  | 15 ++++---
 sql/fn/count.go     |  1 +
 sql/fn/groupby.go   | 17 ++++++++
 4 files changed, 89 insertions(+), 39 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..8abd6b8 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -39,11 +39,13 @@ type aggrImpl struct {
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupKeys   map[GroupBySet][]any
+	groupOrder  []GroupBySet
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
 	finalFunc   AggrFinalizeFunc
+	countOnly   bool
 }
 
 // aggrOption is a function that configures the Aggr aggregator.
@@ -60,11 +62,13 @@ func newAggr() *aggrImpl {
 		aggrs:       make([]float64, 0),
 		counts:      0,
 		groupKeys:   make(map[GroupBySet][]any),
+		groupOrder:  make([]GroupBySet, 0),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
 		resetFunc:   nil,
 		aggFunc:     nil,
 		finalFunc:   nil,
+		countOnly:   false,
 	}
 	return aggr
 }
@@ -80,8 +84,8 @@ func withAggrName(name string) aggrOption {
 // withAggrArguments sets the arguments for the Aggr aggregator.
 func withAggrArguments(args []string) aggrOption {
 	return func(aggr *aggrImpl) error {
-		if 1 < len(aggr.args) {
-			return fmt.Errorf("multiple argument %w : %v", ErrNotSupported, aggr.args)
+		if 1 < len(args) {
+			return fmt.Errorf("multiple argument %w : %v", ErrNotSupported, args)
 		}
 		aggr.args = args
 		return nil
@@ -112,6 +116,14 @@ func withAggrFinalizeFunc(finalFunc AggrFinalizeFunc) aggrOption {
 	}
 }
 
+// withAggrCountOnly sets that the aggregator counts the values, which do not have to be numeric.
+func withAggrCountOnly() aggrOption {
+	return func(aggr *aggrImpl) error {
+		aggr.countOnly = true
+		return nil
+	}
+}
+
 // withAggrGroupBys sets the group by column for the Aggr aggregator.
 func withAggrGroupBys(groups ...GroupBy) aggrOption {
 	return func(aggr *aggrImpl) error {
@@ -186,13 +198,13 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	// Validate the arguments
 
-	if len(aggr.columns) == 0 {
+	if len(aggr.args) == 0 {
 		return fmt.Errorf("no argument %w", ErrNotSupported)
 	}
 
 	// Reset aggregator variables
 
-	aggr.aggrs = make([]float64, len(aggr.columns))
+	aggr.aggrs = make([]float64, len(aggr.args))
 	for n := range aggr.aggrs {
 		nv, err := aggr.resetFunc(aggr)
 		if err != nil {
@@ -203,6 +215,8 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	aggr.counts = 0
 
+	aggr.groupKeys = make(map[GroupBySet][]any)
+	aggr.groupOrder = make([]GroupBySet, 0)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
 	aggr.groupCounts = make(map[GroupBySet]int)
 
@@ -217,8 +231,8 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	toFloat64 := func(v any) (float64, error) {
-		switch v := v.(type) {
-		case nil:
+		switch {
+		case v == nil, aggr.countOnly:
 			return 0, nil
 		default:
 			var fv float64
@@ -230,30 +244,45 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	groupBys, isGrouping := aggr.GroupBys()
+	groupKeysCnt := len(groupBys)
+
+	// Convert the value before updating the state so that an invalid row leaves no trace.
+	fvs := make([]float64, 0, len(row)-groupKeysCnt)
+	isNull := false
+	for n, rv := range row[groupKeysCnt:] {
+		fv, err := toFloat64(rv)
+		if err != nil {
+			return fmt.Errorf("[%d] %w row : %w", groupKeysCnt+n, ErrInvalid, err)
+		}
+		fvs = append(fvs, fv)
+		// NULL values are not aggregated, but COUNT(*) counts every row.
+		isNull = isNull || (rv == nil && aggr.args[n] != "*")
+	}
+
 	if isGrouping {
-		groupKeysCnt := len(groupBys)
-		groupKeys := row[:groupKeysCnt]
-		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
+		groupKeys := append([]any{}, row[:groupKeysCnt]...)
+		groupSetKey, err := newGroupBySetUniqueKey(groupKeys)
 		if err != nil {
 			return err
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
-			aggr.groupKeys[groupSetKey] = groupKeys
-			aggr.groupCounts[groupSetKey] = 0
-			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
-			for n := range aggr.groupAggrs[groupSetKey] {
+			aggrs := make([]float64, len(fvs))
+			for n := range aggrs {
 				nv, err := aggr.resetFunc(aggr)
 				if err != nil {
 					return err
 				}
-				aggr.groupAggrs[groupSetKey][n] = nv
+				aggrs[n] = nv
 			}
+			aggr.groupKeys[groupSetKey] = groupKeys
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
+			aggr.groupCounts[groupSetKey] = 0
+			aggr.groupAggrs[groupSetKey] = aggrs
 		}
-		for n, rv := range row[groupKeysCnt:] {
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
-			}
+		if isNull {
+			return nil
+		}
+		for n, fv := range fvs {
 			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
 			if err != nil {
 				return err
@@ -262,11 +291,10 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 		aggr.groupCounts[groupSetKey]++
 	} else {
-		for n, rv := range row {
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
-			}
+		if isNull {
+			return nil
+		}
+		for n, fv := range fvs {
 			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fv)
 			if err != nil {
 				return err
@@ -282,6 +310,14 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	groupBys, _ := aggr.GroupBys()
+	for _, groupBy := range groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
@@ -330,10 +366,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	rows := make([]Row, 0)
 	_, isGrouping := aggr.GroupBys()
 	if isGrouping {
-		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupAggrs))
-		for groupSetKey := range aggr.groupAggrs {
-			groupSetKeys = append(groupSetKeys, groupSetKey)
-		}
+		groupSetKeys := append([]GroupBySet{}, aggr.groupOrder...)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
@@ -361,14 +394,14 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 
 		orderByDescFunc := func(i, j int) bool {
-			return !orderByAscFunc(i, j)
+			return orderByAscFunc(j, i)
 		}
 
 		switch orderBy {
 		case OrderByAsc:
-			sort.Slice(groupSetKeys, orderByAscFunc)
+			sort.SliceStable(groupSetKeys, orderByAscFunc)
 		case OrderByDesc:
-			sort.Slice(groupSetKeys, orderByDescFunc)
+			sort.SliceStable(groupSetKeys, orderByDescFunc)
 		}
 
 		for _, groupSetKey := range groupSetKeys {
diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..209eb06 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -74,13 +74,16 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 	}
 
 	columns := []string{}
+	groupByCnts := make([]int, len(reseltSets))
 	for n, resultSet := range reseltSets {
+		groupBys, _ := (*aggrSet)[n].GroupBys()
+		groupByCnts[n] = len(groupBys)
 		switch n {
 		case 0:
 			columns = append(columns, resultSet.Columns()...)
 		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
+			// Skip the group by columns as they are already included
+			columns = append(columns, resultSet.Columns()[groupByCnts[n]:]...)
 		}
 	}
 
@@ -100,14 +103,10 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				if len(rows) <= rowNo {
 					return nil, fmt.Errorf("row %d not found in result set %d", rowNo, resultSetNo)
 				}
-				switch len(row) {
-				case 0:
+				if len(row) <= groupByCnts[resultSetNo] {
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
-				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
 				}
+				rows[rowNo] = append(rows[rowNo], row[groupByCnts[resultSetNo]:]...) // Skip the group by columns
 			}
 			rowNo++
 		}
diff --git a/sql/fn/count.go b/sql/fn/count.go
index 928a334..6a93ce3 100644
--- a/sql/fn/count.go
+++ b/sql/fn/count.go
@@ -40,6 +40,7 @@ func NewCount(opts ...CountOption) (*Count, error) {
 
 	opts = append(opts,
 		withAggrName("COUNT"),
+		withAggrCountOnly(),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
 				return 0, nil
diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..b983cd4 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -61,6 +61,23 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	return NewGroupBySet(groupBySet...), nil
 }
 
+// newGroupBySetUniqueKey creates a GroupBySet that differs for every different list of group keys.
+func newGroupBySetUniqueKey(groupKeys []any) (GroupBySet, error) {
+	var key strings.Builder
+	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			key.WriteString("-" + groupByDelimiter)
+			continue
+		}
+		var groupKeyStr string
+		if err := safecast.ToString(groupKey, &groupKeyStr); err != nil {
+			return "", err
+		}
+		fmt.Fprintf(&key, "%d:%s%s", len(groupKeyStr), groupKeyStr, groupByDelimiter)
+	}
+	return GroupBySet(key.String()), nil
+}
+
 // NewGroupBysFromGroupBySet converts a GroupBySet to a slice of GroupBy instances.
 func NewGroupBysFromGroupBySet(groupBySet GroupBySet) []GroupBy {
 	if len(groupBySet) == 0 {
-- 
2.43.0


From 189eef7d372665d10d28735bbf4973f597138b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:54 +0000
Subject: [PATCH 22/69] fix: math functions and the modulo operator at the
 borders of their domains

SQRT(0) was an error, x % y panicked for |y| < 1, RAND could return 1, and
FLOOR, CEIL, ROUND, POWER and % overflowed for values an int cannot hold.
---
 sql/fn/arith_func.go |  7 ++++++-
 sql/fn/math_func.go  | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index dcdc182..5060920 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"math"
 )
 
 // NewArithOperatorFor returns a new arithmetic function with the given operator and implementation.
@@ -85,7 +86,11 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
-			return (float64(int(v1) % int(v2))), nil
+			v2 = math.Trunc(v2)
+			if v2 == 0 {
+				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
+			}
+			return math.Mod(math.Trunc(v1), v2), nil
 		},
 		opts...,
 	)
diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..1aa1d75 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -20,6 +20,14 @@ import (
 	"math"
 )
 
+// newIntegerFor returns the integral value as an int, or as it is when an int cannot represent it.
+func newIntegerFor(v float64) any {
+	if v < math.MinInt || -float64(math.MinInt) <= v || math.IsNaN(v) {
+		return v
+	}
+	return int(v)
+}
+
 // NewAbs returns a new abs function.
 func NewAbs(opts ...ExecutorOption) Executor {
 	ex := NewMathFunctionWith(
@@ -43,7 +51,7 @@ func NewFloor(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(FloorFunctionName, args)
 			}
-			return int(math.Floor(args[0])), nil
+			return newIntegerFor(math.Floor(args[0])), nil
 		},
 		opts...,
 	)
@@ -57,7 +65,7 @@ func NewCeil(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(CeilFunctionName, args)
 			}
-			return int(math.Ceil(args[0])), nil
+			return newIntegerFor(math.Ceil(args[0])), nil
 		},
 		opts...,
 	)
@@ -71,7 +79,7 @@ func NewRound(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(RoundFunctionName, args)
 			}
-			return int(math.Round(args[0])), nil
+			return newIntegerFor(math.Round(args[0])), nil
 		},
 		opts...,
 	)
@@ -86,7 +94,7 @@ func NewSqrt(opts ...ExecutorOption) Executor {
 				return nil, newErrInvalidArguments(SqrtFunctionName, args)
 			}
 			v := args[0]
-			if v <= 0 {
+			if v < 0 {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Sqrt(v), nil
@@ -155,7 +163,7 @@ func NewPower(opts ...ExecutorOption) Executor {
 			}
 			base := args[0]
 			exp := args[1]
-			if base < 0 && exp != float64(int(exp)) {
+			if base < 0 && exp != math.Trunc(exp) {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Pow(base, exp), nil
@@ -241,7 +249,7 @@ func NewRand(opts ...ExecutorOption) Executor {
 			}
 			// Convert bytes to uint64 and then to float64 in [0.0, 1.0)
 			n := binary.BigEndian.Uint64(b[:])
-			return float64(n&0x7FFFFFFFFFFFFFFF) / float64(0x7FFFFFFFFFFFFFFF), nil
+			return float64(n>>11) / (1 << 53), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From 47e9cbac96a35032f1f884cec2f15399e6a15ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 23/69] fix: wrap the sentinel errors in the error constructors

---
 sql/errors/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/errors/errors.go b/sql/errors/errors.go
index cf40601..5698002 100644
--- a/sql/errors/errors.go
+++ b/sql/errors/errors.go
@@ -50,15 +50,15 @@ func NewErrNotImplemented(s string) error {
 
 // NewErrNotExist returns an error for a not exist.
 func NewErrNotExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrNotExist)
 }
 
 // NewErrExist returns an error for a exist.
 func NewErrExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrExist)
 }
 
 // NewErrNotSupported returns an error for a not supported.
 func NewErrNotSupported(name string) error {
-	return fmt.Errorf("%s is not supported", name)
+	return fmt.Errorf("%s is %w", name, ErrNotSupported)
 }
-- 
2.43.0


From 5e848278058f336896ea074bb977637ec3659f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 24/69] fix: keep the connection maps consistent with the
 registered connections

UpdateConn left the new connection under the old identifiers, RemoveConn of a
connection that is not registered removed another one with the same ID, and
Close and the span context were not synchronised.
---
 sql/net/conn_impl.go         |  8 +++++++-
 sql/net/conn_manager_impl.go | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..4802bea 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -72,7 +72,7 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = slices.Clone(schemas)
 	}
 }
 
@@ -99,6 +99,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.Lock()
+	defer conn.Unlock()
 	if conn.isClosed {
 		return nil
 	}
@@ -183,11 +185,15 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..31b6b40 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -72,8 +72,18 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	toUUID, toUID := to.UUID(), to.ID()
+	if _, ok := cm.m[toUUID]; ok && toUUID != uuid {
+		return newErrConnExist(toUUID.String())
+	}
+	if _, ok := cm.uidMap[toUID]; ok && toUID != uid {
+		return newErrConnExist(fmt.Sprintf("%d", toUID))
+	}
+
+	delete(cm.m, uuid)
+	delete(cm.uidMap, uid)
+	cm.m[toUUID] = to
+	cm.uidMap[toUID] = to
 
 	return nil
 }
@@ -109,6 +119,9 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
+	if _, ok := cm.m[conn.UUID()]; !ok {
+		return nil
+	}
 	delete(cm.uidMap, conn.ID())
 	delete(cm.m, conn.UUID())
 	return nil
-- 
2.43.0


From 4d84bca3758119e8d3f5471f9a6cc8630b4701ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 25/69] fix: information schema queries for any database and
 table names

Names are escaped, the conditions are optional, and the rows name their tables.
---
 sql/system/schema_columns_resutset.go      | 16 +++++++++++-----
 sql/system/schema_columns_resutset_from.go |  2 +-
 sql/system/schema_columns_stmt_impl.go     | 18 +++++++++++++-----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index da4a857..c6ad342 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -15,7 +15,10 @@
 package system
 
 import (
+	"strings"
+
 	"github.com/cybergarage/go-sqlparser/sql"
+	util "github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 // PostgreSQL: Documentation: 17: 35.17. columns
@@ -33,12 +36,15 @@ type SchemaColumnsResultSet interface {
 func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error) {
 	query := SchemaColumnsQuery
 	if 0 < len(tableNames) {
-		query += " WHERE "
+		escapedTableNames := make([]string, len(tableNames))
 		for n, tableName := range tableNames {
-			if 0 < n {
-				query += " OR "
-			}
-			query += "TABLE_NAME = '" + tableName + "'"
+			escapedTableNames[n] = util.EscapeString(tableName)
+		}
+		switch {
+		case len(tableNames) < 3:
+			query += " WHERE TABLE_NAME = " + strings.Join(escapedTableNames, " OR TABLE_NAME = ")
+		default:
+			query += " WHERE TABLE_NAME IN (" + strings.Join(escapedTableNames, ",") + ")"
 		}
 	}
 	stmt, err := sql.NewParser().ParseString(query)
diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..fc54e68 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -82,7 +82,7 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsSchema:
 					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 5df1bed..d19f8dc 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/cybergarage/go-sqlparser/sql"
 	"github.com/cybergarage/go-sqlparser/sql/query"
+	util "github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type schemaColumnsStatement struct {
@@ -74,19 +75,23 @@ func NewSchemaColumnsStatement(opts ...SchemaColumnsStatementOption) (SchemaColu
 }
 
 func (stmt *schemaColumnsStatement) generateSelectStatement() error {
-	query := SchemaColumnsQuery + " WHERE "
+	conds := []string{}
 	if 0 < len(stmt.dbName) {
-		query += SchemaColumnsSchema + " = '" + stmt.dbName + "'"
+		conds = append(conds, SchemaColumnsSchema+" = "+util.EscapeString(stmt.dbName))
 	}
 	switch {
 	case len(stmt.tblNames) == 1:
-		query += " AND " + SchemaColumnsTableName + " = '" + stmt.tblNames[0] + "'"
+		conds = append(conds, SchemaColumnsTableName+" = "+util.EscapeString(stmt.tblNames[0]))
 	case 1 < len(stmt.tblNames):
 		escapedTableNames := make([]string, len(stmt.tblNames))
 		for n, tblName := range stmt.tblNames {
-			escapedTableNames[n] = "'" + tblName + "'"
+			escapedTableNames[n] = util.EscapeString(tblName)
 		}
-		query += " AND " + SchemaColumnsTableName + " IN (" + strings.Join(escapedTableNames, ",") + ")"
+		conds = append(conds, SchemaColumnsTableName+" IN ("+strings.Join(escapedTableNames, ",")+")")
+	}
+	query := SchemaColumnsQuery
+	if 0 < len(conds) {
+		query += " WHERE " + strings.Join(conds, " AND ")
 	}
 	parser := sql.NewParser()
 	parsedStmts, err := parser.ParseString(query)
@@ -140,6 +145,9 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 	}
 
 	stmt.tblNames = []string{}
+	if stmt.stmt.Where() == nil || !stmt.stmt.Where().HasConditions() {
+		return nil
+	}
 	err := traverseExpr(stmt.stmt.Where().Expr())
 	if err != nil {
 		return err
-- 
2.43.0


From ffc74fc15f50f206757d773ee14b2265bd54fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 26/69] fix: result set borders, asterisk selectors and column
 order

Row stays within the limit, offset+limit does not overflow, negative indexes are
errors, * selects every table column, and columns of a row object are ordered.
---
 sql/query/columns.go                          |  2 +-
 .../response/resultset/resultset_aggr.go      |  2 +-
 .../response/resultset/resultset_impl.go      | 20 +++++++++++++------
 sql/query/response/resultset/row_impl.go      |  2 +-
 sql/query/response/resultset/schema_helper.go |  9 ++++++++-
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/sql/query/columns.go b/sql/query/columns.go
index 84603be..b3861dd 100644
--- a/sql/query/columns.go
+++ b/sql/query/columns.go
@@ -61,7 +61,7 @@ func (columns Columns) Selectors() Selectors {
 
 // ColumnAt returns a column by the specified index.
 func (columns Columns) ColumnAt(n int) (Column, error) {
-	if len(columns) <= n {
+	if n < 0 || len(columns) <= n {
 		return nil, newErrColumnIndexOutOfRange(n)
 	}
 	return columns[n], nil
diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index de94a3e..a810ad1 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -124,7 +124,7 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 		return nil, err
 	}
 
-	resetOpts := []any{}
+	resetOpts := []any{[]fn.GroupBy{}}
 	if groupBy != nil {
 		resetOpts = append(resetOpts, fn.GroupBy(groupBy.ColumnName()))
 	}
diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..d5fa302 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -121,18 +121,26 @@ func (rs *resultset) Next() bool {
 	if rs.rowCursor < rs.offset {
 		rs.rowCursor = rs.offset
 	}
+	if rowEnd := rs.rowEnd(); rowEnd <= rs.rowCursor {
+		rs.rowCursor = rowEnd + 1
+		return false
+	}
 	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	return true
+}
+
+// rowEnd returns the number of the last row within the offset and limit.
+func (rs *resultset) rowEnd() uint {
+	rowCnt := uint(len(rs.rows))
+	if 0 < rs.limit && rs.offset < rowCnt && rs.limit < (rowCnt-rs.offset) {
+		return rs.offset + rs.limit
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	return rowCnt
 }
 
 // Row returns the current row.
 func (rs *resultset) Row() (Row, error) {
-	if (rs.rowCursor == 0) || (uint(len(rs.rows)) < rs.rowCursor) {
+	if (rs.rowCursor == 0) || (rs.rowEnd() < rs.rowCursor) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..75359ff 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -134,7 +134,7 @@ func (row *row) Values() []any {
 // ValueAt returns the row value at the specified index.
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
-	if len(values) <= index {
+	if index < 0 || len(values) <= index {
 		return nil, errors.ErrNotExist
 	}
 	return values[index], nil
diff --git a/sql/query/response/resultset/schema_helper.go b/sql/query/response/resultset/schema_helper.go
index b04c021..f87fe43 100644
--- a/sql/query/response/resultset/schema_helper.go
+++ b/sql/query/response/resultset/schema_helper.go
@@ -16,6 +16,8 @@ package resultset
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 
 	"github.com/cybergarage/go-sqlparser/sql/query"
 )
@@ -39,6 +41,10 @@ func WithSchemaSelectors(selectors query.Selectors) SchemaOption {
 		rsSchemaColumns := []Column{}
 
 		for _, selector := range selectors {
+			if selector.IsAsterisk() {
+				rsSchemaColumns = append(rsSchemaColumns, NewColumnsFrom(schema.tableSchema.Columns())...)
+				continue
+			}
 			var rsSchemaColumn Column
 			fx, ok := selector.Function()
 			if !ok {
@@ -72,7 +78,8 @@ func WithSchemaSelectors(selectors query.Selectors) SchemaOption {
 func WithSchemaRowObject(rowObj map[string]any) SchemaOption {
 	return func(schema *schema) error {
 		columns := []Column{}
-		for key, value := range rowObj {
+		for _, key := range slices.Sorted(maps.Keys(rowObj)) {
+			value := rowObj[key]
 			dataType, err := query.NewDataTypeForValue(value)
 			if err != nil {
 				return err
-- 
2.43.0


From 9d034dea2db9a6684ad73a2f35d878a160d89e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 27/69] fix: index definitions in CREATE TABLE are
 case-insensitive

---
 sql/parser/sqlite/parser_antlr_visitor.go | 28 ++++++++++++-----------
 sql/util/strings/strings.go               |  5 ++++
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 894b2f9..78790cc 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -309,11 +309,11 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 		indexDefs := indexDefs(ctx)
 		for i := 0; i < (len(indexDefs) - 1); i++ {
 			v := indexDefs[i]
-			switch v {
+			switch strings.ToUpper(v) {
 			case "PRIMARY":
 				for j := (i + 1); j < (len(indexDefs) - 1); j++ {
 					v := indexDefs[j]
-					switch v {
+					switch strings.ToUpper(v) {
 					case "KEY":
 						columnName := strings.UnEscapeNameString(indexDefs[j+1])
 						column, err := columns.LookupColumn(columnName)
@@ -342,31 +342,33 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 
 	// Column definitions.
 	for _, columDef := range ctx.AllColumn_def() {
-		column, ok := newColumnWith(columDef)
-		if ok {
-			// Primary key definition for column constraint.
-			for _, columnConst := range columDef.AllColumn_constraint() {
-				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
-					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
-				}
-			}
-			columns = append(columns, column)
-		}
 		// Index definition for column constraint (for MySQL compatibility).
 		// MySQL :: MySQL 8.0 Reference Manual :: 15.1.20 CREATE TABLE Statement
 		// https://dev.mysql.com/doc/refman/8.0/en/create-table.html
-		switch columDef.Column_name().GetText() {
+		switch strings.ToUpper(columDef.Column_name().GetText()) {
 		case "PRIMARY":
 			_, idxColumn, ok := indexColum(columDef, columns)
 			if ok {
 				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
+				continue
 			}
 		case "KEY", "INDEX":
 			idxName, idxColumn, ok := indexColum(columDef, columns)
 			if ok {
 				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
+				continue
 			}
 		}
+		column, ok := newColumnWith(columDef)
+		if ok {
+			// Primary key definition for column constraint.
+			for _, columnConst := range columDef.AllColumn_constraint() {
+				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
+					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
+				}
+			}
+			columns = append(columns, column)
+		}
 	}
 	// Index definitions.
 	for _, tblConst := range ctx.AllTable_constraint() {
diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index bfb5f89..b8ff2e2 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -57,6 +57,11 @@ func EqualFold(s, t string) bool {
 	return strings.EqualFold(s, t)
 }
 
+// ToUpper returns a string with all letters mapped to their upper case.
+func ToUpper(s string) string {
+	return strings.ToUpper(s)
+}
+
 // UnEscapeNameString returns an unescaped column name string.
 func UnEscapeNameString(s string) string {
 	return strings.Trim(s, "'\"`()")
-- 
2.43.0


From 039e91248b103b3b89b72b0dba719ca2a7395e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:39 +0000
Subject: [PATCH 28/69] fix: quote COPY sources that are not plain names

---
 sql/query/copy.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sql/query/copy.go b/sql/query/copy.go
index 49945b4..918e91a 100644
--- a/sql/query/copy.go
+++ b/sql/query/copy.go
@@ -15,6 +15,8 @@
 package query
 
 import (
+	"regexp"
+
 	strconv "strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
@@ -78,6 +80,9 @@ type Copy interface {
 	Columns() Columns
 }
 
+// copySourceName matches the sources that need no quotes.
+var copySourceName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+
 // copyStmt is a "COPY" statement.
 type copyStmt struct {
 	Table
@@ -129,9 +134,13 @@ func (stmt *copyStmt) String() string {
 	if 0 < len(stmt.columns) {
 		strs = append(strs, "("+strings.JoinWithComma(stmt.columns.Names())+")")
 	}
+	source := stmt.Source()
+	if !copySourceName.MatchString(source) {
+		source = strings.EscapeString(source)
+	}
 	strs = append(strs,
 		"FROM",
-		stmt.Source(),
+		source,
 		stmt.format.String(),
 	)
 	return strings.JoinWithSpace(strs)
-- 
2.43.0


From da4206754807f23854db648d8ed508f4380a63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:39 +0000
Subject: [PATCH 29/69] fix: select executors by type among aggregate functions

---
 sql/query/selectors_helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 889cf7f..ef8b2b9 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -139,6 +139,9 @@ func (selectors Selectors) ExecutorsForType(t FunctionType) ([]FunctionExecutor,
 		if !ok {
 			continue
 		}
+		if fn.IsAggregator() {
+			continue
+		}
 		executor, err := fn.Executor()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From f623d2b7e1a8525057f37c27b1b7a580d8bf399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:27 +0000
Subject: [PATCH 30/69] fix: string and time functions have a data type

---
 sql/query/data_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index 52f9ffc..2d58761 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -157,6 +157,10 @@ func NewDataTypeForFunction(fx Function) (DataType, error) {
 		return FloatType, nil
 	case fn.ArithOperator:
 		return FloatType, nil
+	case fn.StringFunction:
+		return TextType, nil
+	case fn.TimeFunction:
+		return TimeStampType, nil
 	default:
 		return UnknownData, newErrInvalidDataType(fx)
 	}
-- 
2.43.0


From 767191e6060aaead93d1d2869d31846293e9b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 31/69] fix: NULL is a value of every column type

---
 sql/query/column.go  |  2 +-
 sql/query/literal.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index e1f5953..389fb4f 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -187,7 +187,7 @@ func (col *column) SetValue(v any) error {
 func (col *column) SetDefinition(dataDef ColumnDef) error {
 	col.ColumnDef = dataDef
 
-	if dataDef == nil || col.Literal == nil {
+	if dataDef == nil || col.Literal.isNull() {
 		return nil
 	}
 
diff --git a/sql/query/literal.go b/sql/query/literal.go
index e02f0d9..c80b033 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -38,6 +38,8 @@ type Literal struct {
 	t LiteralType
 }
 
+const nullString = "NULL"
+
 // NullLiteral represents a null value.
 var NullLiteral = NewLiteralWith(nil)
 
@@ -124,6 +126,9 @@ func (lit *Literal) ValueString() string {
 	if lit == nil {
 		return ""
 	}
+	if lit.v == nil {
+		return nullString
+	}
 	switch lit.t {
 	case StringLiteral:
 		return strings.EscapeString(fmt.Sprintf("%v", lit.v))
@@ -131,6 +136,15 @@ func (lit *Literal) ValueString() string {
 	return fmt.Sprintf("%v", lit.v)
 }
 
+// isNull returns true whether the literal is NULL.
+func (lit *Literal) isNull() bool {
+	if lit == nil || lit.v == nil {
+		return true
+	}
+	s, ok := lit.v.(string)
+	return ok && lit.t != StringLiteral && strings.EqualFold(s, nullString)
+}
+
 // String returns the string representation.
 func (lit *Literal) String() string {
 	return lit.ValueString()
-- 
2.43.0


From 80d2884f6a8c7909eb3aabffc8ee9a4a95681ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:41 +0000
Subject: [PATCH 32/69] fix: adding a column to a schema leaves schemas sharing
 its columns alone

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 1ee5644..13d179c 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -171,7 +171,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(schema.columns[:len(schema.columns):len(schema.columns)], column)
 	return nil
 }
 
@@ -188,7 +188,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(schema.indexes[:len(schema.indexes):len(schema.indexes)], index)
 	return nil
 }
 
-- 
2.43.0


From 0f1278a15328c83695715621d77b28fa4b35a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:20 +0000
Subject: [PATCH 33/69] fix: a connection reads its tracer context under its
 lock

---
 sql/net/conn_impl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 4802bea..50fea46 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -199,15 +199,15 @@ func (conn *conn) SpanContext() tracer.Context {
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	return conn.SpanContext().Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	return conn.SpanContext().StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	return conn.SpanContext().FinishSpan()
 }
-- 
2.43.0


From a735cc00c07cf65040e7290f78043ac6b40a9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:21 +0000
Subject: [PATCH 34/69] fix: removing a connection by an ID looks it up and
 deletes it atomically

---
 sql/net/conn_manager_impl.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 31b6b40..bf6feba 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -119,30 +119,39 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
+	cm.removeConn(conn)
+	return nil
+}
+
+// removeConn deletes the specified connection from the maps. The caller must hold the lock.
+func (cm *mgr) removeConn(conn Conn) {
 	if _, ok := cm.m[conn.UUID()]; !ok {
-		return nil
+		return
 	}
 	delete(cm.uidMap, conn.ID())
 	delete(cm.m, conn.UUID())
-	return nil
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
-	conn, ok := cm.LookupConnByUID(cid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.uidMap[cid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn)
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
-	conn, ok := cm.LookupConnByUUID(uuid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.m[uuid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn)
 }
 
 // Start starts the connection manager.
-- 
2.43.0


From b923580f353206f4cdd63d9fc63dd82d3379b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:48 +0000
Subject: [PATCH 35/69] fix: quote COPY sources that are reserved words

---
 sql/query/copy.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sql/query/copy.go b/sql/query/copy.go
index 918e91a..96f3738 100644
--- a/sql/query/copy.go
+++ b/sql/query/copy.go
@@ -15,8 +15,6 @@
 package query
 
 import (
-	"regexp"
-
 	strconv "strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
@@ -80,8 +78,8 @@ type Copy interface {
 	Columns() Columns
 }
 
-// copySourceName matches the sources that need no quotes.
-var copySourceName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+// copyStdin is the source that is not a file name and needs no quotes.
+const copyStdin = "STDIN"
 
 // copyStmt is a "COPY" statement.
 type copyStmt struct {
@@ -135,7 +133,7 @@ func (stmt *copyStmt) String() string {
 		strs = append(strs, "("+strings.JoinWithComma(stmt.columns.Names())+")")
 	}
 	source := stmt.Source()
-	if !copySourceName.MatchString(source) {
+	if !strings.EqualFold(source, copyStdin) {
 		source = strings.EscapeString(source)
 	}
 	strs = append(strs,
-- 
2.43.0


From 9a2b03fcf5fda0eaa052433dbe6429cc82f11355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:38 +0000
Subject: [PATCH 36/69] fix: report misaligned groups instead of mixing them in
 an aggregator set

---
 sql/fn/aggr_set.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 209eb06..743d8a8 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -106,10 +106,16 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				if len(row) <= groupByCnts[resultSetNo] {
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
 				}
+				if err := equalGroups(rows[rowNo], groupByCnts[0], row, groupByCnts[resultSetNo]); err != nil {
+					return nil, fmt.Errorf("row %d in result set %d: %w", rowNo, resultSetNo, err)
+				}
 				rows[rowNo] = append(rows[rowNo], row[groupByCnts[resultSetNo]:]...) // Skip the group by columns
 			}
 			rowNo++
 		}
+		if rowNo != len(rows) {
+			return nil, fmt.Errorf("%w number of groups (%d != %d) in result set %d", ErrInvalid, rowNo, len(rows), resultSetNo)
+		}
 	}
 
 	return NewResultSet(
@@ -117,3 +123,19 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 		WithColumns(columns),
 	), nil
 }
+
+// equalGroups returns an error if the rows do not start with the same group values.
+func equalGroups(row Row, cnt int, other Row, otherCnt int) error {
+	key, err := newGroupBySetUniqueKey(row[:cnt])
+	if err != nil {
+		return err
+	}
+	otherKey, err := newGroupBySetUniqueKey(other[:otherCnt])
+	if err != nil {
+		return err
+	}
+	if key != otherKey {
+		return fmt.Errorf("%w group (%v != %v)", ErrInvalid, other[:otherCnt], row[:cnt])
+	}
+	return nil
+}
-- 
2.43.0


From 2af10504f4b4e17c6ad86b4297f4e6b4c6193a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:05 +0000
Subject: [PATCH 37/69] fix: refuse reserved words as names without quotes

---
 sql/parser/sqlite/parser_antlr_visitor.go | 36 +++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 78790cc..1a69087 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -39,6 +39,9 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
+	if err := checkReservedNames(ctx); err != nil {
+		return err
+	}
 	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
 	if err != nil {
 		return err
@@ -50,6 +53,39 @@ func newErrNotSupportedClause(ctx go_antlr.ParserRuleContext) error {
 	return fmt.Errorf("%s is %w", ctx.GetText(), query.ErrNotSupported)
 }
 
+// isReservedKeyword returns true whether the keyword introduces or joins a clause, so that it cannot be a name without
+// quotes.
+func isReservedKeyword(tokenType int) bool {
+	switch tokenType {
+	case antlr.SQLiteParserSELECT_, antlr.SQLiteParserFROM_, antlr.SQLiteParserWHERE_, antlr.SQLiteParserGROUP_,
+		antlr.SQLiteParserHAVING_, antlr.SQLiteParserORDER_, antlr.SQLiteParserLIMIT_, antlr.SQLiteParserUNION_,
+		antlr.SQLiteParserJOIN_, antlr.SQLiteParserON_, antlr.SQLiteParserAS_, antlr.SQLiteParserINTO_,
+		antlr.SQLiteParserVALUES_, antlr.SQLiteParserSET_, antlr.SQLiteParserTABLE_, antlr.SQLiteParserAND_,
+		antlr.SQLiteParserOR_, antlr.SQLiteParserNOT_, antlr.SQLiteParserIN_:
+		return true
+	}
+	return false
+}
+
+// checkReservedNames returns an error if a reserved keyword stands where a name is required. The grammar takes any
+// keyword for a name, and would read an incomplete clause such as "SELECT * FROM t WHERE" as an alias.
+func checkReservedNames(tree go_antlr.Tree) error {
+	switch ctx := tree.(type) {
+	case antlr.IType_nameContext:
+		return nil // SET is a data type.
+	case antlr.IAny_nameContext:
+		if keyword := ctx.Keyword(); keyword != nil && isReservedKeyword(keyword.GetStart().GetTokenType()) {
+			return fmt.Errorf("reserved word %s is not a name", keyword.GetText())
+		}
+	}
+	for _, child := range tree.GetChildren() {
+		if err := checkReservedNames(child); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
-- 
2.43.0


From d863fe8b84960eff6780d484710831dcd00555be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 38/69] fix: report statements that are not supported instead
 of ignoring them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 1a69087..969da5a 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -94,9 +94,6 @@ func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.Statemen
 			if err != nil {
 				return nil, err
 			}
-			if stmt == nil {
-				continue
-			}
 			stmtList = append(stmtList, stmt)
 		}
 	}
@@ -104,6 +101,9 @@ func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.Statemen
 }
 
 func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
+	if ctx.EXPLAIN_() != nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	// DDL (Data Definition Language) - CREATE
 	if stmt := ctx.Create_database_stmt(); stmt != nil {
 		return newCreateDatabaseWith(stmt), nil
@@ -152,6 +152,9 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 		return newBeginWith(stmt), nil
 	}
 	if stmt := ctx.Rollback_stmt(); stmt != nil {
+		if stmt.Savepoint_name() != nil {
+			return nil, newErrNotSupportedClause(stmt)
+		}
 		return newRollbackWith(stmt), nil
 	}
 	if stmt := ctx.Commit_stmt(); stmt != nil {
@@ -170,7 +173,7 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 	if stmt := ctx.Vacuum_stmt(); stmt != nil {
 		return newVacuumWith(stmt), nil
 	}
-	return nil, nil //nolint:nilnil
+	return nil, newErrNotSupportedClause(ctx)
 }
 
 func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateDatabase {
-- 
2.43.0


From 5ac9b0f2337c224013794ee197c2d48f14869bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:29 +0000
Subject: [PATCH 39/69] fix: report SELECT clauses that are not supported
 instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 49 ++++++++++++++++++-----
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 969da5a..90f09c1 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -139,7 +139,7 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 		return newUpdateWith(stmt)
 	}
 	if stmt := ctx.Select_stmt(); stmt != nil {
-		return newSelectWith(stmt), nil
+		return newSelectWith(stmt)
 	}
 	if stmt := ctx.Delete_stmt(); stmt != nil {
 		return newDeleteWith(stmt), nil
@@ -590,7 +590,35 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 	return query.NewUpdateWith(tbl, columns, where), nil
 }
 
-func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
+// isSupportedSelect returns true whether all clauses of the SELECT statement can be represented in the query.
+func isSupportedSelect(ctx antlr.ISelect_stmtContext) bool {
+	if ctx.Common_table_stmt() != nil || 0 < len(ctx.AllCompound_operator()) {
+		return false
+	}
+	core := ctx.GetParentQuery()
+	if core.Values_clause() != nil || core.Join_clause() != nil || core.GetHavingExpr() != nil ||
+		core.WINDOW_() != nil || 1 < len(core.GetGroupByExpr()) {
+		return false
+	}
+	for _, from := range core.AllFrom() {
+		if from.From_table() == nil {
+			return false
+		}
+	}
+	if orderBy := ctx.Order_by_stmt(); orderBy != nil {
+		for _, order := range orderBy.AllOrdering_term() {
+			if order.COLLATE_() != nil || order.NULLS_() != nil {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
+	if !isSupportedSelect(ctx) {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	sels := query.NewSelectors()
 	tbls := query.NewTables()
 	opts := []query.SelectOption{}
@@ -599,7 +627,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		for _, col := range parentQuery.AllResult_column() {
 			sel, err := newSelectorFrom(col)
 			if err != nil {
-				continue
+				return nil, err
 			}
 			sels = append(sels, sel)
 		}
@@ -651,28 +679,29 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 		}
 		if 0 < len(limits) {
 			var limit uint
-			err := safecast.ToUint(limits[0].GetText(), &limit)
-			if err != nil {
-				limit = 0
+			if err := safecast.ToUint(limits[0].GetText(), &limit); err != nil {
+				return nil, newErrNotSupportedClause(ctx)
 			}
 			var offset uint
 			if 1 < len(limits) {
-				err := safecast.ToUint(limits[1].GetText(), &offset)
-				if err != nil {
-					offset = 0
+				if err := safecast.ToUint(limits[1].GetText(), &offset); err != nil {
+					return nil, newErrNotSupportedClause(ctx)
 				}
 			}
 			opts = append(opts, query.WithSelectLimit(offset, limit))
 		}
 	}
 
-	return query.NewSelectWith(sels, tbls, where, opts...)
+	return query.NewSelectWith(sels, tbls, where, opts...), nil
 }
 
 func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	expr := ctx.Expr()
 	if expr != nil {
 		if fx := expr.Function(); fx != nil {
+			if fx.DISTINCT_() != nil || fx.Filter_clause() != nil || fx.Over_clause() != nil {
+				return nil, newErrNotSupportedClause(fx)
+			}
 			args := fn.NewArguments()
 			if star := fx.STAR(); star != nil {
 				args = append(args, fn.NewArgumentWith(star.GetText()))
-- 
2.43.0


From 8d87f3640e87e4d82e04f09a2103b462b0339bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 40/69] fix: report INSERT, UPDATE and DELETE clauses that are
 not supported instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 90f09c1..34135a7 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -142,7 +142,7 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 		return newSelectWith(stmt)
 	}
 	if stmt := ctx.Delete_stmt(); stmt != nil {
-		return newDeleteWith(stmt), nil
+		return newDeleteWith(stmt)
 	}
 	if stmt := ctx.Commit_stmt(); stmt != nil {
 		return query.NewCommit(), nil
@@ -514,6 +514,10 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 }
 
 func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
+	if ctx.With_clause() != nil || ctx.REPLACE_() != nil || ctx.OR_() != nil ||
+		ctx.Upsert_clause() != nil || ctx.Returning_clause() != nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	tblName := newTableNameWith(ctx.Schema_name(), ctx.Table_name())
 	tbl := query.NewTableWith(tblName)
 	names := []string{}
@@ -554,6 +558,9 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
+	if ctx.With_clause() != nil || ctx.OR_() != nil || ctx.FROM_() != nil || ctx.Returning_clause() != nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()))
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
@@ -723,13 +730,16 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	return query.NewColumnWithName(ctx.GetText()), nil
 }
 
-func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
+func newDeleteWith(ctx antlr.IDelete_stmtContext) (query.Statement, error) {
+	if ctx.With_clause() != nil || ctx.Returning_clause() != nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()))
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
 	}
-	return query.NewDeleteWith(tbl, where)
+	return query.NewDeleteWith(tbl, where), nil
 }
 
 func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
-- 
2.43.0


From 30be5380c462230374f7c66c9269a52c820dc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:45 +0000
Subject: [PATCH 41/69] fix: keep columns without a data type in CREATE TABLE
 and ALTER TABLE

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 34135a7..19c3ad5 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -468,7 +468,10 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 
 	typ := ctx.Type_name()
 	if typ == nil {
-		return nil, false
+		return query.NewColumnWithOptions(
+			query.WithColumnName(name),
+			query.WithColumnData(query.NewUnknownDataDef()),
+		), true
 	}
 
 	dataDefs := []string{}
-- 
2.43.0


From 5b3f7a2f2b78d5a6fe7c7c83fd56947e311328e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:23 +0000
Subject: [PATCH 42/69] fix: keep quoted column names that read like index
 keywords

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 19c3ad5..1b6af0c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -459,7 +459,7 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
 
 	for _, keyword := range keywords {
-		if strings.Equal(name, keyword) {
+		if strings.Equal(ctx.Column_name().GetText(), keyword) {
 			return nil, false
 		}
 	}
-- 
2.43.0


From f3ee8748e4f7e04207e3eac5e2bf5200af25c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 43/69] fix: keep DISTINCT in a SELECT statement

---
 sql/parser/sqlite/parser_antlr_visitor.go |  3 +++
 sql/query/select.go                       | 25 ++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 1b6af0c..0b9d090 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -653,6 +653,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 		if w := parentQuery.GetWhereExpr(); w != nil {
 			topExpr = newExprWith(w)
 		}
+		if parentQuery.DISTINCT_() != nil {
+			opts = append(opts, query.WithSelectDistinct())
+		}
 		groupBy := parentQuery.GetGroupByExpr()
 		if 0 < len(groupBy) {
 			opts = append(opts, query.WithSelectGroupBy(newColumnNameWith(groupBy[0])))
diff --git a/sql/query/select.go b/sql/query/select.go
index 4708e57..333b634 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -24,6 +24,8 @@ type SelectOption = func(*selectStmt)
 // Select represents a "SELECT" statement interface.
 type Select interface {
 	Statement
+	// IsDistinct returns true whether the duplicate rows are removed.
+	IsDistinct() bool
 	// Selectors returns the selectors.
 	Selectors() Selectors
 	// From returns the source table list.
@@ -45,9 +47,10 @@ type selectStmt struct {
 	TableList
 	selectors Selectors
 	Condition
-	orderBy OrderBy
-	limit   Limit
-	groupBy GroupBy
+	orderBy  OrderBy
+	limit    Limit
+	groupBy  GroupBy
+	distinct bool
 }
 
 // NewSelectWith returns a new selectStmt statement instance with the specified parameters.
@@ -59,6 +62,7 @@ func NewSelectWith(selectors Selectors, tbls TableList, w Condition, opts ...Sel
 		orderBy:   NewOrderBy(),
 		limit:     NewLimit(),
 		groupBy:   NewGroupBy(),
+		distinct:  false,
 	}
 	for _, opt := range opts {
 		opt(stmt)
@@ -87,11 +91,23 @@ func WithSelectGroupBy(name string) func(*selectStmt) {
 	}
 }
 
+// WithSelectDistinct sets the distinct option.
+func WithSelectDistinct() func(*selectStmt) {
+	return func(stmt *selectStmt) {
+		stmt.distinct = true
+	}
+}
+
 // StatementType returns the statement type.
 func (stmt *selectStmt) StatementType() StatementType {
 	return SelectStatement
 }
 
+// IsDistinct returns true whether the duplicate rows are removed.
+func (stmt *selectStmt) IsDistinct() bool {
+	return stmt.distinct
+}
+
 // Selectors returns the selectors.
 func (stmt *selectStmt) Selectors() Selectors {
 	return stmt.selectors
@@ -128,6 +144,9 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(stmt.selectors) {
 		selectorStr = stmt.selectors.String()
 	}
+	if stmt.distinct {
+		selectorStr = "DISTINCT " + selectorStr
+	}
 	strs := []string{
 		"SELECT",
 		selectorStr,
-- 
2.43.0


From c6276cc355cbac2d53f79252058b662c8e6de021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:25 +0000
Subject: [PATCH 44/69] fix: keep the source text of expressions that are
 selectors, keys and arguments

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 0b9d090..57b7be2 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -261,7 +261,10 @@ func newTableNameWith(schema antlr.ISchema_nameContext, table antlr.ITable_nameC
 
 // newColumnNameWith returns the text of the specified expression, which is unescaped if it is a column name.
 func newColumnNameWith(expr antlr.IExprContext) string {
-	if expr.Column_name() != nil && expr.Table_name() == nil {
+	if expr.Column_name() == nil {
+		return newSourceTextWith(expr)
+	}
+	if expr.Table_name() == nil {
 		return strings.UnEscapeNameString(expr.GetText())
 	}
 	return expr.GetText()
-- 
2.43.0


From 957e9424b84311d44456ead200bfcfd0908fad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 45/69] fix: refuse finite values that overflow a FLOAT column

---
 sql/query/column.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 389fb4f..0dd69ff 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -16,6 +16,7 @@ package query
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -221,6 +222,13 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		if err := safecast.ToFloat32(col.v, &v); err != nil {
 			return err
 		}
+		if math.IsInf(float64(v), 0) {
+			// The value is out of range for the data type unless it is infinite itself.
+			var d float64
+			if err := safecast.ToFloat64(col.v, &d); err != nil || !math.IsInf(d, 0) {
+				return fmt.Errorf("value (%v) is out of range: %w", col.v, ErrInvalid)
+			}
+		}
 		col.Literal.SetValue(v)
 	case DoubleType:
 		var v float64
-- 
2.43.0


From ee348e86e0d8a56480deba936ba8e8fb81a8e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 46/69] fix: refuse BY, COLUMN and EXISTS as names without
 quotes

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 57b7be2..ddd7c0a 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -61,7 +61,8 @@ func isReservedKeyword(tokenType int) bool {
 		antlr.SQLiteParserHAVING_, antlr.SQLiteParserORDER_, antlr.SQLiteParserLIMIT_, antlr.SQLiteParserUNION_,
 		antlr.SQLiteParserJOIN_, antlr.SQLiteParserON_, antlr.SQLiteParserAS_, antlr.SQLiteParserINTO_,
 		antlr.SQLiteParserVALUES_, antlr.SQLiteParserSET_, antlr.SQLiteParserTABLE_, antlr.SQLiteParserAND_,
-		antlr.SQLiteParserOR_, antlr.SQLiteParserNOT_, antlr.SQLiteParserIN_:
+		antlr.SQLiteParserOR_, antlr.SQLiteParserNOT_, antlr.SQLiteParserIN_, antlr.SQLiteParserBY_,
+		antlr.SQLiteParserCOLUMN_, antlr.SQLiteParserEXISTS_:
 		return true
 	}
 	return false
-- 
2.43.0


From 1079f65e81f3085e07b8a0b654eb21338f5f665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:31 +0000
Subject: [PATCH 47/69] fix: refuse statements that no semicolon separates

---
 sql/parser/sqlite/parser_antlr_visitor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index ddd7c0a..3d570a9 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -42,7 +42,13 @@ func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
 	if err := checkReservedNames(ctx); err != nil {
 		return err
 	}
-	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	stmtLists := ctx.AllSql_stmt_list()
+	if 1 < len(stmtLists) {
+		// The grammar takes statements that no semicolon separates as lists of their own.
+		start := stmtLists[1].GetStart()
+		return fmt.Errorf("line %d:%d missing ';' before '%s'", start.GetLine(), start.GetColumn(), start.GetText())
+	}
+	stmtList, err := newStatementListWith(stmtLists)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4817af934a624a09222485ba9ca5cf3cd87f355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:05 +0000
Subject: [PATCH 48/69] fix: bind parameters of named, pointer and Stringer
 types are literals, others are errors

---
 sql/stmt/bind_param_impl.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index 8179a3e..cba6be5 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -15,10 +15,12 @@
 package stmt
 
 import (
+	"fmt"
+	"math"
+	"reflect"
 	"strconv"
 	"time"
 
-	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
@@ -31,7 +33,7 @@ func NewBindParam(v any) BindParam {
 	return &bindParam{v: v}
 }
 
-// String returns the string representation of the bind parameter.
+// String returns the literal of the bind parameter. It returns an error if the parameter has no literal.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
 	case nil:
@@ -45,12 +47,29 @@ func (p *bindParam) String() (string, error) {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
 		}
 		return "'" + v.Format("2006-01-02 15:04:05.000000") + "'", nil
-	case float64:
-		return strconv.FormatFloat(v, 'g', -1, 64), nil
-	case float32:
-		return strconv.FormatFloat(float64(v), 'g', -1, 32), nil
 	}
 
-	var to string
-	return to, safecast.ToString(p.v, &to)
+	// Only numbers and booleans are written as they are. Any other text must be quoted not to change the statement.
+	v := reflect.ValueOf(p.v)
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		return "NULL", nil
+	}
+	if s, ok := p.v.(fmt.Stringer); ok {
+		return strings.EscapeString(s.String()), nil
+	}
+	switch {
+	case v.Kind() == reflect.Pointer:
+		return NewBindParam(v.Elem().Interface()).String()
+	case v.Kind() == reflect.String:
+		return strings.EscapeString(v.String()), nil
+	case v.Kind() == reflect.Bool:
+		return strconv.FormatBool(v.Bool()), nil
+	case v.CanInt():
+		return strconv.FormatInt(v.Int(), 10), nil
+	case v.CanUint():
+		return strconv.FormatUint(v.Uint(), 10), nil
+	case v.CanFloat() && !math.IsNaN(v.Float()) && !math.IsInf(v.Float(), 0):
+		return strconv.FormatFloat(v.Float(), 'g', -1, v.Type().Bits()), nil
+	}
+	return "", fmt.Errorf("bind parameter (%T) %w: %v", p.v, ErrInvalid, p.v)
 }
-- 
2.43.0


From f2a92a6e19815d66d7e5463bc9c9bd84ea8fabd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:30 +0000
Subject: [PATCH 49/69] fix: give each running parser its own prediction cache

The ANTLR runtime changes cached ATN configurations of the shared DFA without
synchronization, which was a data race between parsers in different goroutines.
---
 sql/parser/sqlite/parser_antlr.go | 45 +++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index ca7c79d..e2cfce0 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -16,6 +16,7 @@ package sqlite
 
 import (
 	"fmt"
+	"sync"
 
 	go_antlr "github.com/antlr4-go/antlr/v4"
 	errors "github.com/cybergarage/go-sqlparser/sql/parser"
@@ -23,6 +24,45 @@ import (
 	"github.com/cybergarage/go-sqlparser/sql/query"
 )
 
+// predictionCache is what an ANTLR parser learns while it parses. The ANTLR
+// runtime does not synchronize all accesses to it, so that it must not be used
+// by two parsers at the same time.
+type predictionCache struct {
+	dfas     []*go_antlr.DFA
+	contexts *go_antlr.PredictionContextCache
+}
+
+var (
+	predictionCaches      []*predictionCache
+	predictionCachesMutex sync.Mutex
+)
+
+// acquirePredictionCache returns a prediction cache which no other parser uses.
+func acquirePredictionCache(atn *go_antlr.ATN) *predictionCache {
+	predictionCachesMutex.Lock()
+	defer predictionCachesMutex.Unlock()
+	if n := len(predictionCaches); 0 < n {
+		cache := predictionCaches[n-1]
+		predictionCaches = predictionCaches[:n-1]
+		return cache
+	}
+	cache := &predictionCache{
+		dfas:     make([]*go_antlr.DFA, len(atn.DecisionToState)),
+		contexts: go_antlr.NewPredictionContextCache(),
+	}
+	for n, state := range atn.DecisionToState {
+		cache.dfas[n] = go_antlr.NewDFA(state, n)
+	}
+	return cache
+}
+
+// releasePredictionCache makes the prediction cache available to other parsers.
+func releasePredictionCache(cache *predictionCache) {
+	predictionCachesMutex.Lock()
+	defer predictionCachesMutex.Unlock()
+	predictionCaches = append(predictionCaches, cache)
+}
+
 // Parser represents a FQL parser based on ANTLR.
 type Parser struct {
 	inputStream   *go_antlr.InputStream
@@ -69,7 +109,12 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
+
+	atn := parser.parser.GetATN()
+	cache := acquirePredictionCache(atn)
+	parser.parser.Interpreter = go_antlr.NewParserATNSimulator(parser.parser, atn, cache.dfas, cache.contexts)
 	tree := parser.parser.Parse()
+	releasePredictionCache(cache)
 
 	if !parser.errorListener.IsSuccess() {
 		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())
-- 
2.43.0


From a2b2757579221ca1e835ce8514ac13df0d552376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:26 +0000
Subject: [PATCH 50/69] fix: keep columns named like index keywords and refuse
 unnamed index definitions

---
 sql/parser/sqlite/parser_antlr_visitor.go | 60 +++++++++++++----------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 3d570a9..3b587af 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -136,7 +136,7 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 		return newAlterDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Alter_table_stmt(); stmt != nil {
-		return newAlterTableWith(stmt), nil
+		return newAlterTableWith(stmt)
 	}
 	// DML (Data Manipulation Language)
 	if stmt := ctx.Insert_stmt(); stmt != nil {
@@ -286,7 +286,7 @@ func newAlterDatabaseWith(ctx antlr.IAlter_database_stmtContext) query.AlterData
 	return query.NewAlterDatabaseWith(dbName, toDBName)
 }
 
-func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
+func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) (query.AlterTable, error) {
 	opts := []query.AlterTableOption{}
 	if ctx := ctx.Schema_name(); ctx != nil {
 		schemaName := strings.UnEscapeNameString(ctx.GetText())
@@ -303,9 +303,10 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
 		column, ok := newColumnWith(ctx.Column_def())
-		if ok {
-			opts = append(opts, query.WithAlterTableAddColumn(column))
+		if !ok {
+			return nil, newErrNotSupportedClause(ctx)
 		}
+		opts = append(opts, query.WithAlterTableAddColumn(column))
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
@@ -316,7 +317,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := strings.UnEscapeNameString(ctx.GetTarget_table_name().GetText())
-	return query.NewAlterTableWith(tblName, opts...)
+	return query.NewAlterTableWith(tblName, opts...), nil
 }
 
 func newAddIndexSchemaWith(ctx antlr.IAdd_table_indexContext) query.Index {
@@ -407,17 +408,27 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
 				continue
 			}
+		case "CONSTRAINT":
+			// Check constraints are not supported yet.
+			if isCheckConstraint(columDef) {
+				continue
+			}
 		}
 		column, ok := newColumnWith(columDef)
-		if ok {
-			// Primary key definition for column constraint.
-			for _, columnConst := range columDef.AllColumn_constraint() {
-				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
-					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
-				}
+		if !ok {
+			// Unique constraints are not supported yet.
+			if strings.EqualFold(columDef.Column_name().GetText(), "UNIQUE") {
+				continue
+			}
+			return nil, newErrNotSupportedClause(columDef)
+		}
+		// Primary key definition for column constraint.
+		for _, columnConst := range columDef.AllColumn_constraint() {
+			if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
+				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
 			}
-			columns = append(columns, column)
 		}
+		columns = append(columns, column)
 	}
 	// Index definitions.
 	for _, tblConst := range ctx.AllTable_constraint() {
@@ -455,25 +466,20 @@ func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) (query.Schema, erro
 	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
 }
 
-func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
-	keywords := []string{
-		"PRIMARY",
-		"KEY",
-		"UNIQUE",
-		"INDEX",
-		"CONSTRAINT",
+func isCheckConstraint(ctx antlr.IColumn_defContext) bool {
+	for _, columnConst := range ctx.AllColumn_constraint() {
+		if columnConst.CHECK_() != nil {
+			return true
+		}
 	}
+	return false
+}
 
+func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 	// Column name
 
 	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
 
-	for _, keyword := range keywords {
-		if strings.Equal(ctx.Column_name().GetText(), keyword) {
-			return nil, false
-		}
-	}
-
 	// Column type
 
 	typ := ctx.Type_name()
@@ -486,6 +492,10 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 
 	dataDefs := []string{}
 	for _, name := range typ.AllName() {
+		// A column list is not a data type, but a part of an index definition (for MySQL compatibility).
+		if text := name.GetText(); 0 < len(text) && text[0] == '(' {
+			return nil, false
+		}
 		dataDefs = append(dataDefs, name.GetText())
 	}
 	if typ.OPEN_PAR() != nil && typ.CLOSE_PAR() != nil {
-- 
2.43.0


From 6b3ece84dcc00f0bd3e54336aaef20e263a3c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:20 +0000
Subject: [PATCH 51/69] fix: keep OR conditions together inside AND conditions
 when printing

---
 sql/query/expr_and.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sql/query/expr_and.go b/sql/query/expr_and.go
index feca923..ba106ed 100644
--- a/sql/query/expr_and.go
+++ b/sql/query/expr_and.go
@@ -37,5 +37,15 @@ func (expr *AndExpr) Right() Expr {
 
 // String returns the index string representation.
 func (expr *AndExpr) String() string {
-	return expr.left.String() + " AND " + expr.right.String()
+	return andOperandString(expr.left) + " AND " + andOperandString(expr.right)
+}
+
+// andOperandString returns the string representation of the operand, which is
+// enclosed in parentheses when it could bind weaker than AND.
+func andOperandString(expr Expr) string {
+	switch expr.(type) {
+	case *OrExpr, *RawExpr:
+		return "(" + expr.String() + ")"
+	}
+	return expr.String()
 }
-- 
2.43.0


From 3eed74cce4b33d56f5b19a398acd631403156d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:56 +0000
Subject: [PATCH 52/69] fix: keep the schema of CREATE INDEX and refuse partial
 indexes and VACUUM INTO

---
 sql/parser/sqlite/parser_antlr_visitor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 3b587af..54511af 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -178,6 +178,9 @@ func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
 		return newTruncateWith(stmt), nil
 	}
 	if stmt := ctx.Vacuum_stmt(); stmt != nil {
+		if stmt.INTO_() != nil {
+			return nil, newErrNotSupportedClause(stmt)
+		}
 		return newVacuumWith(stmt), nil
 	}
 	return nil, newErrNotSupportedClause(ctx)
@@ -449,7 +452,13 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 }
 
 func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) (query.Schema, error) {
+	if ctx.WHERE_() != nil {
+		return nil, newErrNotSupportedClause(ctx)
+	}
 	idxName := strings.UnEscapeNameString(ctx.Index_name().GetText())
+	if schema := ctx.Schema_name(); schema != nil {
+		idxName = strings.UnEscapeNameString(schema.GetText()) + query.TableNameSep + idxName
+	}
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
-- 
2.43.0


From f1431640bcfec9a97cc1ad9f394205ec396ae8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:10 +0000
Subject: [PATCH 53/69] fix: refuse comparisons among the inserted values
 instead of storing their operand

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 54511af..d2a7c57 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -568,7 +568,8 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 				name = names[n]
 			}
 			var lit *query.Literal
-			if v := expr.Comparison_expr(); v != nil {
+			if v := expr.Comparison_expr(); v != nil && v.ASSIGN() != nil && len(names) == 0 {
+				// The column is named beside its value: VALUES (name = value, ...).
 				name = strings.UnEscapeNameString(v.Column_name().GetText())
 				lit = newLiteralValueWith(v.Literal_value())
 			} else if v := expr.Literal_value(); v != nil {
-- 
2.43.0


From dfbe74612eaea014359c104f7d578e6966aeb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:55 +0000
Subject: [PATCH 54/69] fix: refuse ALTER TABLE ADD of constraints that are no
 index and of a column with a primary key

---
 sql/parser/sqlite/parser_antlr_visitor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index d2a7c57..f46f3e7 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -309,10 +309,18 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) (query.AlterTable, er
 		if !ok {
 			return nil, newErrNotSupportedClause(ctx)
 		}
+		for _, columnConst := range ctx.Column_def().AllColumn_constraint() {
+			if columnConst.Primary_key_constraint() != nil {
+				return nil, newErrNotSupportedClause(ctx)
+			}
+		}
 		opts = append(opts, query.WithAlterTableAddColumn(column))
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
+		if index.Type() == query.UnknownIndex {
+			return nil, newErrNotSupportedClause(ctx)
+		}
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-- 
2.43.0


From 3328938dd6c4224e8675fb76c8d48489781c248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:44 +0000
Subject: [PATCH 55/69] fix: keep the primary key of a column without a data
 type

---
 sql/parser/sqlite/parser_antlr_visitor.go | 27 ++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index f46f3e7..f14a1b4 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -309,10 +309,8 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) (query.AlterTable, er
 		if !ok {
 			return nil, newErrNotSupportedClause(ctx)
 		}
-		for _, columnConst := range ctx.Column_def().AllColumn_constraint() {
-			if columnConst.Primary_key_constraint() != nil {
-				return nil, newErrNotSupportedClause(ctx)
-			}
+		if isPrimaryKeyColumn(ctx.Column_def()) {
+			return nil, newErrNotSupportedClause(ctx)
 		}
 		opts = append(opts, query.WithAlterTableAddColumn(column))
 	}
@@ -434,10 +432,8 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 			return nil, newErrNotSupportedClause(columDef)
 		}
 		// Primary key definition for column constraint.
-		for _, columnConst := range columDef.AllColumn_constraint() {
-			if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
-				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
-			}
+		if isPrimaryKeyColumn(columDef) {
+			indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
 		}
 		columns = append(columns, column)
 	}
@@ -492,6 +488,21 @@ func isCheckConstraint(ctx antlr.IColumn_defContext) bool {
 	return false
 }
 
+// isPrimaryKeyColumn returns true whether the column definition declares the column to be the primary key.
+func isPrimaryKeyColumn(ctx antlr.IColumn_defContext) bool {
+	for _, columnConst := range ctx.AllColumn_constraint() {
+		if columnConst.Primary_key_constraint() != nil {
+			return true
+		}
+	}
+	// The grammar takes the PRIMARY KEY of a column without a data type for the data type.
+	if typ := ctx.Type_name(); typ != nil {
+		names := typ.AllName()
+		return 1 < len(names) && strings.EqualFold(names[0].GetText(), "PRIMARY") && strings.EqualFold(names[1].GetText(), "KEY")
+	}
+	return false
+}
+
 func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 	// Column name
 
-- 
2.43.0


From 61c90dbc00f5095467aee1dba6844a615f6e8324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 56/69] fix: execute functions with the value of a literal
 argument, and refuse arguments that are neither column nor literal

---
 sql/fn/executor_impl.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sql/fn/executor_impl.go b/sql/fn/executor_impl.go
index 129337c..98b36a1 100644
--- a/sql/fn/executor_impl.go
+++ b/sql/fn/executor_impl.go
@@ -16,6 +16,9 @@ package fn
 
 import (
 	"fmt"
+	"strconv"
+
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 // ExecutorFunc is a function type that takes any number of arguments and returns a value and an error.
@@ -100,7 +103,11 @@ func (ex *execImpl) ExecuteMap(m map[string]any) (any, error) {
 	for _, arg := range ex.args {
 		v, ok := m[arg]
 		if !ok {
-			v = arg
+			var err error
+			v, err = newLiteralArgumentWith(arg)
+			if err != nil {
+				return nil, err
+			}
 		}
 		row = append(row, v)
 	}
@@ -124,3 +131,21 @@ func (ex *execImpl) Execute(v any) (any, error) {
 		return ex.fn(v)
 	}
 }
+
+// newLiteralArgumentWith returns the value of the specified argument which is not a column, but a literal.
+func newLiteralArgumentWith(arg string) (any, error) {
+	if s := strings.UnEscapeString(arg); strings.EscapeString(s) == arg {
+		return s, nil
+	}
+	switch strings.ToUpper(arg) {
+	case "NULL":
+		return nil, nil
+	case "TRUE", "FALSE":
+		return arg, nil
+	}
+	// A number ends with a digit or a point, unlike Inf and NaN.
+	if _, err := strconv.ParseFloat(arg, 64); err != nil || '9' < arg[len(arg)-1] {
+		return nil, fmt.Errorf("argument (%s) %w", arg, ErrNotFound)
+	}
+	return arg, nil
+}
-- 
2.43.0


From 4d4ffcdaf0d58da48638f666ac9a13ada92b0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 57/69] fix: refuse unknown columns beside aggregate functions
 in a result set

---
 sql/query/response/resultset/resultset_aggr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index a810ad1..09ceb21 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -111,11 +111,14 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 	// Generate a new schema for the aggregated result set
 
 	rsSchema := srcRs.Schema()
-	aggrSchema := NewSchema(
+	aggrSchema, err := NewSchemaFrom(
 		WithSchemaDatabaseName(rsSchema.DatabaseName()),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	// Generate a new aggregated rows
 
-- 
2.43.0


From bd920af10fc05e4efb1f3df1dda1161c58e56423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 58/69] fix: refuse a statement in place of the data type of a
 column

---
 sql/parser/sqlite/parser_antlr_visitor.go | 32 ++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index f14a1b4..5447526 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -79,7 +79,7 @@ func isReservedKeyword(tokenType int) bool {
 func checkReservedNames(tree go_antlr.Tree) error {
 	switch ctx := tree.(type) {
 	case antlr.IType_nameContext:
-		return nil // SET is a data type.
+		return checkTypeNames(ctx)
 	case antlr.IAny_nameContext:
 		if keyword := ctx.Keyword(); keyword != nil && isReservedKeyword(keyword.GetStart().GetTokenType()) {
 			return fmt.Errorf("reserved word %s is not a name", keyword.GetText())
@@ -93,6 +93,36 @@ func checkReservedNames(tree go_antlr.Tree) error {
 	return nil
 }
 
+// isStatementKeyword returns true whether the keyword begins a statement.
+func isStatementKeyword(tokenType int) bool {
+	switch tokenType {
+	case antlr.SQLiteParserALTER_, antlr.SQLiteParserANALYZE_, antlr.SQLiteParserATTACH_, antlr.SQLiteParserBEGIN_,
+		antlr.SQLiteParserCOMMIT_, antlr.SQLiteParserCREATE_, antlr.SQLiteParserDELETE_, antlr.SQLiteParserDETACH_,
+		antlr.SQLiteParserDROP_, antlr.SQLiteParserEND_, antlr.SQLiteParserEXPLAIN_, antlr.SQLiteParserINSERT_,
+		antlr.SQLiteParserPRAGMA_, antlr.SQLiteParserREINDEX_, antlr.SQLiteParserRELEASE_, antlr.SQLiteParserREPLACE_,
+		antlr.SQLiteParserROLLBACK_, antlr.SQLiteParserSAVEPOINT_, antlr.SQLiteParserSELECT_, antlr.SQLiteParserUPDATE_, antlr.SQLiteParserVACUUM_:
+		return true
+	}
+	return false
+}
+
+// checkTypeNames returns an error if a data type begins with a word of a clause or holds the beginning of another
+// statement. The grammar takes any words for a data type, and would read the statement after a column without a data
+// type as its data type.
+func checkTypeNames(ctx antlr.IType_nameContext) error {
+	for n, name := range ctx.AllName() {
+		switch tokenType := name.GetStart().GetTokenType(); tokenType {
+		case antlr.SQLiteParserSET_, antlr.SQLiteParserNOT_:
+			// SET is a data type, and NOT NULL is a part of a data type which an unknown word ends.
+		default:
+			if isStatementKeyword(tokenType) || (n == 0 && isReservedKeyword(tokenType)) {
+				return fmt.Errorf("reserved word %s is not a data type", name.GetText())
+			}
+		}
+	}
+	return nil
+}
+
 func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
-- 
2.43.0


From 18ba9cb48c14d4f4d1aedce6be4b836c9935c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 59/69] fix: refuse conditions on other columns in information
 schema queries

---
 sql/system/schema_columns_stmt_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index d19f8dc..a72f700 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -138,6 +138,8 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 				stmt.dbName = value
 			case strings.EqualFold(name, SchemaColumnsTableName):
 				stmt.tblNames = append(stmt.tblNames, value)
+			default:
+				return newErrInvalidQuery(stmt.stmt.String())
 			}
 			return nil
 		}
-- 
2.43.0


From fdab4a6d695434349cde6e3d61fdf36350699603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:32 +0000
Subject: [PATCH 60/69] fix: keep bound values apart from the words next to
 their placeholders

---
 sql/stmt/bind_impl.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 55ddf5e..8651357 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -118,11 +118,15 @@ func (stmt *bindStmt) bind() (string, error) {
 			pos = end
 			continue
 		}
-		if 0 < pos && q[pos-1] == '-' {
-			// A negative number just after a minus sign must not be a comment.
+		// A negative number just after a minus sign must not be a comment, and a value must not become a part of the
+		// word, number or string next to its placeholder.
+		if n := bound.Len(); 0 < n && (bound.String()[n-1] == '-' || isJoiningChar(bound.String()[n-1])) {
 			bound.WriteByte(' ')
 		}
 		bound.WriteString(values[param])
+		if end < len(q) && isJoiningChar(q[end]) {
+			bound.WriteByte(' ')
+		}
 		isBound[param] = true
 		pos = end
 	}
@@ -136,6 +140,15 @@ func (stmt *bindStmt) bind() (string, error) {
 	return bound.String(), nil
 }
 
+// isJoiningChar returns true whether the character would join a literal next to it.
+func isJoiningChar(c byte) bool {
+	switch {
+	case 'a' <= c && c <= 'z', 'A' <= c && c <= 'Z', '0' <= c && c <= '9', 0x80 <= c:
+		return true
+	}
+	return strings.IndexByte("_.'\"`", c) != -1
+}
+
 // skipQuotedText returns the end position of the quoted text or comment at the specified position.
 // It returns the specified position when there is no quoted text or comment.
 func skipQuotedText(q string, pos int) int {
-- 
2.43.0


From 16477a526b5208b502c5674b3eb96a7087886fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:04 +0000
Subject: [PATCH 61/69] fix: print the index that an ALTER TABLE drops

---
 sql/query/alter_table.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/query/alter_table.go b/sql/query/alter_table.go
index f394e2a..72f0a72 100644
--- a/sql/query/alter_table.go
+++ b/sql/query/alter_table.go
@@ -228,5 +228,13 @@ func (stmt *alterTableStmt) String() string {
 				c.Name(),
 			}...)
 	}
+	if i, ok := stmt.DropIndex(); ok {
+		elems = append(elems,
+			[]string{
+				"DROP",
+				"INDEX",
+				i.Name(),
+			}...)
+	}
 	return strings.JoinWithSpace(elems)
 }
-- 
2.43.0


From 85d0b57bafea5f4e784e1200b5f83a9a0a0e07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:58 +0000
Subject: [PATCH 62/69] fix: refuse LIMIT 0, which a statement holds as no
 limit

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 5447526..a8d0c95 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -774,6 +774,10 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 			if err := safecast.ToUint(limits[0].GetText(), &limit); err != nil {
 				return nil, newErrNotSupportedClause(ctx)
 			}
+			if limit == 0 {
+				// A limit of zero stands for no limit in the statement.
+				return nil, newErrNotSupportedClause(ctx)
+			}
 			var offset uint
 			if 1 < len(limits) {
 				if err := safecast.ToUint(limits[1].GetText(), &offset); err != nil {
-- 
2.43.0


From 38690fcc6edffc4e47a3e7a52458765c0d989b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:08 +0000
Subject: [PATCH 63/69] fix: refuse values out of the range of a BIGINT column
 instead of wrapping them

---
 sql/query/column.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 0dd69ff..11aab43 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -15,8 +15,10 @@
 package query
 
 import (
+	"errors"
 	"fmt"
 	"math"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -216,6 +218,9 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		if err := safecast.ToInt64(col.v, &v); err != nil {
 			return err
 		}
+		if !isInt64Range(col.v) {
+			return fmt.Errorf("value (%v) is out of range: %w", col.v, ErrInvalid)
+		}
 		col.Literal.SetValue(v)
 	case FloatType:
 		var v float32
@@ -246,6 +251,26 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 	return nil
 }
 
+// isInt64Range returns false if the specified text or floating point number is out of the int64 range.
+func isInt64Range(v any) bool {
+	switch v := v.(type) {
+	case []byte:
+		return isInt64Range(string(v))
+	case string:
+		_, err := strconv.ParseInt(v, 10, 64)
+		if err == nil {
+			return true
+		}
+		f, ferr := strconv.ParseFloat(v, 64)
+		return !errors.Is(err, strconv.ErrRange) && (ferr != nil || isInt64Range(f))
+	case float32:
+		return isInt64Range(float64(v))
+	case float64:
+		return math.MinInt64 <= v && v < math.MaxInt64
+	}
+	return true
+}
+
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
 	cpCol := *col
-- 
2.43.0


From 296612846f4a8049cc649239cde9604a40730efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:00 +0000
Subject: [PATCH 64/69] fix: bind a pointer to a time as the time

---
 sql/stmt/bind_param_impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index cba6be5..cc1ebae 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -54,6 +54,9 @@ func (p *bindParam) String() (string, error) {
 	if v.Kind() == reflect.Pointer && v.IsNil() {
 		return "NULL", nil
 	}
+	if t, ok := p.v.(*time.Time); ok {
+		return NewBindParam(*t).String()
+	}
 	if s, ok := p.v.(fmt.Stringer); ok {
 		return strings.EscapeString(s.String()), nil
 	}
-- 
2.43.0


From 392808e493f3469ec5bce8cb4a7aafe7511d990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:49 +0000
Subject: [PATCH 65/69] fix: refuse a limit or offset with a fraction instead
 of cutting it off

---
 sql/parser/sqlite/parser_antlr_visitor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a8d0c95..644cd14 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -765,6 +765,14 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 
 	if ctx := ctx.Limit_stmt(); ctx != nil {
 		limits := ctx.AllExpr()
+		for _, expr := range limits {
+			var n uint
+			var v float64
+			if safecast.ToUint(expr.GetText(), &n) == nil && safecast.ToFloat64(expr.GetText(), &v) == nil && v != float64(n) {
+				// A limit or an offset is a whole number.
+				return nil, newErrNotSupportedClause(ctx)
+			}
+		}
 		if ctx.COMMA() != nil && len(limits) == 2 {
 			// LIMIT offset, limit
 			limits[0], limits[1] = limits[1], limits[0]
-- 
2.43.0


From a20c0d085c22b55753ce8a26476c2e38268d4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:49 +0000
Subject: [PATCH 66/69] fix: refuse contradictory databases and NULL in a query
 of the schema columns

---
 sql/system/schema_columns_stmt_impl.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index a72f700..d7e132d 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -110,6 +110,7 @@ func (stmt *schemaColumnsStatement) generateSelectStatement() error {
 }
 
 func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
+	hasDBName := false
 	var traverseExpr func(expr query.Expr) error
 	traverseExpr = func(expr query.Expr) error {
 		switch e := expr.(type) {
@@ -129,13 +130,21 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 			var value string
 			switch v := e.Right().Value().(type) {
 			case string:
+				if e.Right().ValueType() != query.StringLiteral && strings.EqualFold(v, "NULL") {
+					return newErrInvalidQuery(stmt.stmt.String())
+				}
 				value = v
 			default:
 				return newErrInvalidQuery(stmt.stmt.String())
 			}
 			switch {
 			case strings.EqualFold(name, SchemaColumnsSchema):
+				if hasDBName && stmt.dbName != value {
+					// No column is in two databases.
+					return newErrInvalidQuery(stmt.stmt.String())
+				}
 				stmt.dbName = value
+				hasDBName = true
 			case strings.EqualFold(name, SchemaColumnsTableName):
 				stmt.tblNames = append(stmt.tblNames, value)
 			default:
-- 
2.43.0


From 9f9a5633f6a1940823a64646794b8f86ce05b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:49 +0000
Subject: [PATCH 67/69] fix: read and aggregate a result set that has no schema

---
 sql/query/response/resultset/resultset_aggr.go | 10 ++++++----
 sql/query/response/resultset/resultset_impl.go |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index 09ceb21..76ab5aa 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -110,12 +110,14 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 
 	// Generate a new schema for the aggregated result set
 
-	rsSchema := srcRs.Schema()
-	aggrSchema, err := NewSchemaFrom(
-		WithSchemaDatabaseName(rsSchema.DatabaseName()),
+	schemaOpts := []SchemaOption{
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
-	)
+	}
+	if rsSchema := srcRs.Schema(); rsSchema != nil {
+		schemaOpts = append(schemaOpts, WithSchemaDatabaseName(rsSchema.DatabaseName()))
+	}
+	aggrSchema, err := NewSchemaFrom(schemaOpts...)
 	if err != nil {
 		return nil, err
 	}
diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index d5fa302..7ebf979 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -144,6 +144,9 @@ func (rs *resultset) Row() (Row, error) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
+	if rs.schema == nil {
+		return row, nil
+	}
 	return NewRowFromObject(rs.schema, row.Object())
 }
 
-- 
2.43.0


From c7b94cbded61a444855a4cc0735b9b3c695feead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:49 +0000
Subject: [PATCH 68/69] fix: remove and update a connection by the ID it is
 registered under

---
 sql/net/conn_manager_impl.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index bf6feba..b99a76c 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -68,7 +68,7 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 		return newErrConnNotExists(uuid.String())
 	}
 	uid := from.ID()
-	if _, ok := cm.uidMap[uid]; !ok {
+	if c, ok := cm.uidMap[uid]; !ok || c.UUID() != uuid {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
@@ -125,11 +125,13 @@ func (cm *mgr) RemoveConn(conn Conn) error {
 
 // removeConn deletes the specified connection from the maps. The caller must hold the lock.
 func (cm *mgr) removeConn(conn Conn) {
-	if _, ok := cm.m[conn.UUID()]; !ok {
+	// The specified connection may have another ID than the connection which was added or updated with the same UUID.
+	c, ok := cm.m[conn.UUID()]
+	if !ok {
 		return
 	}
-	delete(cm.uidMap, conn.ID())
-	delete(cm.m, conn.UUID())
+	delete(cm.uidMap, c.ID())
+	delete(cm.m, c.UUID())
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
-- 
2.43.0


From f9c1b5ed32b799adf2395e6a857cbf6df17a586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:49 +0000
Subject: [PATCH 69/69] fix: keep a connection that replaced another while the
 registry closed it

---
 sql/net/conn_manager_impl.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index b99a76c..fe5f223 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -134,6 +134,15 @@ func (cm *mgr) removeConn(conn Conn) {
 	delete(cm.m, c.UUID())
 }
 
+// removeClosedConn deletes the closed connection from the maps unless it was updated with another connection.
+func (cm *mgr) removeClosedConn(conn Conn) {
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	if c, ok := cm.m[conn.UUID()]; ok && c == conn {
+		cm.removeConn(conn)
+	}
+}
+
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
 	cm.mutex.Lock()
@@ -168,9 +177,7 @@ func (cm *mgr) Close() error {
 	for _, conn := range conns {
 		err := conn.Close()
 		if err == nil {
-			if err := cm.RemoveConn(conn); err != nil {
-				errs = errors.Join(errs, err)
-			}
+			cm.removeClosedConn(conn)
 		} else {
 			errs = errors.Join(errs, err)
 		}
-- 
2.43.0

