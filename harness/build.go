package harness

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

func buildLit(l Lit) *query.Literal {
	if l.Str {
		return query.NewLiteralWith(l.Val, query.WithLiteralType(query.StringLiteral))
	}
	return query.NewLiteralWith(l.Val)
}

func buildCols(names []string) query.Columns {
	cols := query.NewColumns()
	for _, n := range names {
		cols = append(cols, query.NewColumnWithName(n))
	}
	return cols
}

func buildDef(c Col) (query.Column, error) {
	if c.Type == "" {
		return query.NewColumnWithOptions(query.WithColumnName(c.Name), query.WithColumnData(query.NewUnknownDataDef())), nil
	}
	dt, err := query.NewDataTypeFromString(c.Type)
	if err != nil {
		return nil, err
	}
	n := c.Len
	if n == 0 {
		n = -1
	}
	return query.NewColumnWithOptions(query.WithColumnName(c.Name), query.WithColumnData(query.NewDataDef(dt, n))), nil
}

func buildIdx(i Idx) query.Index {
	if i.Type == "PRIMARY KEY" {
		return query.NewPrimaryIndexWith(buildCols(i.Cols))
	}
	return query.NewSecondaryIndexWith(i.Name, buildCols(i.Cols))
}

func buildExpr(c *Cond) query.Expr {
	switch c.Op {
	case "AND":
		return query.NewAndExpr(buildExpr(c.Left), buildExpr(c.Right))
	case "OR":
		return query.NewOrExpr(buildExpr(c.Left), buildExpr(c.Right))
	}
	col, lit := query.NewColumnWithName(c.Col), buildLit(*c.Lit)
	switch c.Op {
	case "=":
		return query.NewEQWith(col, lit)
	case "!=":
		return query.NewNEQWith(col, lit)
	case "<":
		return query.NewLTWith(col, lit)
	case ">":
		return query.NewGTWith(col, lit)
	case "<=":
		return query.NewLEWith(col, lit)
	}
	return query.NewGEWith(col, lit)
}

func buildWhere(c *Cond) query.Condition {
	if c == nil {
		return query.NewCondition()
	}
	return query.NewConditionWith(buildExpr(c))
}

// buildTable makes a table from a qualified name, with the schema apart or not.
func buildTable(t *rapid.T, name string) query.Table {
	if s, n, ok := strings.Cut(name, "."); ok && chance(t, 50) {
		return query.NewTableWith(n, query.WithTableSchema(s))
	}
	return query.NewTableWith(name)
}

func buildTables(t *rapid.T, names []string) query.TableList {
	tbls := query.NewTables()
	for _, n := range names {
		tbls = append(tbls, buildTable(t, n))
	}
	return tbls
}

// build makes a statement with the constructors of the query package.
func build(t *rapid.T, m Stmt) (query.Statement, error) {
	switch m.Kind {
	case "CREATE DATABASE":
		return query.NewCreateDatabaseWith(m.Name, query.NewIfNotExistsWith(m.IfOpt)), nil
	case "DROP DATABASE":
		return query.NewDropDatabaseWith(m.Name, query.NewIfExistsWith(m.IfOpt)), nil
	case "ALTER DATABASE":
		return query.NewAlterDatabaseWith(m.Name, m.To), nil
	case "CREATE TABLE":
		cols, idxs := query.NewColumns(), query.NewIndexes()
		for _, c := range m.Cols {
			col, err := buildDef(c)
			if err != nil {
				return nil, err
			}
			cols = append(cols, col)
		}
		for _, i := range m.Idxs {
			idxs = append(idxs, buildIdx(i))
		}
		schema := query.NewSchemaWith(m.Full, query.WithSchemaColumns(cols), query.WithSchemaIndexes(idxs))
		return query.NewCreateTableWith(schema, query.NewIfNotExistsWith(m.IfOpt)), nil
	case "CREATE INDEX":
		schema := query.NewSchemaWith(m.Name, query.WithSchemaIndexes(query.Indexes{buildIdx(*m.AddIdx)}))
		return query.NewCreateIndexWith(schema, query.NewIfNotExistsWith(m.IfOpt)), nil
	case "DROP INDEX":
		return query.NewDropIndexWith(m.Name, m.Drop, query.NewIfExistsWith(m.IfOpt)), nil
	case "DROP TABLE":
		return query.NewDropTableWith(buildTables(t, m.Tables), query.NewIfExistsWith(m.IfOpt)), nil
	case "TRUNCATE":
		return query.NewTruncateWith(buildTables(t, m.Tables)), nil
	case "ALTER TABLE":
		opts := []query.AlterTableOption{}
		switch {
		case m.From != "":
			opts = append(opts, query.WithAlterTableRenameColumn(query.NewColumnWithName(m.From), query.NewColumnWithName(m.To)))
		case m.To != "":
			opts = append(opts, query.WithAlterTableRenameTo(query.NewTableWith(m.To)))
		case m.Add != nil:
			col, err := buildDef(*m.Add)
			if err != nil {
				return nil, err
			}
			opts = append(opts, query.WithAlterTableAddColumn(col))
		case m.AddIdx != nil:
			opts = append(opts, query.WithAlterTableAddIndex(buildIdx(*m.AddIdx)))
		default:
			opts = append(opts, query.WithAlterTableDropColumn(query.NewColumnWithName(m.Drop)))
		}
		if s, _, ok := strings.Cut(m.Full, "."); ok {
			opts = append(opts, query.WithAlterTableSchema(s))
		}
		return query.NewAlterTableWith(m.Name, opts...), nil
	case "INSERT":
		rows := []query.Columns{}
		for _, r := range m.Rows {
			cols := query.NewColumns()
			for _, c := range r {
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(c.Name), query.WithColumnLiteral(buildLit(c.Val))))
			}
			rows = append(rows, cols)
		}
		return query.NewInsertWith(buildTable(t, m.Name), rows), nil
	case "UPDATE":
		cols := query.NewColumns()
		for _, c := range m.Cols {
			if c.Op == "" {
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(c.Name), query.WithColumnLiteral(buildLit(*c.Val))))
				continue
			}
			ex, err := fn.NewExecutorForName(c.Op)
			if err != nil {
				return nil, err
			}
			cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(c.Name), query.WithColumnFunctionExecutor(ex), query.WithColumnArguments(c.Args)))
		}
		return query.NewUpdateWith(buildTable(t, m.Name), cols, buildWhere(m.Where)), nil
	case "DELETE":
		return query.NewDeleteWith(buildTable(t, m.Name), buildWhere(m.Where)), nil
	case "SELECT":
		sels := query.NewSelectors()
		for _, s := range m.Sels {
			if !s.Func {
				sels = append(sels, query.NewColumnWithName(s.Name))
				continue
			}
			args := []fn.Argument{}
			for _, a := range s.Args {
				args = append(args, fn.NewArgumentWith(a))
			}
			sels = append(sels, fn.NewFunction(fn.WithFunctionName(s.Name), fn.WithFunctionArguments(args...)))
		}
		opts := []query.SelectOption{}
		if m.Distinct {
			opts = append(opts, query.WithSelectDistinct())
		}
		if m.Group != "" {
			opts = append(opts, query.WithSelectGroupBy(m.Group))
		}
		if len(m.Orders) > 0 {
			orders := []query.Order{}
			for _, o := range m.Orders {
				ot := query.OrderAsc
				if o.Desc {
					ot = query.OrderDesc
				}
				orders = append(orders, query.NewOrderWith(o.Name, ot))
			}
			opts = append(opts, query.WithSelectOrderBy(query.NewOrderByWith(orders)))
		}
		if m.Limit > 0 {
			opts = append(opts, query.WithSelectLimit(m.Offset, m.Limit))
		}
		return query.NewSelectWith(sels, buildTables(t, m.Tables), buildWhere(m.Where), opts...), nil
	case "COPY":
		opts := []query.CopyOption{query.WithCopyFormat(m.Format)}
		if len(m.Names) > 0 {
			opts = append(opts, query.WithCopyColumns(buildCols(m.Names)...))
		}
		return query.NewCopyWith(m.Name, m.From, opts...), nil
	case "VACUUM":
		if m.Name == "" {
			return query.NewVacuum(), nil
		}
		return query.NewVacuumWith(query.NewTableWith(m.Name)), nil
	case "USE":
		return query.NewUseWith(m.Name), nil
	case "BEGIN":
		return query.NewBegin(), nil
	case "COMMIT":
		return query.NewCommit(), nil
	case "ROLLBACK":
		return query.NewRollback(), nil
	}
	return nil, fmt.Errorf("unknown kind %s", m.Kind)
}
