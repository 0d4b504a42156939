package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// ----------------------------------------------------------------------- model

// Stmt is the reference model of a statement: what the SQL text says.
type Stmt struct {
	Kind     string
	Name     string   `json:",omitempty"` // table, database or index name
	Full     string   `json:",omitempty"` // qualified table name, where the API has it
	IfOpt    bool     `json:",omitempty"` // IF [NOT] EXISTS
	Tables   []string `json:",omitempty"`
	Cols     []Col    `json:",omitempty"` // column definitions or assignments
	Idxs     []Idx    `json:",omitempty"`
	Names    []string `json:",omitempty"` // column name list
	Rows     [][]Cell `json:",omitempty"`
	Sels     []Sel    `json:",omitempty"`
	Where    *Cond    `json:",omitempty"`
	Group    string   `json:",omitempty"`
	Distinct bool     `json:",omitempty"`
	Orders   []Ord    `json:",omitempty"`
	Limit    uint     `json:",omitempty"`
	Offset   uint     `json:",omitempty"`
	To       string   `json:",omitempty"` // rename target
	From     string   `json:",omitempty"` // renamed column or COPY source
	Format   string   `json:",omitempty"`
	Drop     string   `json:",omitempty"`
	Add      *Col     `json:",omitempty"`
	AddIdx   *Idx     `json:",omitempty"`
}

// Col is a column definition (Type, Len) or an assignment (Val or Op and Args).
type Col struct {
	Name string
	Type string   `json:",omitempty"`
	Len  int      `json:",omitempty"`
	Val  *Lit     `json:",omitempty"`
	Op   string   `json:",omitempty"`
	Args []string `json:",omitempty"`
}

// Idx is an index definition.
type Idx struct {
	Name string
	Type string
	Cols []string
}

// Cell is an inserted value.
type Cell struct {
	Name string `json:",omitempty"`
	Val  Lit
}

// Sel is a selector.
type Sel struct {
	Name string
	Func bool     `json:",omitempty"`
	Args []string `json:",omitempty"`
}

// Ord is an ORDER BY term.
type Ord struct {
	Name string
	Desc bool
}

// Cond is a condition.
type Cond struct {
	Op    string // = != < > <= >= AND OR RAW
	Col   string `json:",omitempty"`
	Lit   *Lit   `json:",omitempty"`
	Left  *Cond  `json:",omitempty"`
	Right *Cond  `json:",omitempty"`
	Raw   string `json:",omitempty"`
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

func sameStmt(a, b Stmt) bool { return reflect.DeepEqual(norm(a), norm(b)) }

// norm makes empty and nil lists equal.
func norm(s Stmt) string { return js(s) }

// -------------------------------------------------------------------- extractor

func litOf(v any, lt query.LiteralType) Lit {
	if v == nil {
		return Lit{"NULL", false}
	}
	return Lit{fmt.Sprint(v), lt == query.StringLiteral}
}

func condOf(e query.Expr) (*Cond, error) {
	switch e := e.(type) {
	case nil:
		return nil, nil
	case *query.CmpExpr:
		if e == nil {
			return nil, fmt.Errorf("nil comparison")
		}
		ops := map[query.CmpExprOperator]string{query.EQ: "=", query.NEQ: "!=", query.LT: "<", query.GT: ">", query.LE: "<=", query.GE: ">="}
		op, ok := ops[e.Operator()]
		if !ok {
			return nil, fmt.Errorf("unknown operator %v", e.Operator())
		}
		if e.Left() == nil || e.Right() == nil {
			return nil, fmt.Errorf("comparison without operands: %v %v", e.Left(), e.Right())
		}
		l := litOf(e.Right().Value(), e.Right().ValueType())
		return &Cond{Op: op, Col: e.Left().Name(), Lit: &l}, nil
	case *query.AndExpr:
		l, err := condOf(e.Left())
		if err != nil {
			return nil, err
		}
		r, err := condOf(e.Right())
		if err != nil {
			return nil, err
		}
		return &Cond{Op: "AND", Left: l, Right: r}, nil
	case *query.OrExpr:
		l, err := condOf(e.Left())
		if err != nil {
			return nil, err
		}
		r, err := condOf(e.Right())
		if err != nil {
			return nil, err
		}
		return &Cond{Op: "OR", Left: l, Right: r}, nil
	}
	// An expression with no type of its own is known by its text.
	return &Cond{Op: "RAW", Raw: e.String()}, nil
}

func whereOf(w query.Condition) (*Cond, error) {
	if w == nil {
		return nil, nil
	}
	if w.HasConditions() != (w.Expr() != nil) {
		return nil, fmt.Errorf("HasConditions() = %v with expression %v", w.HasConditions(), w.Expr())
	}
	if w.Expr() == nil {
		return nil, nil
	}
	return condOf(w.Expr())
}

func colDefOf(c query.Column) Col {
	col := Col{Name: c.Name(), Type: c.DataType().String()}
	if n := c.DataTypeSize(); n > 0 {
		col.Len = n
	}
	return col
}

func idxOf(i query.Index) Idx {
	return Idx{Name: i.Name(), Type: i.Type().String(), Cols: append([]string{}, i.Columns().Names()...)}
}

func assignOf(c query.Column) (Col, error) {
	col := Col{Name: c.Name()}
	if fx, ok := c.Function(); ok {
		ex, err := fx.Executor()
		if err != nil {
			return col, err
		}
		col.Op = ex.Name()
		for _, a := range c.Arguments() {
			col.Args = append(col.Args, fmt.Sprint(a))
		}
		return col, nil
	}
	if !c.HasValue() {
		return col, fmt.Errorf("assignment of %s has no value", c.Name())
	}
	l := litOf(c.Value(), c.ValueType())
	col.Val = &l
	return col, nil
}

func selOf(s query.Selector) (Sel, error) {
	sel := Sel{Name: s.Name()}
	if fx, ok := s.Function(); ok {
		if !s.IsFunction() {
			return sel, fmt.Errorf("selector %s has a function but IsFunction is false", s.Name())
		}
		sel.Name = strings.ToUpper(fx.Name())
		sel.Func = true
		for _, a := range fx.Arguments() {
			sel.Args = append(sel.Args, a.String())
		}
	}
	return sel, nil
}

// extract reads a statement through its public interface.
func extract(s query.Statement) (out Stmt, err error) {
	out.Kind = s.StatementType().String()
	switch s.StatementType() {
	case query.CreateDatabaseStatement:
		x, ok := s.(query.CreateDatabase)
		if !ok {
			return out, fmt.Errorf("%T is not a CreateDatabase", s)
		}
		out.Name, out.IfOpt = x.DatabaseName(), x.IfNotExists()
	case query.DropDatabaseStatement:
		x, ok := s.(query.DropDatabase)
		if !ok {
			return out, fmt.Errorf("%T is not a DropDatabase", s)
		}
		out.Name, out.IfOpt = x.DatabaseName(), x.IfExists()
	case query.AlterDatabaseStatement:
		x, ok := s.(query.AlterDatabase)
		if !ok {
			return out, fmt.Errorf("%T is not an AlterDatabase", s)
		}
		out.Name, out.To = x.DatabaseName(), x.RenameTo().DatabaseName()
	case query.CreateTableStatement:
		x, ok := s.(query.CreateTable)
		if !ok {
			return out, fmt.Errorf("%T is not a CreateTable", s)
		}
		out.Name, out.Full, out.IfOpt = x.TableName(), x.Schema().FullTableName(), x.IfNotExists()
		for _, c := range x.Schema().Columns() {
			out.Cols = append(out.Cols, colDefOf(c))
		}
		for _, i := range x.Schema().Indexes() {
			out.Idxs = append(out.Idxs, idxOf(i))
		}
	case query.CreateIndexStatement:
		x, ok := s.(query.CreateIndex)
		if !ok {
			return out, fmt.Errorf("%T is not a CreateIndex", s)
		}
		out.Name, out.IfOpt = x.TableName(), x.IfNotExists()
		if x.Index() == nil {
			return out, fmt.Errorf("CREATE INDEX without an index")
		}
		i := idxOf(x.Index())
		out.AddIdx = &i
	case query.DropIndexStatement:
		x, ok := s.(query.DropIndex)
		if !ok {
			return out, fmt.Errorf("%T is not a DropIndex", s)
		}
		out.Name, out.Drop, out.IfOpt = x.TableName(), x.IndexName(), x.IfExists()
		if x.Index() == nil || x.Index().Name() != x.IndexName() {
			return out, fmt.Errorf("DROP INDEX: index %v, name %s", x.Index(), x.IndexName())
		}
	case query.DropTableStatement:
		x, ok := s.(query.DropTable)
		if !ok {
			return out, fmt.Errorf("%T is not a DropTable", s)
		}
		out.IfOpt = x.IfExists()
		out.Tables = append(out.Tables, x.TableNames()...)
		if len(x.Tables()) != len(out.Tables) {
			return out, fmt.Errorf("DROP TABLE: %d tables, %d names", len(x.Tables()), len(out.Tables))
		}
	case query.TruncateStatement:
		x, ok := s.(query.Truncate)
		if !ok {
			return out, fmt.Errorf("%T is not a Truncate", s)
		}
		out.Tables = append(out.Tables, x.TableNames()...)
		if len(x.Tables()) != len(out.Tables) {
			return out, fmt.Errorf("TRUNCATE: %d tables, %d names", len(x.Tables()), len(out.Tables))
		}
	case query.AlterTableStatement:
		x, ok := s.(query.AlterTable)
		if !ok {
			return out, fmt.Errorf("%T is not an AlterTable", s)
		}
		out.Name = x.TableName()
		if f, ok := s.(interface{ FullTableName() string }); ok {
			out.Full = f.FullTableName()
		}
		if to, ok := x.RenameTo(); ok {
			out.To = to.FullTableName()
		}
		if f, to, ok := x.RenameColumns(); ok {
			out.From, out.To = f.Name(), to.Name()
		}
		if c, ok := x.AddColumn(); ok {
			def := colDefOf(c)
			out.Add = &def
		}
		if c, ok := x.DropColumn(); ok {
			out.Drop = c.Name()
		}
		if i, ok := x.AddIndex(); ok {
			def := idxOf(i)
			out.AddIdx = &def
		}
		if i, ok := x.DropIndex(); ok {
			out.Drop = "INDEX " + i.Name()
		}
	case query.InsertStatement:
		x, ok := s.(query.Insert)
		if !ok {
			return out, fmt.Errorf("%T is not an Insert", s)
		}
		out.Name = x.TableName()
		for _, row := range x.Values() {
			cells := []Cell{}
			for _, c := range row {
				if !c.HasValue() {
					return out, fmt.Errorf("INSERT: column %q has no value", c.Name())
				}
				cells = append(cells, Cell{c.Name(), litOf(c.Value(), c.ValueType())})
			}
			out.Rows = append(out.Rows, cells)
		}
		if len(out.Rows) > 0 {
			// The columns of the statement are those of its first row.
			if got, want := x.Columns().Names(), x.Values()[0].Names(); !reflect.DeepEqual(got, want) {
				return out, fmt.Errorf("INSERT: Columns() %v, first row %v", got, want)
			}
		}
	case query.UpdateStatement:
		x, ok := s.(query.Update)
		if !ok {
			return out, fmt.Errorf("%T is not an Update", s)
		}
		out.Name = x.TableName()
		for _, c := range x.Columns() {
			col, err := assignOf(c)
			if err != nil {
				return out, err
			}
			out.Cols = append(out.Cols, col)
		}
		if out.Where, err = whereOf(x.Where()); err != nil {
			return out, err
		}
	case query.DeleteStatement:
		x, ok := s.(query.Delete)
		if !ok {
			return out, fmt.Errorf("%T is not a Delete", s)
		}
		out.Name = x.TableName()
		if out.Where, err = whereOf(x.Where()); err != nil {
			return out, err
		}
		if x.HasConditions() != (out.Where != nil) {
			return out, fmt.Errorf("DELETE: HasConditions() = %v, condition %v", x.HasConditions(), out.Where)
		}
	case query.SelectStatement:
		x, ok := s.(query.Select)
		if !ok {
			return out, fmt.Errorf("%T is not a Select", s)
		}
		for _, sel := range x.Selectors() {
			m, err := selOf(sel)
			if err != nil {
				return out, err
			}
			out.Sels = append(out.Sels, m)
		}
		if d, ok := s.(interface{ IsDistinct() bool }); ok {
			out.Distinct = d.IsDistinct()
		}
		out.Tables = append(out.Tables, x.From().TableNames()...)
		if out.Where, err = whereOf(x.Where()); err != nil {
			return out, err
		}
		if g := x.GroupBy(); g != nil {
			out.Group = g.ColumnName()
		}
		for _, o := range x.OrderBy().Orders() {
			if o.IsAsc() == o.IsDesc() || o.IsNone() {
				return out, fmt.Errorf("ORDER BY %s: asc %v desc %v none %v", o.ColumnName(), o.IsAsc(), o.IsDesc(), o.IsNone())
			}
			out.Orders = append(out.Orders, Ord{o.ColumnName(), o.IsDesc()})
		}
		out.Limit, out.Offset = x.Limit().Limit(), x.Limit().Offset()
	case query.CopyStatement:
		x, ok := s.(query.Copy)
		if !ok {
			return out, fmt.Errorf("%T is not a Copy", s)
		}
		out.Name = x.TableName()
		out.Names = append(out.Names, x.Columns().Names()...)
		y, ok := s.(interface {
			Source() string
			Format() query.CopyFormat
		})
		if !ok {
			return out, fmt.Errorf("%T has no source and format", s)
		}
		out.From, out.Format = y.Source(), y.Format().String()
	case query.VacuumStatement:
		x, ok := s.(query.Vacuum)
		if !ok {
			return out, fmt.Errorf("%T is not a Vacuum", s)
		}
		out.Name = x.TableName()
		if x.Table() != nil {
			if x.Table().FullTableName() != out.Name {
				return out, fmt.Errorf("VACUUM: table %s, name %s", x.Table().FullTableName(), out.Name)
			}
		}
	case query.UseStatement:
		x, ok := s.(query.Use)
		if !ok {
			return out, fmt.Errorf("%T is not a Use", s)
		}
		out.Name = x.DatabaseName()
	case query.BeginStatement, query.CommitStatement, query.RollbackStatement:
	default:
		return out, fmt.Errorf("unknown statement type %d (%T)", s.StatementType(), s)
	}
	return out, nil
}

// ------------------------------------------------------------------------ tokens

// Tok is a token of generated SQL.
type Tok struct {
	S  string
	Kw bool // a keyword: its case does not matter
}

// Toks is a token list.
type Toks []Tok

func kw(words string) Toks {
	out := Toks{}
	for _, w := range strings.Fields(words) {
		out = append(out, Tok{w, true})
	}
	return out
}

func tk(s ...string) Toks {
	out := Toks{}
	for _, w := range s {
		out = append(out, Tok{w, false})
	}
	return out
}

func cat(parts ...Toks) Toks {
	out := Toks{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// commaList joins the parts by commas.
func commaList(parts []Toks) Toks {
	out := Toks{}
	for i, p := range parts {
		if i > 0 {
			out = append(out, Tok{",", false})
		}
		out = append(out, p...)
	}
	return out
}

func namesList(ns []Name) Toks {
	parts := []Toks{}
	for _, n := range ns {
		parts = append(parts, tk(n.Src))
	}
	return commaList(parts)
}

func paren(p Toks) Toks { return cat(tk("("), p, tk(")")) }

func isWord(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b >= 0x80
}

// glue tells whether no white space is needed between two tokens.
func glue(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	solid := func(s string) bool { return s == "(" || s == ")" || s == "," || s == ";" }
	if solid(a) || solid(b) {
		return true
	}
	if a == "." || b == "." {
		return true
	}
	op := func(s string) bool {
		switch s {
		case "=", "!=", "<>", "<", ">", "<=", ">=":
			return true
		}
		return false
	}
	if op(a) && (isWord(y) || y == '\'' || y == '"' || y == '`') {
		return true
	}
	if op(b) && (isWord(x) || x == '\'' || x == '"' || x == '`') {
		return true
	}
	return false
}

// canonical renders the tokens in the usual style.
func (ts Toks) canonical() string {
	var sb strings.Builder
	for i, tok := range ts {
		if i > 0 {
			p := ts[i-1].S
			switch {
			case p == "(" || p == "." || tok.S == ")" || tok.S == "," || tok.S == "." || tok.S == ";":
			default:
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(tok.S)
	}
	return sb.String()
}

// spaced renders the tokens separated by single spaces.
func (ts Toks) spaced() string {
	strs := make([]string, len(ts))
	for i, tok := range ts {
		strs[i] = tok.S
	}
	return strings.Join(strs, " ")
}

var fillers = []string{
	" ", "  ", "\t", "\n", "\r\n", " \n ", "\v", "/* c */", " /**/ ", "/* ' \" ; */", "/*--*/", "-- c\n", " -- it's; \r\n", "/* a\nb */", "--\n", "\n\n\n", "/***/", "/* SELECT */",
	"          ", "/* ? $1 */", "-- /* \n",
}

// layout renders the tokens with random white space, comments and keyword case.
func (ts Toks) layout(t *rapid.T, caseToo bool) string {
	var sb strings.Builder
	mode := uniform(t, 4)
	fill := func() string {
		if mode == 0 {
			return " "
		}
		s := pick(t, fillers...)
		for chance(t, 15) {
			s += pick(t, fillers...)
		}
		return s
	}
	if chance(t, 20) {
		sb.WriteString(fill())
	}
	for i, tok := range ts {
		if i > 0 {
			if glue(ts[i-1].S, tok.S) && chance(t, 50) {
			} else {
				f := fill()
				if p := ts[i-1].S; strings.ContainsAny(p[len(p)-1:], "-/*") && strings.ContainsAny(f[:1], "-/*") {
					f = " " + f
				}
				sb.WriteString(f)
			}
		}
		s := tok.S
		if tok.Kw && caseToo {
			s = randCase(t, s)
		}
		sb.WriteString(s)
	}
	if chance(t, 20) {
		sb.WriteString(fill())
	}
	return sb.String()
}

func randCase(t *rapid.T, s string) string {
	switch uniform(t, 4) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s[:1]) + strings.ToLower(s[1:])
	}
	b := []byte(s)
	for i := range b {
		if rapid.Bool().Draw(t, "case") {
			b[i] = strings.ToLower(string(b[i]))[0]
		} else {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}
