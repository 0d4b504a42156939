package harness

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Opt selects what the statement generators produce.
type Opt struct {
	Plain  bool // only names that need no quotes and are written without quotes
	Tame   bool // only names that need no quotes, perhaps written with quotes
	NoRaw  bool // only conditions with a structure
	NoBind bool // no bind parameters
}

// Gen is a generated statement: what it means and how it is written.
type Gen struct {
	M     Stmt
	T     Toks
	Feats []string // shape of the statement
	Rich  bool     // non-trivial by the rule of the statement kind
}

func (o Opt) name(t *rapid.T) Name {
	if o.Plain {
		return genPlainName(t)
	}
	if o.Tame {
		n := genPlainName(t)
		q := pick(t, "", "", "", `"`, "`")
		n.Src = q + n.Src + q
		return n
	}
	return genName(t)
}

// columnName draws the name of a defined column, which may be one of the words
// that start an index definition.
func (o Opt) columnName(t *rapid.T) Name {
	if !chance(t, 4) {
		return o.name(t)
	}
	w := pick(t, "KEY", "INDEX", "PRIMARY", "UNIQUE", "CONSTRAINT")
	return plain(pick(t, w, strings.ToLower(w), w[:1]+strings.ToLower(w[1:])))
}

func (o Opt) lit(t *rapid.T) Lit {
	if o.NoBind {
		return genLit(t)
	}
	return genLitOrBind(t)
}

// table draws a table name with an optional schema; val is the qualified name.
func (o Opt) table(t *rapid.T) (val string, name Name, toks Toks, qualified bool) {
	n := o.name(t)
	if chance(t, 20) {
		s := o.name(t)
		return s.Val + "." + n.Val, n, cat(tk(s.Src, ".", n.Src)), true
	}
	return n.Val, n, tk(n.Src), false
}

var dataTypes = []string{
	"BIGINT", "BIT", "BLOB", "BOOLEAN", "CHAR", "CHARACTER", "CLOB", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "FLOAT", "INT", "INTEGER",
	"LONGBLOB", "LONGTEXT", "MEDIUMBLOB", "MEDIUMINT", "MEDIUMTEXT", "NUMERIC", "REAL", "SMALLINT", "TEXT", "TIME", "TIMESTAMP", "TINYBLOB", "TINYINT",
	"TINYTEXT", "VARBINARY", "VARCHAR", "VARCHARACTER", "YEAR", "SERIAL", "BIGSERIAL", "SMALLSERIAL",
}

// colDef draws a column definition; pk tells whether it is a primary key.
func (o Opt) colDef(t *rapid.T, name Name, allowPK bool) (c Col, toks Toks, pk bool) {
	if chance(t, 6) { // a column without a data type
		c, toks = Col{Name: name.Val}, tk(name.Src)
		switch strings.ToUpper(name.Val) {
		case "KEY", "INDEX", "PRIMARY", "UNIQUE", "CONSTRAINT":
			return c, toks, false // what follows would make it an index definition
		}
	} else {
		c = Col{Name: name.Val, Type: pick(t, dataTypes...)}
		toks = cat(tk(name.Src), Toks{{c.Type, true}})
	}
	if c.Type != "" && chance(t, 35) {
		c.Len = pick(t, 1, 2, 8, 10, 11, 16, 20, 50, 64, 100, 120, 127, 128, 255, 256, 1000, 65535, 1+uniform(t, 5000), 65536, 16777215+uniform(t, 3), 1<<uniform(t, 48), 2147483646+uniform(t, 4), 4294967294+uniform(t, 4))
		toks = append(toks, paren(tk(fmt.Sprint(c.Len)))...)
	}
	cons := []func(){}
	add := func(x Toks) { cons = append(cons, func() { toks = append(toks, x...) }) }
	if allowPK && chance(t, 12) {
		pk = true
		x := kw("PRIMARY KEY")
		if chance(t, 30) {
			x = append(x, kw(pick(t, "ASC", "DESC"))...)
		}
		if chance(t, 20) {
			x = append(x, kw("AUTOINCREMENT")...)
		}
		add(x)
	}
	if chance(t, 25) {
		add(kw(pick(t, "NOT NULL", "NULL", "UNIQUE")))
	}
	if c.Type != "" && chance(t, 12) {
		add(cat(kw("DEFAULT"), tk(genLit(t).Src())))
	}
	// Without a data type, the parser refuses it, and CONSTRAINT name REFERENCES ... is a constraint.
	if c.Type != "" && !strings.EqualFold(name.Val, "CONSTRAINT") && chance(t, 5) {
		add(cat(kw("REFERENCES"), tk(plainName(t)), paren(tk(plainName(t)))))
	}
	if len(cons) > 1 && chance(t, 50) {
		cons[0], cons[len(cons)-1] = cons[len(cons)-1], cons[0]
	}
	for _, f := range cons {
		f()
	}
	return c, toks, pk
}

func genCreateTable(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "CREATE TABLE"}}
	val, _, tbl, qual := o.table(t)
	g.M.Name, g.M.Full = val, val
	g.T = kw("CREATE TABLE")
	if !o.Plain && chance(t, 8) {
		g.T = kw(pick(t, "CREATE TEMP TABLE", "CREATE TEMPORARY TABLE"))
	}
	if chance(t, 30) {
		g.M.IfOpt = true
		g.T = append(g.T, kw("IF NOT EXISTS")...)
	}
	g.T = append(g.T, tbl...)
	names := distinct(t, size(t, 1, 40), o.columnName)
	parts := []Toks{}
	pkSeen := false
	for _, n := range names {
		c, toks, pk := o.colDef(t, n, !pkSeen)
		g.M.Cols = append(g.M.Cols, c)
		parts = append(parts, toks)
		if pk {
			pkSeen = true
			g.M.Idxs = append(g.M.Idxs, Idx{n.Val, "PRIMARY KEY", []string{n.Val}})
			g.Feats = append(g.Feats, "column-pk")
		}
	}
	for i, n := 0, pick(t, 0, 0, 0, 1, 1, 2, 3); i < n; i++ {
		idx := o.name(t)
		col := names[uniform(t, len(names))]
		parts = append(parts, cat(kw(pick(t, "INDEX", "KEY")), tk(idx.Src), paren(tk(col.Src))))
		g.M.Idxs = append(g.M.Idxs, Idx{idx.Val, "INDEX", []string{col.Val}})
		g.Feats = append(g.Feats, "index")
	}
	if !pkSeen && chance(t, 40) || pkSeen && chance(t, 10) {
		cols := names
		n := within(t, 1, len(names))
		start := uniform(t, len(names)-n+1)
		cols = cols[start : start+n]
		if chance(t, 40) {
			cols = append([]Name{}, cols...)
			for i, j := 0, len(cols)-1; i < j; i, j = i+1, j-1 {
				cols[i], cols[j] = cols[j], cols[i]
			}
		}
		if chance(t, 5) {
			cols = append(append([]Name{}, cols...), cols[uniform(t, len(cols))])
		}
		parts = append(parts, cat(kw("PRIMARY KEY"), paren(namesList(cols))))
		g.M.Idxs = append(g.M.Idxs, Idx{strings.Join(vals(cols), "_"), "PRIMARY KEY", vals(cols)})
		g.Feats = append(g.Feats, "table-pk")
	}
	g.T = cat(g.T, paren(commaList(parts)))
	if !o.Plain && chance(t, 5) {
		g.T = cat(g.T, kw("ENGINE"), tk("="), tk("InnoDB"))
	}
	if qual {
		g.Feats = append(g.Feats, "schema")
	}
	g.Rich = len(names) > 1
	return g
}

func genInsert(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "INSERT"}}
	val, _, tbl, _ := o.table(t)
	g.M.Name = val
	g.T = cat(kw("INSERT INTO"), tbl)
	if !o.Plain && chance(t, 6) {
		g.T = cat(g.T, kw("AS"), tk(genPlainName(t).Src))
		g.Feats = append(g.Feats, "table-alias")
	}
	names := some(t, size(t, 1, 40), o.name)
	form := uniform(t, 10)
	withNames := form < 6 || o.Plain && form < 8
	assign := !withNames && form == 9 && !o.Plain
	if withNames {
		g.T = cat(g.T, paren(namesList(names)))
		g.Feats = append(g.Feats, "column-list")
	} else if assign {
		g.Feats = append(g.Feats, "assign-form")
	} else {
		g.Feats = append(g.Feats, "no-column-list")
	}
	rows := min(size(t, 1, 20), max(1, 3000/len(names)))
	parts := []Toks{}
	for r := 0; r < rows; r++ {
		cells, vs := []Cell{}, []Toks{}
		n := len(names)
		if !withNames && !assign && r > 0 && chance(t, 10) {
			n = 1 + uniform(t, len(names)) // ragged rows are possible without a column list
		}
		for i := 0; i < n; i++ {
			l := o.lit(t)
			c := Cell{Val: l}
			if withNames || assign {
				c.Name = names[i].Val
			}
			if assign {
				vs = append(vs, cat(tk(names[i].Src, "=", l.Src())))
			} else {
				vs = append(vs, tk(l.Src()))
			}
			cells = append(cells, c)
		}
		g.M.Rows = append(g.M.Rows, cells)
		parts = append(parts, paren(commaList(vs)))
	}
	g.T = cat(g.T, kw("VALUES"), commaList(parts))
	if rows > 1 {
		g.Feats = append(g.Feats, "multi-row")
	}
	g.Rich = len(names) > 1 || rows > 1
	return g
}

func (o Opt) cmp(t *rapid.T) (*Cond, Toks) {
	n, l := o.name(t), o.lit(t)
	src := pick(t, "=", "!=", "<>", "<", ">", "<=", ">=")
	op := src
	if op == "<>" {
		op = "!="
	}
	return &Cond{Op: op, Col: n.Val, Lit: &l}, tk(n.Src, src, l.Src())
}

// cond draws a condition.
func (o Opt) cond(t *rapid.T) (*Cond, Toks, string) {
	switch k := uniform(t, 12); {
	case k < 4 || o.NoRaw && k >= 8:
		c, toks := o.cmp(t)
		return c, toks, "cmp"
	case k < 8:
		l, lt := o.cmp(t)
		r, rt := o.cmp(t)
		if chance(t, 25) { // two comparisons that differ in one part at most
			switch uniform(t, 4) {
			case 0:
				r.Col, rt[0] = l.Col, lt[0]
			case 1:
				r.Col, rt[0], r.Op, rt[1] = l.Col, lt[0], l.Op, lt[1]
			case 2:
				r.Lit, rt[2], r.Op, rt[1] = l.Lit, lt[2], l.Op, lt[1]
			default:
				same := *l
				r, rt = &same, append(Toks{}, lt...)
			}
			if l.Lit.Str && chance(t, 40) {
				x := Lit{similar(t, l.Lit.Val, " ", "'", "a"), true}
				r.Lit, rt[2] = &x, Tok{x.Src(), false}
			}
		}
		op := pick(t, "AND", "OR")
		return &Cond{Op: op, Left: l, Right: r}, cat(lt, kw(op), rt), strings.ToLower(op)
	}
	n := o.name(t).Src
	var toks Toks
	switch uniform(t, 10) {
	case 0:
		toks = cat(tk(n), kw(pick(t, "LIKE", "NOT LIKE")), tk(quote(stringValue(t))))
	case 1, 2:
		parts := []Toks{}
		for i, k := 0, size(t, 1, 8); i < k; i++ {
			parts = append(parts, tk(o.lit(t).Src()))
		}
		toks = cat(tk(n), kw(pick(t, "IN", "NOT IN")), paren(commaList(parts)))
	case 3:
		toks = cat(tk(n), kw(pick(t, "BETWEEN", "NOT BETWEEN")), tk(genNumber(t)), kw("AND"), tk(genNumber(t)))
	case 4:
		toks = cat(tk(n), kw(pick(t, "IS NULL", "IS NOT NULL", "NOTNULL", "ISNULL")))
	case 5:
		toks = cat(tk(n), tk("=="), tk(o.lit(t).Src()))
	case 6:
		_, a := o.cmp(t)
		toks = paren(a)
	case 7:
		_, a := o.cmp(t)
		toks = cat(kw("NOT"), paren(a))
	case 8:
		_, a := o.cmp(t)
		_, b := o.cmp(t)
		toks = paren(cat(a, kw(pick(t, "AND", "OR")), b))
	default:
		toks = cat(tk(n), kw("GLOB"), tk(quote(stringValue(t))))
	}
	// The text is kept as it is written, so it is laid out here.
	src := toks.canonical()
	if chance(t, 40) {
		src = strings.TrimSpace(toks.spaced())
	}
	return &Cond{Op: "RAW", Raw: src}, tk(src), "raw"
}

func (o Opt) where(t *rapid.T, g *Gen, pct int) {
	if !chance(t, pct) {
		g.Feats = append(g.Feats, "no-where")
		return
	}
	c, toks, class := o.cond(t)
	g.M.Where = c
	g.T = cat(g.T, kw("WHERE"), toks)
	g.Feats = append(g.Feats, "where-"+class)
}

// hint draws an alias or an index hint behind a table; neither is part of what the statement holds.
func (o Opt) hint(t *rapid.T, g *Gen, alias bool) Toks {
	var toks Toks
	if o.Plain {
		return toks
	}
	if alias && chance(t, 6) {
		toks = cat(toks, kw("AS"), tk(genPlainName(t).Src))
		g.Feats = append(g.Feats, "table-alias")
	}
	if chance(t, 8) {
		if chance(t, 40) {
			toks = cat(toks, kw("NOT INDEXED"))
		} else {
			toks = cat(toks, kw("INDEXED BY"), tk(genPlainName(t).Src))
		}
		g.Feats = append(g.Feats, "index-hint")
	}
	return toks
}

func genDelete(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "DELETE"}}
	val, _, tbl, _ := o.table(t)
	g.M.Name = val
	g.T = cat(kw("DELETE FROM"), tbl, o.hint(t, &g, true))
	o.where(t, &g, 85)
	g.Rich = g.M.Where != nil
	return g
}

func genUpdate(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "UPDATE"}}
	val, _, tbl, _ := o.table(t)
	g.M.Name = val
	g.T = cat(kw("UPDATE"), tbl, o.hint(t, &g, true), kw("SET"))
	parts := []Toks{}
	for _, n := range some(t, size(t, 1, 25), o.name) {
		c := Col{Name: n.Val}
		if chance(t, 30) {
			left := o.name(t)
			c.Op = pick(t, "+", "-", "*", "/", "%")
			var right, src string
			switch uniform(t, 3) {
			case 0:
				rn := o.name(t)
				right, src = rn.Val, rn.Src
			default:
				right = genNumber(t)
				src = right
			}
			c.Args = []string{left.Val, right}
			parts = append(parts, tk(n.Src, "=", left.Src, c.Op, src))
			g.Feats = append(g.Feats, "arith")
		} else {
			l := o.lit(t)
			c.Val = &l
			parts = append(parts, tk(n.Src, "=", l.Src()))
		}
		g.M.Cols = append(g.M.Cols, c)
	}
	g.T = cat(g.T, commaList(parts))
	o.where(t, &g, 70)
	g.Rich = len(g.M.Cols) > 1 || g.M.Where != nil
	return g
}

var selectFuncs = []string{
	"COUNT", "SUM", "AVG", "MIN", "MAX", "ABS", "FLOOR", "CEIL", "ROUND", "SQRT", "LOG", "LOG10", "EXP", "POWER", "MOD", "SIN", "COS", "TAN",
	"UPPER", "LOWER", "TRIM", "NOW", "RAND", "PI", "my_func", "Coalesce", "f",
}

// expr draws an expression that is neither a column nor a call. Its text is kept as it is written.
func (o Opt) expr(t *rapid.T) string {
	n := func() string { return genPlainName(t).Src }
	lit := func() string { return genLit(t).Src() }
	var toks Toks
	switch uniform(t, 7) {
	case 0:
		toks = cat(kw("CASE WHEN"), tk(n(), pick(t, "=", "<", ">="), lit()), kw("THEN"), tk(lit()), kw("ELSE"), tk(n()), kw("END"))
	case 1:
		toks = cat(kw("CASE"), tk(n()), kw("WHEN"), tk(lit()), kw("THEN"), tk(lit()), kw("WHEN"), tk(lit()), kw("THEN"), tk(lit()), kw("END"))
	case 2:
		toks = cat(kw("CAST"), tk("(", n()), kw("AS"), Toks{{pick(t, "INT", "TEXT", "DOUBLE"), true}}, tk(")"))
	case 3:
		toks = tk(n(), pick(t, "+", "-", "*", "/", "%"), fmt.Sprint(uniform(t, 1000)))
	case 4:
		toks = tk(n(), pick(t, "+", "-", "*", "/", "%"), n())
	case 5:
		toks = cat(tk(n()), kw(pick(t, "IS NULL", "IS NOT NULL", "ISNULL")))
	default:
		toks = tk(n(), "||", lit())
	}
	if chance(t, 40) {
		return strings.TrimSpace(toks.spaced())
	}
	return toks.canonical()
}

func (o Opt) selector(t *rapid.T) (Sel, Toks) {
	k := uniform(t, 10)
	switch {
	case k == 5 && chance(t, 50):
		e := o.expr(t)
		return Sel{Name: e}, tk(e)
	case k < 3:
		f := pick(t, selectFuncs...)
		s := Sel{Name: strings.ToUpper(f), Func: true}
		toks := cat(tk(f))
		args := []Toks{}
		if chance(t, 20) {
			s.Args = []string{"*"}
			args = append(args, tk("*"))
		} else {
			for i, n := 0, pick(t, 1, 1, 1, 2, 3, 0, 4+uniform(t, 9)); i < n; i++ {
				if chance(t, 10) {
					e := o.expr(t)
					s.Args = append(s.Args, e)
					args = append(args, tk(e))
				} else if chance(t, 75) {
					a := o.name(t)
					s.Args = append(s.Args, a.Val)
					args = append(args, tk(a.Src))
				} else {
					a := genNumber(t)
					s.Args = append(s.Args, a)
					args = append(args, tk(a))
				}
			}
		}
		return s, cat(toks, paren(commaList(args)))
	case k == 3:
		a, b := genPlainName(t), genPlainName(t)
		return Sel{Name: a.Val + "." + b.Val}, tk(a.Src, ".", b.Src)
	case k == 4:
		a := genPlainName(t)
		return Sel{Name: a.Val + ".*"}, tk(a.Src, ".", "*")
	}
	n := o.name(t)
	return Sel{Name: n.Val}, tk(n.Src)
}

func (o Opt) columnRef(t *rapid.T) (string, Toks) {
	if chance(t, 8) {
		e := o.expr(t)
		return e, tk(e)
	}
	if chance(t, 15) {
		a, b := genPlainName(t), genPlainName(t)
		return a.Val + "." + b.Val, tk(a.Src, ".", b.Src)
	}
	n := o.name(t)
	return n.Val, tk(n.Src)
}

var limits = []uint{1, 2, 3, 5, 9, 10, 11, 20, 50, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1024, 65535, 65536, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1}

func genSelect(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "SELECT"}}
	parts := []Toks{}
	var sel0 Toks
	if chance(t, 20) {
		g.M.Sels = []Sel{{Name: "*"}}
		parts = append(parts, tk("*"))
	} else {
		sels := []Toks{}
		for i, n := 0, size(t, 1, 30); i < n; i++ {
			s, toks := o.selector(t)
			if i > 0 && chance(t, 5) { // a selector again
				k := uniform(t, i)
				s, toks = g.M.Sels[k], sels[k]
			}
			sels = append(sels, toks)
			sel0 = sels[0]
			if !o.Plain && !strings.HasSuffix(s.Name, "*") && chance(t, 20) {
				if chance(t, 70) {
					toks = cat(toks, kw("AS"))
				}
				toks = cat(toks, tk(genPlainName(t).Src))
				g.Feats = append(g.Feats, "column-alias")
			}
			if s.Func {
				g.Feats = append(g.Feats, "function")
			}
			g.M.Sels = append(g.M.Sels, s)
			parts = append(parts, toks)
		}
	}
	g.T = kw("SELECT")
	switch {
	case chance(t, 15):
		g.M.Distinct = true
		g.T = kw("SELECT DISTINCT")
		g.Feats = append(g.Feats, "distinct")
	case !o.Plain && chance(t, 5):
		g.T = kw("SELECT ALL")
	}
	g.T = cat(g.T, commaList(parts), kw("FROM"))
	parts = nil
	tables := []Toks{}
	for i, n := 0, pick(t, 1, 1, 1, 1, 2, 3, 5, 20); i < n; i++ {
		val, _, toks, _ := o.table(t)
		if i > 0 && chance(t, 8) { // a table again
			k := uniform(t, i)
			val, toks = g.M.Tables[k], tables[k]
		}
		tables = append(tables, toks)
		if !o.Plain && chance(t, 20) {
			if chance(t, 70) {
				toks = cat(toks, kw("AS"))
			}
			toks = cat(toks, tk(genPlainName(t).Src))
			g.Feats = append(g.Feats, "table-alias")
		}
		toks = cat(toks, o.hint(t, &g, false))
		g.M.Tables = append(g.M.Tables, val)
		parts = append(parts, toks)
	}
	g.T = cat(g.T, commaList(parts))
	o.where(t, &g, 55)
	var group Toks
	if chance(t, 30) {
		n, toks := o.columnRef(t)
		if !g.M.Sels[0].Func && g.M.Sels[0].Name != "*" && !strings.HasSuffix(g.M.Sels[0].Name, ".*") && chance(t, 25) {
			n, toks = g.M.Sels[0].Name, sel0
		}
		group = toks
		g.M.Group = n
		g.T = cat(g.T, kw("GROUP BY"), toks)
		g.Feats = append(g.Feats, "group-by")
	}
	if chance(t, 40) {
		parts = nil
		keys := []Toks{}
		for i, n := 0, size(t, 1, 8); i < n; i++ {
			ref, toks := o.columnRef(t)
			switch {
			case group != nil && chance(t, 25): // the key of the groups
				ref, toks = g.M.Group, group
			case i > 0 && chance(t, 5): // a key again
				k := uniform(t, i)
				ref, toks = g.M.Orders[k].Name, keys[k]
			}
			keys = append(keys, toks)
			ord := Ord{Name: ref}
			switch uniform(t, 3) {
			case 0:
				toks = cat(toks, kw("ASC"))
			case 1:
				ord.Desc = true
				toks = cat(toks, kw("DESC"))
			}
			g.M.Orders = append(g.M.Orders, ord)
			parts = append(parts, toks)
		}
		g.T = cat(g.T, kw("ORDER BY"), commaList(parts))
		g.Feats = append(g.Feats, "order-by")
	}
	if chance(t, 40) {
		l := pick(t, limits...)
		if chance(t, 40) {
			l = 1 + uint(uniform(t, 5000))
		}
		g.M.Limit = l
		switch uniform(t, 3) {
		case 0:
			g.T = cat(g.T, kw("LIMIT"), tk(fmt.Sprint(l)))
		case 1:
			g.M.Offset = pick(t, append(limits, 0)...)
			g.T = cat(g.T, kw("LIMIT"), tk(fmt.Sprint(l)), kw("OFFSET"), tk(fmt.Sprint(g.M.Offset)))
		case 2:
			g.M.Offset = pick(t, append(limits, 0)...)
			g.T = cat(g.T, kw("LIMIT"), tk(fmt.Sprint(g.M.Offset), ",", fmt.Sprint(l)))
		}
		g.Feats = append(g.Feats, "limit")
	}
	g.Rich = len(g.M.Sels) > 1 || g.M.Where != nil || g.M.Group != "" || len(g.M.Orders) > 0 || g.M.Limit > 0
	return g
}

func genAlterTable(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "ALTER TABLE"}, Rich: true}
	val, name, tbl, _ := o.table(t)
	g.M.Name, g.M.Full = name.Val, val
	g.T = cat(kw("ALTER TABLE"), tbl)
	switch uniform(t, 6) {
	case 0:
		n := o.name(t)
		g.M.To = n.Val
		g.T = cat(g.T, kw("RENAME TO"), tk(n.Src))
		g.Feats = []string{"rename-table"}
	case 1:
		a, b := o.name(t), o.name(t)
		g.M.From, g.M.To = a.Val, b.Val
		g.T = cat(g.T, kw("RENAME COLUMN"), tk(a.Src), kw("TO"), tk(b.Src))
		g.Feats = []string{"rename-column"}
	case 2:
		n := distinct(t, 1, o.columnName)[0]
		c, toks, _ := o.colDef(t, n, false)
		g.M.Add = &c
		g.T = cat(g.T, kw("ADD"))
		if chance(t, 60) {
			g.T = cat(g.T, kw("COLUMN"))
		}
		g.T = cat(g.T, toks)
		g.Feats = []string{"add-column"}
	case 3:
		cols := some(t, size(t, 1, 8), o.name)
		i := Idx{Type: "PRIMARY KEY", Cols: vals(cols)}
		g.M.AddIdx = &i
		g.T = cat(g.T, kw("ADD PRIMARY KEY"), paren(namesList(cols)))
		g.Feats = []string{"add-primary-key"}
	case 4:
		cols := some(t, size(t, 1, 8), o.name)
		n := o.name(t)
		i := Idx{Name: n.Val, Type: "INDEX", Cols: vals(cols)}
		g.M.AddIdx = &i
		g.T = cat(g.T, kw("ADD INDEX"), tk(n.Src), paren(namesList(cols)))
		g.Feats = []string{"add-index"}
	default:
		n := o.name(t)
		g.M.Drop = n.Val
		g.T = cat(g.T, kw("DROP"))
		if chance(t, 60) {
			g.T = cat(g.T, kw("COLUMN"))
		}
		g.T = cat(g.T, tk(n.Src))
		g.Feats = []string{"drop-column"}
	}
	return g
}

func genCreateIndex(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "CREATE INDEX"}, Rich: true}
	n, tbl := o.name(t), o.name(t)
	cols := some(t, size(t, 1, 12), o.name)
	g.T = kw("CREATE INDEX")
	if !o.Plain && chance(t, 15) {
		g.T = kw("CREATE UNIQUE INDEX")
	}
	if chance(t, 30) {
		g.M.IfOpt = true
		g.T = cat(g.T, kw("IF NOT EXISTS"))
	}
	g.M.Name = tbl.Val
	name := n.Val
	if chance(t, 20) {
		s := o.name(t)
		name = s.Val + "." + n.Val
		g.T = cat(g.T, tk(s.Src, "."))
		g.Feats = append(g.Feats, "schema")
	}
	g.M.AddIdx = &Idx{name, "INDEX", vals(cols)}
	g.T = cat(g.T, tk(n.Src), kw("ON"), tk(tbl.Src), paren(namesList(cols)))
	return g
}

func genDropIndex(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "DROP INDEX"}, Rich: true}
	n := o.name(t)
	g.T = kw("DROP INDEX")
	if chance(t, 40) {
		g.M.IfOpt = true
		g.T = cat(g.T, kw("IF EXISTS"))
	}
	g.M.Drop = n.Val
	if chance(t, 50) {
		s := o.name(t)
		g.M.Name = s.Val
		g.T = cat(g.T, tk(s.Src, "."))
	}
	g.T = cat(g.T, tk(n.Src))
	return g
}

func genDropTable(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "DROP TABLE"}, Rich: true}
	g.T = kw("DROP TABLE")
	if chance(t, 40) {
		g.M.IfOpt = true
		g.T = cat(g.T, kw("IF EXISTS"))
	}
	val, _, toks, _ := o.table(t)
	g.M.Tables = []string{val}
	parts := []Toks{toks}
	for i, n := 0, size(t, 0, 12); i < n; i++ {
		x := o.name(t)
		g.M.Tables = append(g.M.Tables, x.Val)
		parts = append(parts, tk(x.Src))
	}
	g.T = cat(g.T, commaList(parts))
	if chance(t, 15) {
		g.T = cat(g.T, kw("CASCADE"))
	}
	return g
}

func genTruncate(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "TRUNCATE"}, Rich: true}
	g.T = kw(pick(t, "TRUNCATE TABLE", "TRUNCATE"))
	parts := []Toks{}
	for i, n := 0, size(t, 1, 12); i < n; i++ {
		x := o.name(t)
		g.M.Tables = append(g.M.Tables, x.Val)
		parts = append(parts, tk(x.Src))
	}
	g.T = cat(g.T, commaList(parts))
	return g
}

func genDatabase(t *rapid.T, o Opt) Gen {
	n := o.name(t)
	switch uniform(t, 4) {
	case 0:
		g := Gen{M: Stmt{Kind: "CREATE DATABASE", Name: n.Val}, Rich: true}
		g.T = kw("CREATE DATABASE")
		if chance(t, 40) {
			g.M.IfOpt = true
			g.T = cat(g.T, kw("IF NOT EXISTS"))
		}
		g.T = cat(g.T, tk(n.Src))
		return g
	case 1:
		g := Gen{M: Stmt{Kind: "DROP DATABASE", Name: n.Val}, Rich: true}
		g.T = kw("DROP DATABASE")
		if chance(t, 40) {
			g.M.IfOpt = true
			g.T = cat(g.T, kw("IF EXISTS"))
		}
		g.T = cat(g.T, tk(n.Src))
		return g
	case 2:
		m := o.name(t)
		return Gen{M: Stmt{Kind: "ALTER DATABASE", Name: n.Val, To: m.Val}, Rich: true,
			T: cat(kw("ALTER DATABASE"), tk(n.Src), kw("RENAME TO"), tk(m.Src))}
	}
	return Gen{M: Stmt{Kind: "USE", Name: n.Val}, Rich: true, T: cat(kw("USE"), tk(n.Src))}
}

func genTransaction(t *rapid.T, o Opt) Gen {
	switch uniform(t, 3) {
	case 0:
		src := "BEGIN"
		if !o.Plain {
			src = pick(t, "BEGIN", "BEGIN TRANSACTION", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE TRANSACTION", "BEGIN DEFERRED")
		}
		return Gen{M: Stmt{Kind: "BEGIN"}, T: kw(src)}
	case 1:
		src := "COMMIT"
		if !o.Plain {
			src = pick(t, "COMMIT", "COMMIT TRANSACTION", "END", "END TRANSACTION")
		}
		return Gen{M: Stmt{Kind: "COMMIT"}, T: kw(src)}
	}
	src := "ROLLBACK"
	if !o.Plain {
		src = pick(t, "ROLLBACK", "ROLLBACK TRANSACTION")
	}
	return Gen{M: Stmt{Kind: "ROLLBACK"}, T: kw(src)}
}

func genVacuum(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "VACUUM"}, T: kw("VACUUM")}
	if chance(t, 80) {
		n := o.name(t)
		g.M.Name = n.Val
		if !o.Plain && chance(t, 30) {
			g.T = kw("VACUUM ANALYZE")
		}
		g.T = cat(g.T, tk(n.Src))
		g.Rich = true
	}
	return g
}

func genCopy(t *rapid.T, o Opt) Gen {
	g := Gen{M: Stmt{Kind: "COPY", Format: "TEXT"}, Rich: true}
	val, _, tbl, _ := o.table(t)
	g.M.Name = val
	g.T = cat(kw("COPY"), tbl)
	if chance(t, 60) {
		cols := some(t, size(t, 1, 40), o.name)
		g.M.Names = vals(cols)
		g.T = cat(g.T, paren(namesList(cols)))
	}
	g.T = cat(g.T, kw("FROM"))
	if chance(t, 50) {
		n := genPlainName(t)
		if chance(t, 50) {
			n = plain("STDIN")
		}
		g.M.From = n.Val
		g.T = cat(g.T, tk(n.Src))
	} else {
		v := stringValue(t)
		g.M.From = v
		g.T = cat(g.T, tk(quote(v)))
	}
	if chance(t, 70) {
		f := pick(t, "TEXT", "CSV", "BINARY")
		g.M.Format = f
		g.T = cat(g.T, kw(pick(t, "", "WITH ", "FORMAT ", "WITH FORMAT ")+f))
	}
	return g
}

type genFunc = func(*rapid.T, Opt) Gen

var allKinds = []genFunc{
	genCreateTable, genInsert, genSelect, genUpdate, genDelete, genAlterTable, genCreateIndex, genDropIndex, genDropTable, genTruncate,
	genDatabase, genTransaction, genVacuum, genCopy,
}

// genStmt draws a statement of any kind.
func genStmt(t *rapid.T, o Opt) Gen {
	return allKinds[uniform(t, len(allKinds))](t, o)
}
