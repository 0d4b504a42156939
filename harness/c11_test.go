package harness

import (
	"strings"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// roundTrip checks that the printed statement means the same, and that printing is stable.
func roundTrip(t *rapid.T, text string, want Stmt) string {
	s := expectOne(t, text, want)
	p1 := s.String()
	describe(p1)
	got, stmts, err := parseModels(p1)
	if err != nil {
		t.Fatalf("printed statement is not parsed: %v\nSQL:     %s\nprinted: %s", err, text, p1)
	}
	if len(got) != 1 {
		t.Fatalf("printed statement is parsed as %d\nSQL:     %s\nprinted: %s", len(got), text, p1)
	}
	if !sameStmt(got[0], want) {
		t.Fatalf("printed statement means something else\nSQL:     %s\nprinted: %s\ngot:  %s\nwant: %s", text, p1, js(got[0]), js(want))
	}
	if p2 := stmts[0].String(); p2 != p1 {
		t.Fatalf("printing is not stable\nfirst:  %s\nsecond: %s", p1, p2)
	}
	if p3 := s.String(); p3 != p1 {
		t.Fatalf("printing changes the statement\nfirst:  %s\nsecond: %s", p1, p3)
	}
	return p1
}

// TestC11_RoundTrip: parse, print, parse.
func TestC11_RoundTrip(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		g := genStmt(t, pick(t, Opt{Plain: true}, Opt{Tame: true}))
		text := g.T.canonical()
		if chance(t, 30) {
			text = g.T.layout(t, true)
		}
		roundTrip(t, text, g.M)
		note(g.Rich, text, append([]string{g.M.Kind}, g.Feats...)...)
	})
}

// TestC12_Built: statements made with the constructors print SQL that means the same.
func TestC12_Built(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		g := genStmt(t, Opt{Plain: true, NoRaw: true})
		s, err := build(t, g.M)
		if err != nil {
			t.Fatalf("statement is not built: %v\n%s", err, js(g.M))
		}
		if got := s.StatementType().String(); got != g.M.Kind {
			t.Fatalf("statement type %s, want %s", got, g.M.Kind)
		}
		text := s.String()
		expectOne(t, text, g.M)
		if again := s.String(); again != text {
			t.Fatalf("printing is not stable: %s, then %s", text, again)
		}
		note(g.Rich, text, append([]string{g.M.Kind}, g.Feats...)...)
	})
}

// nestedCond draws a condition tree over comparisons; leaves collects them.
func nestedCond(t *rapid.T, depth int, leaves *[]*Cond) *Cond {
	if depth == 0 || chance(t, 25) {
		c, _ := Opt{Plain: true, NoBind: true}.cmp(t)
		*leaves = append(*leaves, c)
		return c
	}
	return &Cond{Op: pick(t, "AND", "OR"), Left: nestedCond(t, depth-1, leaves), Right: nestedCond(t, depth-1, leaves)}
}

// truth evaluates a tree for the truth values of its leaves, taken in order.
func (c *Cond) truth(vals []bool, next *int) bool {
	switch c.Op {
	case "AND":
		l, r := c.Left.truth(vals, next), c.Right.truth(vals, next)
		return l && r
	case "OR":
		l, r := c.Left.truth(vals, next), c.Right.truth(vals, next)
		return l || r
	}
	*next++
	return vals[*next-1]
}

// condReader reads a printed condition by the precedence of SQL: AND binds
// stronger than OR, and the comparisons are the given ones in their order.
type condReader struct {
	text   string
	leaves []string
	vals   []bool
	next   int
	err    string
}

func (p *condReader) take(s string) bool {
	if strings.HasPrefix(p.text, s) {
		p.text = p.text[len(s):]
		return true
	}
	return false
}

func (p *condReader) or() bool {
	v := p.and()
	for p.err == "" && p.take(" OR ") {
		w := p.and()
		v = v || w
	}
	return v
}

func (p *condReader) and() bool {
	v := p.leaf()
	for p.err == "" && p.take(" AND ") {
		w := p.leaf()
		v = v && w
	}
	return v
}

func (p *condReader) leaf() bool {
	if p.take("(") {
		v := p.or()
		if p.err == "" && !p.take(")") {
			p.err = "no closing parenthesis at " + p.text
		}
		return v
	}
	if p.next < len(p.leaves) && p.take(p.leaves[p.next]) {
		p.next++
		return p.vals[p.next-1]
	}
	p.err = "no comparison at " + p.text
	return false
}

// TestC12_Nested: nested AND and OR conditions print a text that has the same truth table.
func TestC12_Nested(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		leaves := []*Cond{}
		c := nestedCond(t, 1+uniform(t, 4), &leaves)
		texts := []string{}
		for _, l := range leaves {
			texts = append(texts, buildExpr(l).String())
		}
		text := buildExpr(c).String()
		where := query.NewConditionWith(buildExpr(c))
		if got := where.String(); got != text {
			t.Fatalf("condition prints as %s, its expression as %s", got, text)
		}
		if got := query.NewDeleteWith(query.NewTableWith("t"), where).String(); !strings.HasSuffix(got, " WHERE "+text) {
			t.Fatalf("DELETE prints as %s, its condition as %s", got, text)
		}
		describe(text)
		for i := 0; i < 12; i++ {
			vals := make([]bool, len(leaves))
			for n := range vals {
				vals[n] = chance(t, 50)
			}
			next := 0
			want := c.truth(vals, &next)
			p := condReader{text: text, leaves: texts, vals: vals}
			got := p.or()
			if p.err != "" || p.text != "" {
				t.Fatalf("the text of a condition cannot be read: %s (rest %q)\ntext: %s\ntree: %s", p.err, p.text, text, js(c))
			}
			if got != want {
				t.Fatalf("the text of a condition means something else: %v instead of %v for the comparisons %v\ntext: %s\ntree: %s", got, want, vals, text, js(c))
			}
		}
		note(len(leaves) > 2, text, "nested")
	})
}

// TestC12_AlterFrom: an ALTER TABLE made from a CREATE INDEX or DROP INDEX says
// the same as that statement; other statements are refused.
func TestC12_AlterFrom(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		o := Opt{Plain: true, NoRaw: true}
		g := genStmt(t, o)
		switch uniform(t, 4) {
		case 0, 1:
			g = genCreateIndex(t, o)
		case 2:
			g = genDropIndex(t, o)
		}
		var src query.Statement
		if chance(t, 50) {
			s, err := build(t, g.M)
			if err != nil {
				t.Fatalf("statement is not built: %v\n%s", err, js(g.M))
			}
			src = s
		} else {
			_, stmts, err := parseModels(g.T.canonical())
			if err != nil || len(stmts) != 1 {
				t.Fatalf("valid SQL is not parsed: %v\nSQL: %s", err, g.T.canonical())
			}
			src = stmts[0]
		}
		before := src.String()
		describe(before)
		alter, err := query.NewAlterTableFrom(src)
		if after := src.String(); after != before {
			t.Fatalf("making an ALTER TABLE changed the statement from %s to %s", before, after)
		}
		want := Stmt{Kind: "ALTER TABLE", Name: g.M.Name, Full: g.M.Name}
		switch g.M.Kind {
		case "CREATE INDEX":
			want.AddIdx = g.M.AddIdx
		case "DROP INDEX":
		case "ALTER TABLE":
			note(false, before, "alter-from-alter")
			return
		default:
			if err == nil {
				t.Fatalf("%s became an ALTER TABLE: %s", before, alter)
			}
			note(false, before, "alter-from-other")
			return
		}
		if err != nil {
			t.Fatalf("no ALTER TABLE for %s: %v", before, err)
		}
		got, err := extract(alter)
		if err != nil {
			t.Fatalf("ALTER TABLE of %s: %v", before, err)
		}
		text := alter.String()
		if g.M.Kind == "DROP INDEX" {
			idx, ok := alter.DropIndex()
			if !ok || idx.Name() != g.M.Drop {
				t.Fatalf("ALTER TABLE of %s drops the index %v", before, idx)
			}
			if words := strings.Fields(text); words[len(words)-1] != g.M.Drop {
				t.Fatalf("ALTER TABLE of %s prints as %s, without the index it drops", before, text)
			}
			want.Drop = "INDEX " + g.M.Drop
			if c, ok := alter.DropColumn(); ok {
				t.Fatalf("ALTER TABLE of %s drops the column %s", before, c.Name())
			}
		} else {
			if _, ok := alter.DropIndex(); ok {
				t.Fatalf("ALTER TABLE of %s drops an index", before)
			}
			if !strings.Contains(want.AddIdx.Name, ".") {
				expectOne(t, text, want)
			}
		}
		if !sameStmt(got, want) {
			t.Fatalf("ALTER TABLE of %s is %s, want %s", before, js(got), js(want))
		}
		note(g.Rich, before, "alter-from-"+g.M.Kind)
	})
}

// TestC13_Layout: white space, comments, keyword case and a final semicolon do not matter.
func TestC13_Layout(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		g := genStmt(t, Opt{})
		base := g.T.canonical()
		describe(base)
		want, _, err := parseModels(base)
		if err != nil || len(want) != 1 {
			t.Fatalf("valid SQL is parsed as %d statements, error %v\nSQL: %s", len(want), err, base)
		}
		for i := 0; i < 2; i++ {
			text := g.T.layout(t, true)
			if chance(t, 30) {
				text += pick(t, ";", "\n;\n", " ; -- end", ";/* end */")
			}
			describe(text)
			got, _, err := parseModels(text)
			if err != nil || len(got) != 1 || !sameStmt(got[0], want[0]) {
				t.Fatalf("another layout means something else (error %v)\nSQL:    %s\nlayout: %s\ngot:  %s\nwant: %s", err, base, text, js(got), js(want))
			}
			note(text != base, text, append([]string{g.M.Kind}, g.Feats...)...)
		}
	})
}

// TestC14_Scripts: a script is its statements, in order.
func TestC14_Scripts(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		n := size(t, 2, 12)
		text, want := "", []Stmt{}
		kinds := map[string]bool{}
		for i := 0; i < n; i++ {
			g := genStmt(t, Opt{})
			kinds[g.M.Kind] = true
			want = append(want, g.M)
			if i > 0 {
				text += pick(t, ";", "; ", ";\n", " ;\n\n", ";-- next\n", ";/*;*/")
			}
			if chance(t, 25) {
				text += g.T.layout(t, true)
			} else {
				text += g.T.canonical()
			}
		}
		if chance(t, 40) {
			text += pick(t, ";", ";\n", " ; ")
		}
		describe(text)
		got, _, err := parseModels(text)
		if err != nil {
			t.Fatalf("valid script is not parsed: %v\nSQL: %s", err, text)
		}
		if len(got) != n {
			t.Fatalf("script of %d statements is parsed as %d\nSQL: %s", n, len(got), text)
		}
		for i := range got {
			if !sameStmt(got[i], want[i]) {
				t.Fatalf("statement %d of the script differs\nSQL:  %s\ngot:  %s\nwant: %s", i, text, js(got[i]), js(want[i]))
			}
		}
		note(len(kinds) > 1, text, "script")
	})
}
