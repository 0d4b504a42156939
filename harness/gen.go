package harness

import (
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------- uniform choices

// uniform draws an unbiased number in [0, n); rapid's own integer generators
// prefer small numbers.
func uniform(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	g, ok := uniforms.Load(n)
	if !ok {
		bits := 3
		for m := n - 1; m > 0; m >>= 1 {
			bits++
		}
		g, _ = uniforms.LoadOrStore(n, rapid.Custom(func(t *rapid.T) int {
			v := 0
			for i := 0; i < bits; i++ {
				v <<= 1
				if boolean.Draw(t, "") {
					v |= 1
				}
			}
			return v % n
		}))
	}
	return g.(*rapid.Generator[int]).Draw(t, "n")
}

var (
	uniforms sync.Map
	boolean  = rapid.Bool()
)

func pick[T any](t *rapid.T, xs ...T) T {
	return xs[uniform(t, len(xs))]
}

// chance is true in about pct percent of the cases.
func chance(t *rapid.T, pct int) bool {
	return uniform(t, 128)*100 < pct*128
}

// size draws a list length of at least min: mostly small, up to max in the
// tail, and once in a while up to four times that (when max is a bound the
// caller needs, use within).
func size(t *rapid.T, min, max int) int {
	if max <= min {
		return min
	}
	n := min
	if max >= 8 && uniform(t, 128) == 0 && !memoryOf(t).far { // once in a while far beyond
		memoryOf(t).far = true // but not in two dimensions at once
		if !raceEnabled && uniform(t, 10) == 0 {
			return min + max + uniform(t, 1100)
		}
		return min + max + uniform(t, 3*max)
	}
	switch uniform(t, 8) {
	case 0, 1:
		n = min + uniform(t, 2)
	case 2, 3, 4:
		n = min + uniform(t, 4)
	case 5, 6:
		n = min + uniform(t, 9)
	default:
		n = min + uniform(t, max-min+1)
	}
	if n > max {
		n = max
	}
	return n
}

// within is size without the far tail.
func within(t *rapid.T, min, max int) int {
	n := size(t, min, max)
	if n > max {
		n = max
	}
	return n
}

// ---------------------------------------------------------------------- names

var keywords = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields(keywordList) {
		m[k] = true
	}
	return m
}()

func isKeyword(s string) bool { return keywords[strings.ToUpper(s)] }

const (
	nameFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	nameRest  = nameFirst + "0123456789"
)

var commonNames = []string{
	"a", "b", "c", "x", "k", "id", "name", "users", "orders", "price", "t1", "t2", "col_1", "Tbl", "USERS", "userName", "_p", "n0",
	"null_count", "selected", "from_date", "intx", "count_a", "sum1", "maxim", "idx_a", "pg", "test", "sbtest1", "pgbench_accounts",
	"e1", "x1f", "E5", "max_2", "avgs", "texts", "desc1", "asc_", "true1", "limit_", "min_v", "order1", "by_", "tables_", "xx", "tt",
}

// plainName draws an identifier that needs no quotes.
func plainName(t *rapid.T) string {
	if chance(t, 40) {
		return pick(t, commonNames...)
	}
	n := size(t, 1, 40)
	if chance(t, 2) {
		n = pick(t, 60, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		set := nameRest
		if i == 0 {
			set = nameFirst
		}
		sb.WriteByte(set[uniform(t, len(set))])
	}
	s := sb.String()
	if isKeyword(s) {
		return s + "_"
	}
	return s
}

// quotedName draws the content of a quoted identifier, which may need quotes.
func quotedName(t *rapid.T) string {
	switch uniform(t, 6) {
	case 0:
		return pick(t, "order", "select", "group", "Table", "FROM", "where", "limit", "values", "user", "to", "set", "join", "desc", "key", "KEY", "Index", "INDEX", "unique", "UNIQUE", "primary", "PRIMARY", "constraint", "CONSTRAINT", "check", "FOREIGN", "column", "by")
	case 1, 2:
		inner := []string{" ", "-", "+", "/", "é", "日本", "a", "B", "9", "_", "@", "#", "%", "&", ":", "?", "=", "!", "<", "~", "$", "*", ";", ",", "|", "{", "}"}
		var sb strings.Builder
		sb.WriteString(pick(t, "a", "Z", "9", "é", "_", " ", "-", "\u3000", "\u00a0", "\u200b", "\ufeff", "+", "日"))
		for i, n := 0, size(t, 0, 12); i < n; i++ {
			sb.WriteString(pick(t, inner...))
		}
		sb.WriteString(pick(t, "b", "7", "X", "ü", "b", "7", " ", "-", "\u3000", "\u00a0", "\u200b", "\ufeff", "*", ":"))
		return sb.String()
	default:
		return plainName(t)
	}
}

// Name is an identifier with its spelling in the SQL text.
type Name struct {
	Val string // the name
	Src string // as written
}

func plain(v string) Name { return Name{v, v} }

// memory holds the names and literals drawn so far in the current case, so
// that later ones can repeat them or differ from them only a little.
type memory struct {
	names []Name
	lits  []Lit
	far   bool
}

var memories sync.Map // by *rapid.T

func memoryOf(t *rapid.T) *memory {
	m, ok := memories.Load(t)
	if !ok {
		m, _ = memories.LoadOrStore(t, &memory{})
	}
	return m.(*memory)
}

func forget(t *rapid.T) { memories.Delete(t) }

func keepName(t *rapid.T, n Name) Name {
	m := memoryOf(t)
	m.names = append(m.names, n)
	return n
}

// similar gives a text like s: the same, another letter case, longer, shorter.
func similar(t *rapid.T, s string, more ...string) string {
	switch uniform(t, 5) {
	case 0, 1:
		return s
	case 2:
		return swapCase(t, s)
	case 3:
		return s + pick(t, more...)
	}
	if r := []rune(s); len(r) > 1 {
		return string(r[:len(r)-1])
	}
	return s
}

// swapCase changes the case of ASCII letters.
func swapCase(t *rapid.T, s string) string {
	b := []byte(s)
	all := chance(t, 50)
	for i, c := range b {
		if (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && (all || chance(t, 50)) {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

func genPlainName(t *rapid.T) Name {
	if len(memoryOf(t).names) > 0 && chance(t, 15) {
		n := memoryOf(t).names[uniform(t, len(memoryOf(t).names))]
		if n.Val == n.Src {
			v := similar(t, n.Val, "1", "_", "a", "x")
			if isKeyword(v) {
				v += "_"
			}
			return keepName(t, plain(v))
		}
	}
	return keepName(t, plain(plainName(t)))
}

// genName draws a name, quoted or not.
func genName(t *rapid.T) Name {
	q := pick(t, "", "", "", `"`, "`")
	if q == "" {
		return genPlainName(t)
	}
	v := ""
	if len(memoryOf(t).names) > 0 && chance(t, 20) {
		v = memoryOf(t).names[uniform(t, len(memoryOf(t).names))].Val
		if chance(t, 50) {
			v = swapCase(t, v)
		}
	} else {
		v = quotedName(t)
	}
	return keepName(t, Name{v, q + v + q})
}

// distinct draws n names which differ ignoring the case and are not forbidden.
func distinct(t *rapid.T, n int, gen func(*rapid.T) Name, forbidden ...string) []Name {
	seen := map[string]bool{}
	for _, f := range forbidden {
		seen[strings.ToUpper(f)] = true
	}
	out := make([]Name, 0, n)
	for i := 0; len(out) < n; i++ {
		nm := gen(t)
		for k := 0; seen[strings.ToUpper(nm.Val)]; k++ {
			v := fmt.Sprintf("%s_%d", strings.Map(plainRune, nm.Val), i+k)
			nm = Name{v, v}
		}
		seen[strings.ToUpper(nm.Val)] = true
		out = append(out, nm)
	}
	return out
}

// some draws n names, mostly distinct; in some cases names come back.
func some(t *rapid.T, n int, gen func(*rapid.T) Name) []Name {
	ns := distinct(t, n, gen)
	if n > 1 && chance(t, 15) {
		for k := 1 + uniform(t, 3); k > 0; k-- {
			from, to := uniform(t, n), uniform(t, n)
			ns[to] = ns[from]
		}
	}
	return ns
}

func plainRune(r rune) rune {
	if strings.ContainsRune(nameFirst, r) {
		return r
	}
	return 'z'
}

func vals(ns []Name) []string {
	out := make([]string, len(ns))
	for i, n := range ns {
		out[i] = n.Val
	}
	return out
}

// ------------------------------------------------------------------- literals

// Lit is a literal with its expected value.
type Lit struct {
	Val string // the text of the value, unquoted for strings
	Str bool   // a string literal
}

var stringPieces = []string{
	"a", "b", "Z", "0", " ", "  ", "'", "''", "\"", "`", "\\", "%", "_", ";", ",", "(", ")", "--", "/*", "*/", "?", "$1", "?1", ":x", "@a",
	";--", "; --", ");--", "';--", "/*;*/", "';", "; ", ";;", "\n;", "\n--", "--\n", "-- x\n", ", ", "',", "','", "',(", "),(", "', '", ";\n", "#\n", "SELECT", " FROM ", " AND ", " ORDER BY ", ".", "..", "::", "<=", ">=", "!=", "==", "||",
	"\n", "\t", "\r\n", "é", "日本語", "😀", "NULL", "null", "TRUE", "1", "-1", "0x1F", "=", "*", "{", "}", "[", "]", "~", "AND", "OR", "WHERE", "\u00a0", "|", "&", "#", "!", "<>", "\x01",
}

// stringValue draws the value of a string literal.
func stringValue(t *rapid.T) string {
	switch uniform(t, 11) {
	case 0:
		return ""
	case 10:
		if k := pick(t, strings.Fields(keywordList)...); chance(t, 50) {
			return k
		} else {
			return strings.ToLower(k)
		}
	case 1:
		return pick(t, "'", "''", "'a", "a'", "'a'", "?", "*", "NULL", "null", "1", "a b", " a", "a ", "\"q\"", "`q`", "(a)", "it's", "$1", "--", "/*x*/", "\\", "\\'", "true", "a''b", "'''", "a;b", "%", ",")
	case 2, 3, 4:
		n := size(t, 1, 12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(pick(t, stringPieces...))
		}
		return sb.String()
	case 5:
		return strings.Repeat(pick(t, "ab", "x", "'", "é"), 1+uniform(t, 200))
	default:
		return rapid.StringMatching(`[a-zA-Z0-9 ._-]{1,12}`).Draw(t, "s")
	}
}

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// Src is the SQL text of the literal.
func (l Lit) Src() string {
	if l.Str {
		return quote(l.Val)
	}
	return l.Val
}

func genNumber(t *rapid.T) string {
	s := ""
	switch uniform(t, 10) {
	case 0:
		s = pick(t, "0", "1", "2", "7", "10", "100", "127", "128", "255", "256", "32767", "32768", "65535", "2147483647", "2147483648", "4294967295",
			"9223372036854775807", "9223372036854775808", "18446744073709551615", "123456789012345678901234567890", "007", "00")
	case 1, 2:
		s = fmt.Sprintf("%d.%d", uniform(t, 2000), uniform(t, 100000))
	case 3:
		s = fmt.Sprintf(".%d", uniform(t, 1000))
	case 4:
		s = fmt.Sprintf("%d.", uniform(t, 100))
	case 5:
		s = fmt.Sprintf("%d%s%s%d", uniform(t, 100), pick(t, "e", "E"), pick(t, "", "+", "-"), uniform(t, 40))
	case 6:
		s = fmt.Sprintf("%d.%d%s%s%d", uniform(t, 100), uniform(t, 1000), pick(t, "e", "E"), pick(t, "", "+", "-"), uniform(t, 40))
	case 7:
		s = fmt.Sprintf("0%s%X", pick(t, "x", "X"), uniform(t, 1<<16))
	default:
		s = fmt.Sprint(uniform(t, 100000))
	}
	if chance(t, 25) {
		s = pick(t, "-", "+", "-") + s
	}
	return s
}

// genLit draws a literal of any kind the grammar has, except bind parameters.
func genLit(t *rapid.T) Lit {
	if len(memoryOf(t).lits) > 0 && chance(t, 20) {
		l := memoryOf(t).lits[uniform(t, len(memoryOf(t).lits))]
		switch {
		case l.Str:
			l.Val = similar(t, l.Val, " ", "'", "a", "0", ";")
		case chance(t, 40): // the same text as a string
			l.Str = true
		}
		memoryOf(t).lits = append(memoryOf(t).lits, l)
		return l
	}
	l := newLit(t)
	memoryOf(t).lits = append(memoryOf(t).lits, l)
	return l
}

func newLit(t *rapid.T) Lit {
	switch uniform(t, 10) {
	case 0, 1, 2, 3:
		return Lit{stringValue(t), true}
	case 4:
		return Lit{pick(t, "NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME"), false}
	case 5:
		if chance(t, 50) {
			return Lit{"X'" + pick(t, "", "00", "FF", "0A0b", "DEADBEEF", "616263") + "'", false}
		}
		return Lit{genNumber(t), false}
	default:
		return Lit{genNumber(t), false}
	}
}

// genLitOrBind draws a literal or a bind parameter.
func genLitOrBind(t *rapid.T) Lit {
	if chance(t, 12) {
		return Lit{pick(t, "?", "?1", "?2", "$1", "$2", "$10", ":name", "?", ":a1"), false}
	}
	return genLit(t)
}
