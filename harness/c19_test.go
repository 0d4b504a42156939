package harness

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"pgregory.net/rapid"
)

// numArg draws a number in some Go type or as a text.
func numArg(t *rapid.T) (any, float64) {
	switch uniform(t, 9) {
	case 0:
		n := rapid.Int().Draw(t, "n")
		return n, float64(n)
	case 1:
		n := rapid.Int8().Draw(t, "n")
		return n, float64(n)
	case 2:
		n := rapid.Int64().Draw(t, "n")
		return n, float64(n)
	case 3:
		n := rapid.Uint16().Draw(t, "n")
		return n, float64(n)
	case 4:
		f := pick(t, 0.0, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.49999999999999994, 1e15+0.5, 4503599627370497.5, -0.2, 0.999999, 1e300, -1e300, 1e18, 9.3e18, -9.3e18, 9007199254740993, math.MaxFloat64, 5e-324)
		return f, f
	case 5:
		f := rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
		return f, f
	case 6:
		f := rapid.Float64().Draw(t, "f")
		return f, f
	case 7:
		f := float64(uniform(t, 4001)-2000) / 4
		return fmt.Sprint(f), f
	}
	n := uniform(t, 201) - 100
	return n, float64(n)
}

func closeTo(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-12*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-300
}

type fnSpec struct {
	name  string
	arity int
	exact bool
	eval  func(a []float64) (float64, bool) // false: outside the domain
	whole bool                              // the result is a whole number
}

var negDomain = map[string]bool{"SQRT": true, "LOG": true, "LOG10": true, "POWER": true}

func one(f func(float64) float64) func([]float64) (float64, bool) {
	return func(a []float64) (float64, bool) { return f(a[0]), true }
}

var fnSpecs = []fnSpec{
	{"ABS", 1, true, one(math.Abs), false},
	{"FLOOR", 1, true, one(math.Floor), true},
	{"CEIL", 1, true, one(math.Ceil), true},
	{"ROUND", 1, true, one(math.Round), true},
	{"SQRT", 1, false, func(a []float64) (float64, bool) { return math.Sqrt(a[0]), a[0] >= 0 }, false},
	{"LOG", 1, false, func(a []float64) (float64, bool) { return math.Log(a[0]), a[0] > 0 }, false},
	{"LOG10", 1, false, func(a []float64) (float64, bool) { return math.Log10(a[0]), a[0] > 0 }, false},
	{"EXP", 1, false, one(math.Exp), false},
	{"SIN", 1, false, one(math.Sin), false},
	{"COS", 1, false, one(math.Cos), false},
	{"TAN", 1, false, one(math.Tan), false},
	{"POWER", 2, false, func(a []float64) (float64, bool) {
		return math.Pow(a[0], a[1]), !(a[0] < 0 && a[1] != math.Trunc(a[1]))
	}, false},
	{"MOD", 2, false, func(a []float64) (float64, bool) { return math.Mod(a[0], a[1]), a[1] != 0 }, false},
	{"PI", 0, false, func([]float64) (float64, bool) { return math.Pi, true }, false},
	{"+", 2, true, func(a []float64) (float64, bool) { return a[0] + a[1], true }, false},
	{"-", 2, true, func(a []float64) (float64, bool) { return a[0] - a[1], true }, false},
	{"*", 2, true, func(a []float64) (float64, bool) { return a[0] * a[1], true }, false},
	{"/", 2, true, func(a []float64) (float64, bool) { return a[0] / a[1], true }, false},
	{"%", 2, true, func(a []float64) (float64, bool) {
		return math.Mod(math.Trunc(a[0]), math.Trunc(a[1])), math.Trunc(a[1]) != 0
	}, false},
}

// newExec makes an executor for the name in one of the ways the packages offer.
func newExec(t *rapid.T, name string, args []string) (fn.Executor, error) {
	switch uniform(t, 2) {
	case 0:
		return fn.NewExecutorForName(name, fn.WithExecutorArguments(args))
	}
	as := []fn.Argument{}
	for _, a := range args {
		as = append(as, fn.NewArgumentWith(a))
	}
	return fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(as...)).Executor()
}

// call executes with the arguments in one of the accepted forms.
func call(t *rapid.T, ex fn.Executor, names []string, args []any) (any, error, string) {
	m := map[string]any{"other": "x"}
	for i, n := range names {
		m[n] = args[i]
	}
	switch k := uniform(t, 5); {
	case k == 0:
		v, err := ex.Execute(args)
		return v, err, "list"
	case k == 1:
		v, err := ex.Execute(fn.NewRow(args...))
		return v, err, "row"
	case k == 2:
		v, err := ex.Execute(m)
		return v, err, "map"
	case k == 3:
		v, err := ex.Execute(fn.NewMapWithMap(m))
		return v, err, "Map"
	case len(args) == 1:
		v, err := ex.Execute(args[0])
		return v, err, "scalar"
	case len(args) == 0:
		v, err := ex.Execute(nil)
		return v, err, "nil"
	}
	v, err := ex.Execute(args)
	return v, err, "list"
}

func toFloat(v any) (float64, bool) {
	switch v := v.(type) {
	case float64:
		return v, true
	case int:
		return float64(v), true
	case float32:
		return float64(v), true
	case int64:
		return float64(v), true
	}
	return 0, false
}

// wholeResult gives the value of a function where it needs no rounding.
func wholeResult(name string, a []float64) (float64, bool) {
	switch name {
	case "LOG10":
		for k := 0; k <= 22; k++ {
			if a[0] == math.Pow10(k) {
				return float64(k), true
			}
		}
	case "SQRT":
		if k := math.Sqrt(a[0]); k < 1<<26 && k == math.Trunc(k) && k*k == a[0] {
			return k, true
		}
	case "POWER":
		if a[0] == math.Trunc(a[0]) && math.Abs(a[0]) <= 12 && a[1] >= 0 && a[1] <= 12 && a[1] == math.Trunc(a[1]) {
			v := 1.0
			for i := 0; i < int(a[1]); i++ {
				v *= a[0]
			}
			return v, math.Abs(v) < 1<<53
		}
	case "MOD":
		if a[0] == math.Trunc(a[0]) && a[1] == math.Trunc(a[1]) && math.Abs(a[0]) < 1<<53 && math.Abs(a[1]) < 1<<53 && a[1] != 0 {
			return float64(int64(a[0]) % int64(a[1])), true
		}
	case "EXP", "COS":
		if a[0] == 0 {
			return 1, true
		}
	case "LOG":
		if a[0] == 1 {
			return 0, true
		}
	case "SIN", "TAN":
		if a[0] == 0 {
			return 0, true
		}
	}
	return 0, false
}

// TestC19_Math: math functions and operators compute their value, or fail
// outside their domain, in every argument form.
func TestC19_Math(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		spec := pick(t, fnSpecs...)
		names, args, fs := []string{}, []any{}, []float64{}
		for i := 0; i < spec.arity; i++ {
			a, f := numArg(t)
			names, args, fs = append(names, fmt.Sprintf("col%d", i)), append(args, a), append(fs, f)
		}
		if chance(t, 25) { // arguments with whole results
			switch spec.name {
			case "LOG10":
				fs[0] = math.Pow10(uniform(t, 23))
			case "SQRT":
				k := float64(uniform(t, 90000000))
				fs[0] = k * k
			case "POWER":
				fs[0], fs[1] = float64(uniform(t, 25)-12), float64(uniform(t, 13))
			case "MOD":
				fs[0], fs[1] = float64(uniform(t, 20001)-10000), float64(1+uniform(t, 50))
			case "EXP", "SIN", "COS", "TAN":
				fs[0] = 0
			case "LOG":
				fs[0] = 1
			}
			for i := range fs {
				args[i] = fs[i]
				if n := int(fs[i]); !math.Signbit(fs[i]) && fs[i] < 1<<53 && float64(n) == fs[i] {
					args[i] = pick(t, any(fs[i]), any(n), any(fmt.Sprint(n)))
				}
			}
		}
		if len(spec.name) == 1 && chance(t, 10) { // operators know infinite numbers
			for i := range fs {
				if chance(t, 70) {
					fs[i] = math.Inf(pick(t, 1, -1))
					args[i] = fs[i]
				}
			}
		}
		if spec.arity == 2 && chance(t, 10) {
			args[1], fs[1] = pick(t, any(0), any(0.0), any("0"), any(0.25)), 0
			if args[1] == any(0.25) {
				fs[1] = 0.25
			}
		}
		name := randCase(t, spec.name)
		ex, err := newExec(t, name, names)
		if err != nil {
			t.Fatalf("no executor for %s: %v", name, err)
		}
		if ex.Name() != spec.name {
			t.Fatalf("executor for %s is %s", name, ex.Name())
		}
		for round := 0; round < 2; round++ {
			got, err, form := call(t, ex, names, args)
			want, inDomain := spec.eval(fs)
			desc := fmt.Sprintf("%s(%v) [%s]", name, args, form)
			if !inDomain {
				if err == nil {
					t.Fatalf("%s = %v outside the domain", desc, got)
				}
				if negDomain[spec.name] && !errors.Is(err, fn.ErrNegativeValue) || !negDomain[spec.name] && !errors.Is(err, fn.ErrInvalid) {
					t.Fatalf("%s: error %v", desc, err)
				}
				note(true, desc, "domain-error")
				continue
			}
			if err != nil {
				t.Fatalf("%s fails: %v, want %v", desc, err, want)
			}
			f, ok := toFloat(got)
			if !ok {
				t.Fatalf("%s = %T(%v) is not a number", desc, got, got)
			}
			if _, isInt := got.(int); spec.whole && !isInt && math.Abs(want) < 1<<63 {
				t.Fatalf("%s = %T(%v) is no integer", desc, got, got)
			}
			exact := spec.exact
			if w, ok := wholeResult(spec.name, fs); ok && w == want { // a value that needs no rounding
				exact = true
			}
			if exact && !(f == want || math.IsNaN(f) && math.IsNaN(want)) || !closeTo(f, want) {
				t.Fatalf("%s = %v, want %v", desc, got, want)
			}
			note(true, desc, spec.name)
		}
	})
}

// TestC19_BadArguments: a wrong number of arguments or a value that is no number is an error.
func TestC19_BadArguments(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		spec := pick(t, fnSpecs...)
		n := uniform(t, 4)
		args := []any{}
		for i := 0; i < n; i++ {
			a, _ := numArg(t)
			args = append(args, a)
		}
		if n == spec.arity {
			if n == 0 {
				args = append(args, 1)
			} else {
				args[uniform(t, n)] = pick(t, any("abc"), any("1x"), any(nil), any([]int{1}), any(struct{}{}), any(""))
			}
		}
		ex, err := fn.NewExecutorForName(spec.name)
		if err != nil {
			t.Fatal(err)
		}
		desc := fmt.Sprintf("%s%v", spec.name, args)
		v, err := ex.Execute(args)
		if err == nil {
			t.Fatalf("%s = %v is no error", desc, v)
		}
		note(true, desc, "bad-arguments")
	})
}

// TestC19_Strings: UPPER, LOWER and TRIM, and no others, change texts.
func TestC19_Strings(t *testing.T) {
	prop(t, 60, func(t *rapid.T) {
		s := anyText(t)
		if chance(t, 50) {
			pad := func() string {
				out := ""
				for i, n := 0, uniform(t, 4); i < n; i++ {
					out += pick(t, " ", "\t", "\n", "\r", "\u00a0", "\v")
				}
				return out
			}
			s = pad() + s + pad()
		}
		name := pick(t, "UPPER", "LOWER", "TRIM")
		var want string
		switch name {
		case "UPPER":
			want = strings.ToUpper(s)
		case "LOWER":
			want = strings.ToLower(s)
		default:
			want = strings.TrimFunc(s, unicode.IsSpace)
		}
		ex, err := newExec(t, randCase(t, name), []string{"c"})
		if err != nil {
			t.Fatal(err)
		}
		got, err, form := call(t, ex, []string{"c"}, []any{s})
		if err != nil || got != any(want) {
			t.Fatalf("%s(%q) [%s] = %q, %v; want %q", name, s, form, got, err, want)
		}
		if v, err := fn.ExecuteFunction(name, []any{s}); err != nil || v != any(want) {
			t.Fatalf("%s(%q) = %q, %v; want %q", name, s, v, err, want)
		}
		if v, err := ex.Execute([]any{s, s}); err == nil {
			t.Fatalf("%s of two texts = %v", name, v)
		}
		note(want != s, fmt.Sprintf("%s(%q)", name, s), name)
	})
}

// TestC19_Literals: an argument that is no column of the row stands for itself.
func TestC19_Literals(t *testing.T) {
	prop(t, 40, func(t *rapid.T) {
		op := pick(t, "+", "-", "*", "/")
		a, b := float64(uniform(t, 2000)-1000)/8, float64(1+uniform(t, 1000))/8
		ex, err := newExec(t, op, []string{"col", fmt.Sprint(b)})
		if err != nil {
			t.Fatal(err)
		}
		got, err := ex.Execute(map[string]any{"col": a, "x": 1})
		want := map[string]float64{"+": a + b, "-": a - b, "*": a * b, "/": a / b}[op]
		if err != nil || got != any(want) {
			t.Fatalf("%v %s %v = %v, %v; want %v", a, op, b, got, err, want)
		}
		note(true, fmt.Sprintf("%v %s %v", a, op, b), "literal")
	})
}

// TestC19_Clock: NOW is the current time, RAND is in [0,1).
func TestC19_Clock(t *testing.T) {
	prop(t, 20, func(t *rapid.T) {
		name := randCase(t, pick(t, "NOW", "CURRENT_TIMESTAMP"))
		ex, err := newExec(t, name, nil)
		if err != nil {
			t.Fatal(err)
		}
		before := time.Now()
		got, err, _ := call(t, ex, nil, []any{})
		after := time.Now()
		tm, ok := got.(time.Time)
		if err != nil || !ok || tm.Before(before) || tm.After(after) {
			t.Fatalf("%s = %v, %v; want a time in [%v, %v]", name, got, err, before, after)
		}
		rnd, err := newExec(t, "RAND", nil)
		if err != nil {
			t.Fatal(err)
		}
		seen := map[any]bool{}
		for i := 0; i < 4; i++ {
			v, err, _ := call(t, rnd, nil, []any{})
			f, ok := v.(float64)
			if err != nil || !ok || f < 0 || f >= 1 {
				t.Fatalf("RAND() = %v, %v", v, err)
			}
			seen[v] = true
		}
		if len(seen) < 2 {
			t.Fatalf("RAND() gives %v four times", seen)
		}
		note(true, name+fmt.Sprint(uniform(t, 1<<20)), "clock")
	})
}

// ------------------------------------------------------------ C20: function names

type fnClass struct {
	name string
	typ  fn.FunctionType
	data string
}

var fnClasses = func() []fnClass {
	out := []fnClass{}
	add := func(typ fn.FunctionType, data string, names string) {
		for _, n := range strings.Fields(names) {
			out = append(out, fnClass{n, typ, data})
		}
	}
	add(fn.MathFunction, "FLOAT", "ABS FLOOR CEIL ROUND SQRT LOG LOG10 EXP POWER MOD SIN COS TAN RAND PI")
	add(fn.ArithOperator, "FLOAT", "+ - * / %")
	add(fn.StringFunction, "TEXT", "UPPER LOWER TRIM")
	add(fn.TimeFunction, "TIMESTAMP", "NOW CURRENT_TIMESTAMP")
	add(fn.AggregateFunction, "FLOAT", "COUNT SUM AVG MIN MAX")
	return out
}()

// TestC20_Known: every function is found by its name in any case, and all
// lookups agree on what it is.
func TestC20_Known(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		c := pick(t, fnClasses...)
		name := randCase(t, c.name)
		typ, err := fn.NewFunctionTypeForName(name)
		if err != nil || typ != c.typ {
			t.Fatalf("type of %s is %v, %v; want %v", name, typ, err, c.typ)
		}
		if !fn.IsRegisteredFunction(name) {
			t.Fatalf("%s is not registered", name)
		}
		f := fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(fn.NewArgumentWith("a")))
		if f.Type() != c.typ || !f.IsType(c.typ) || !f.IsName(randCase(t, c.name)) || f.Name() != c.name {
			t.Fatalf("function %s: type %v name %s", name, f.Type(), f.Name())
		}
		isAggr := c.typ == fn.AggregateFunction
		if f.IsAggregator() != isAggr {
			t.Fatalf("function %s: IsAggregator %v", name, f.IsAggregator())
		}
		dt, err := query.NewDataTypeForFunction(f)
		if err != nil || dt.String() != c.data {
			t.Fatalf("data type of %s is %v, %v; want %s", name, dt, err, c.data)
		}
		call := name
		if len(name) > 1 && chance(t, 40) {
			call = name + "(" + pick(t, "a", "*", "", "a, b", "MAX(x)", "MAX(y)", "ABS(a + b)", "(a)", "'('", "f(g(x), 1)") + ")"
		}
		if len(name) > 1 && !fn.IsRegisteredFunction(call) {
			t.Fatalf("%s is not registered", call)
		}
		ex, exErr := fn.NewExecutorForName(call)
		ag, agErr := fn.NewAggregatorForName(call, fn.WithAggregatorArguments([]string{"a"}))
		if isAggr {
			if exErr == nil {
				t.Fatalf("aggregate %s has executor %s", call, ex.Name())
			}
			if agErr != nil || ag.Name() != c.name || ag.Type() != fn.AggregateFunction {
				t.Fatalf("aggregator of %s: %v, %v", call, ag, agErr)
			}
			if x, err := f.Aggregator(); err != nil || x.Name() != c.name || f.Type() != c.typ {
				t.Fatalf("aggregator of function %s: %v, %v", name, x, err)
			}
		} else {
			if agErr == nil {
				t.Fatalf("%s has an aggregator %s", call, ag.Name())
			}
			if exErr != nil || ex.Name() != c.name || ex.Type() != c.typ {
				t.Fatalf("executor of %s: %v, %v", call, ex, exErr)
			}
			if x, err := f.Executor(); err != nil || x.Name() != c.name || f.Type() != c.typ {
				t.Fatalf("executor of function %s: %v, %v", name, x, err)
			}
		}
		// A function made from its executor or aggregator, or told its type, is the same function.
		args := fn.WithFunctionArguments(fn.NewArgumentWith("a"))
		var made fn.Function
		if isAggr {
			made = fn.NewFunction(fn.WithFunctionAggregator(ag), args)
			if x, err := made.Aggregator(); err != nil || x != ag {
				t.Fatalf("a function made from the aggregator of %s has another one: %v, %v", name, x, err)
			}
		} else {
			made = fn.NewFunction(fn.WithFunctionExecutor(ex), args)
			if x, err := made.Executor(); err != nil || x != ex {
				t.Fatalf("a function made from the executor of %s has another one: %v, %v", name, x, err)
			}
		}
		for _, m := range []fn.Function{made, fn.NewFunction(fn.WithFunctionType(c.typ), fn.WithFunctionName(name), args), fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionType(c.typ), args)} {
			if m.Name() != c.name || m.Type() != c.typ || !m.IsType(c.typ) || m.IsAggregator() != isAggr || m.String() != c.name+"(a)" || !m.IsFunction() || m.IsAsterisk() {
				t.Fatalf("function made from %s: %s, type %v, aggregator %v", name, m, m.Type(), m.IsAggregator())
			}
		}
		listed := map[string]int{}
		for _, n := range fn.RegisteredFunctionNames() {
			listed[n]++
		}
		for _, c := range fnClasses {
			if listed[c.name] != 1 {
				t.Fatalf("%s is %d times in %v", c.name, listed[c.name], fn.RegisteredFunctionNames())
			}
		}
		if len(listed) != len(fnClasses) {
			t.Fatalf("%d functions are listed, %d are known: %v", len(listed), len(fnClasses), fn.RegisteredFunctionNames())
		}
		note(name != c.name || call != name, call, "known")
	})
}

// TestC20_Unknown: any other name is refused, however similar it is.
func TestC20_Unknown(t *testing.T) {
	known := map[string]bool{"CEILING": true}
	for _, c := range fnClasses {
		known[c.name] = true
	}
	prop(t, 100, func(t *rapid.T) {
		name := ""
		switch uniform(t, 6) {
		case 0:
			name = plainName(t)
		case 1:
			name = pick(t, fnClasses...).name + pick(t, "S", "_", "X", "10", "1", "2", "AL", "UM", "IN")
		case 2:
			name = pick(t, "X", "_", "A", "MY", "IS", "TO") + pick(t, fnClasses...).name
		case 3:
			n := pick(t, fnClasses...).name
			name = n[:uniform(t, len(n))]
		case 4:
			name = pick(t, fnClasses...).name + pick(t, fnClasses...).name
		default:
			name = pick(t, "ABSOLUTE", "MINUS", "MAXIMUM", "SUMMARY", "COUNTER", "AVERAGE", "LOG2", "LOG1", "LN", "EXPLAIN", "POWERS", "MODULO", "SINH", "COSH", "TANH", "ASIN", "RANDOM", "PIN", "SPI", "UPPERCASE", "LTRIM", "RTRIM", "NOWHERE", "KNOW", "SQRT2", "FLOORS", "ROUNDED", "CURRENT_DATE", "CURRENT", "++", "**", "//", "%%", "&", "|", "^", "CURRENT_TIMESTAMPS", "TRIMS")
		}
		name = randCase1(t, name)
		if known[strings.ToUpper(strings.TrimSpace(name))] {
			note(false, name, "known-after-all")
			return
		}
		if fn.IsRegisteredFunction(name) {
			t.Fatalf("%q is registered", name)
		}
		for _, arg := range []string{"(", "(x)", "()", "(*)", "(ABS(x))"} { // nor does a call make it known
			if fn.IsRegisteredFunction(name + arg) {
				t.Fatalf("%q is registered", name+arg)
			}
			if ex, err := fn.NewExecutorForName(name + arg); err == nil {
				t.Fatalf("executor of %q: %v", name+arg, ex)
			}
			if ag, err := fn.NewAggregatorForName(name + arg); err == nil {
				t.Fatalf("aggregator of %q: %v", name+arg, ag)
			}
		}
		if typ, err := fn.NewFunctionTypeForName(name); err == nil {
			t.Fatalf("type of %q is %v", name, typ)
		}
		if ex, err := fn.NewExecutorForName(name); err == nil || !errors.Is(err, fn.ErrNotSupported) {
			t.Fatalf("executor of %q: %v, error %v", name, ex, err)
		}
		if ag, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"a"})); err == nil || !errors.Is(err, fn.ErrNotSupported) {
			t.Fatalf("aggregator of %q: %v, error %v", name, ag, err)
		}
		if v, err := fn.ExecuteFunction(name, []any{1.0}); err == nil {
			t.Fatalf("%q(1) = %v", name, v)
		}
		f := fn.NewFunction(fn.WithFunctionName(name))
		if f.IsAggregator() || f.Type() != fn.UnknownFunctionType {
			t.Fatalf("function %q: type %v", name, f.Type())
		}
		if dt, err := query.NewDataTypeForFunction(f); err == nil {
			t.Fatalf("data type of %q is %v", name, dt)
		}
		note(true, name, "unknown")
	})
}

func randCase1(t *rapid.T, s string) string {
	if s == "" {
		return s
	}
	return randCase(t, s)
}

// TestC19_Custom: a function of the caller's own gets exactly the arguments of
// the call, in order and converted to its kind, and its answer is the answer.
func TestC19_Custom(t *testing.T) {
	prop(t, 30, func(t *rapid.T) {
		name := genPlainName(t).Val
		answer := any(uniform(t, 1000))
		var failure error
		if chance(t, 25) {
			failure = fmt.Errorf("failure %d", uniform(t, 1000))
			answer = nil
		}
		kind := pick(t, "math", "string", "time", "cast", "plain")
		pool := []string{"a", "b", "c", "d"}
		names, args := []string{}, []any{}
		vals := map[string]any{}
		for _, n := range pool {
			if kind == "math" {
				vals[n], _ = numArg(t)
			} else {
				vals[n] = pick(t, any(anyText(t)), any(uniform(t, 1000)), any(chance(t, 50)))
			}
		}
		count := uniform(t, 6)
		for i := 0; i < count; i++ { // a name may be an argument twice
			n := pick(t, pool...)
			names, args = append(names, n), append(args, vals[n])
		}
		var seen []string
		calls := 0
		opts := []fn.ExecutorOption{fn.WithExecutorArguments(names)}
		var ex fn.Executor
		var typ fn.FunctionType
		want := []string{}
		switch kind {
		case "math":
			ex, typ = fn.NewMathFunctionWith(name, func(a []float64) (any, error) {
				calls++
				for _, x := range a {
					seen = append(seen, fmt.Sprint(x))
				}
				return answer, failure
			}, opts...), fn.MathFunction
			for _, a := range args {
				switch a := a.(type) {
				case float64:
					want = append(want, fmt.Sprint(a))
				case string:
					want = append(want, a)
				default:
					var f float64
					fmt.Sscan(fmt.Sprint(a), &f)
					want = append(want, fmt.Sprint(f))
				}
			}
		case "string", "time":
			f := func(a []string) (any, error) {
				calls++
				seen = append(seen, a...)
				return answer, failure
			}
			if kind == "string" {
				ex, typ = fn.NewStringFunctionWith(name, f, opts...), fn.StringFunction
			} else {
				ex, typ = fn.NewTimeFunctionWith(name, f, opts...), fn.TimeFunction
			}
			for _, a := range args {
				want = append(want, fmt.Sprint(a))
			}
		case "cast":
			ex, typ = fn.NewCastFunctionWith(name, func(a any) (any, error) {
				calls++
				seen = append(seen, fmt.Sprint(a))
				return answer, failure
			}), fn.CastFunction
			for _, a := range args {
				want = append(want, fmt.Sprint(a))
			}
		default:
			ex, typ = fn.NewExecutor(append(opts, fn.WithExecutorName(name), fn.WithExecutorType(fn.MathFunction), fn.WithExecutorFunc(func(a ...any) (any, error) {
				calls++
				for _, x := range a {
					seen = append(seen, fmt.Sprint(x))
				}
				return answer, failure
			}))...), fn.MathFunction
			for _, a := range args {
				want = append(want, fmt.Sprint(a))
			}
		}
		if ex.Name() != name || ex.Type() != typ || kind != "cast" && !sameStrings(ex.Arguments(), names) {
			t.Fatalf("%s function %s%q is %s%q of type %v", kind, name, names, ex.Name(), ex.Arguments(), ex.Type())
		}
		for round := 0; round < 2; round++ {
			seen, calls = nil, 0
			var got any
			var err error
			form := "list"
			if kind == "cast" {
				got, err = ex.Execute(args)
			} else {
				m := map[string]any{"other": 1}
				for k, v := range vals {
					m[k] = v
				}
				switch uniform(t, 3) {
				case 0:
					got, err = ex.Execute(args)
				case 1:
					form = "map"
					got, err = ex.Execute(m)
				default:
					form = "Map"
					got, err = ex.Execute(fn.NewMapWithMap(m))
				}
			}
			desc := fmt.Sprintf("%s %s%q of %q [%s]", kind, name, names, args, form)
			if kind == "cast" && count != 1 {
				if err == nil || calls != 0 {
					t.Fatalf("%s is accepted: %v", desc, got)
				}
				continue
			}
			if err != failure || got != answer || calls != 1 || !sameStrings(seen, want) {
				t.Fatalf("%s: called %d times with %q, want %q; answer %v, %v, want %v, %v", desc, calls, seen, want, got, err, answer, failure)
			}
		}
		note(count > 1, fmt.Sprint(kind, name, names, args), "custom-"+kind)
	})
}
