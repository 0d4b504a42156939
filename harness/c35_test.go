package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// uses are the ways of using the library that the other properties check, each
// with objects of its own. C15 and C28 have goroutines of their own.
var uses = []struct {
	name string
	test func(t *testing.T)
}{
	{"C01_Mutated", TestC01_Mutated}, {"C02_Rejected", TestC02_Rejected},
	{"C03_CreateTable", TestC03_CreateTable}, {"C04_Insert", TestC04_Insert}, {"C04_Own", TestC04_Own},
	{"C05_Delete", TestC05_Delete}, {"C06_Update", TestC06_Update}, {"C06_Execute", TestC06_Execute}, {"C07_Select", TestC07_Select},
	{"C08_AlterTable", TestC08_AlterTable}, {"C08_CreateIndex", TestC08_CreateIndex}, {"C08_DropTable", TestC08_DropTable},
	{"C09_Database", TestC09_Database}, {"C09_Transaction", TestC09_Transaction}, {"C09_Copy", TestC09_Copy},
	{"C10_Strings", TestC10_Strings}, {"C10_Quoting", TestC10_Quoting}, {"C11_RoundTrip", TestC11_RoundTrip}, {"C12_Built", TestC12_Built},
	{"C14_Scripts", TestC14_Scripts}, {"C16_Bind", TestC16_Bind}, {"C16_InPlace", TestC16_InPlace},
	{"C17_History", TestC17_History}, {"C18_Coercion", TestC18_Coercion}, {"C18_SetValue", TestC18_SetValue},
	{"C19_Math", TestC19_Math}, {"C19_Strings", TestC19_Strings}, {"C19_Literals", TestC19_Literals}, {"C19_Clock", TestC19_Clock}, {"C19_BadArguments", TestC19_BadArguments},
	{"C20_Known", TestC20_Known}, {"C20_Unknown", TestC20_Unknown},
	{"C21_History", TestC21_History}, {"C22_Sets", TestC22_Sets}, {"C23_Select", TestC23_Select},
	{"C24_Cursor", TestC24_Cursor}, {"C25_Projection", TestC25_Projection}, {"C25_Rows", TestC25_Rows}, {"C25_Made", TestC25_Made},
	{"C26_Statement", TestC26_Statement}, {"C26_TableNames", TestC26_TableNames}, {"C26_Columns", TestC26_Columns}, {"C26_ReadBack", TestC26_ReadBack},
	{"C27_Registry", TestC27_Registry}, {"C29_Sentinels", TestC29_Sentinels}, {"C29_States", TestC29_States},
	{"C30_Columns", TestC30_Columns}, {"C30_Tables", TestC30_Tables}, {"C30_Selectors", TestC30_Selectors},
	{"C31_Names", TestC31_Names}, {"C31_Values", TestC31_Values}, {"C32_Stack", TestC32_Stack}, {"C32_Quoting", TestC32_Quoting},
	{"C33_Refused", TestC33_Refused}, {"C34_Statements", TestC34_Statements}, {"C34_Parts", TestC34_Parts}, {"C34_GroupKeys", TestC34_GroupKeys},
}

// use is some cases of one of the uses.
type use struct {
	Kind  int
	Seed  int
	Count int
}

// bodies gives the properties of the uses.
func bodies() [][]func(t *rapid.T) {
	out := [][]func(t *rapid.T){}
	for _, u := range uses {
		fs := []func(t *rapid.T){}
		collected = &fs
		u.test(&testing.T{})
		out = append(out, fs)
	}
	collected = nil
	return out
}

// run gives the first failure of the cases, if any.
func (u use) run(fs [][]func(t *rapid.T)) string {
	for i := range u.Count {
		if f := u.runOne(fs, u.Seed+i); f != "" {
			return f
		}
	}
	return ""
}

func (u use) runOne(fs [][]func(t *rapid.T), seed int) (failure string) {
	ran := false
	body := fs[u.Kind][seed%len(fs[u.Kind])]
	rapid.Custom(func(t *rapid.T) int {
		if ran {
			return 0
		}
		ran = true
		defer forget(t)
		defer func() {
			if r := recover(); r != nil && fmt.Sprintf("%T", r) != "rapid.invalidData" {
				failure = fmt.Sprintf("%s: %v", uses[u.Kind].name, r)
			}
		}()
		body(t)
		return 0
	}).Example(seed)
	return failure
}

// usesChild is a fresh process in which several goroutines start at once.
func usesChild() int {
	var jobs [][]use
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		return 4
	}
	fs := bodies()
	failures := make([]string, len(jobs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, u := range jobs[i] {
				if f := u.run(fs); f != "" && failures[i] == "" {
					failures[i] = f
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, f := range failures {
		if f != "" {
			fmt.Fprintln(os.Stderr, "DISTURBED", f)
			return 3
		}
	}
	return 0
}

// child runs this program as a fresh process.
func child(t *rapid.T, kind string, in any) (stdout []byte, failure string) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal("HARNESS-ERROR", err)
	}
	b, err := json.Marshal(in)
	if err != nil {
		t.Fatal("HARNESS-ERROR", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), hangLimit/2)
	defer cancel()
	cmd := exec.CommandContext(ctx, self)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+kind, "VERIF_STATS=")
	cmd.Stdin = bytes.NewReader(b)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Run(); err != nil {
		msg := errOut.String()
		for _, mark := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "DISTURBED"} {
			if i := strings.Index(msg, mark); i >= 0 {
				msg = msg[i:]
				break
			}
		}
		var exit *exec.ExitError
		if ctx.Err() != nil || !errors.As(err, &exit) || !exit.Exited() || strings.Contains(msg, "HARNESS-ERROR") {
			t.Fatalf("HARNESS-ERROR the fresh process gave no answer: %v\n%.2000s", err, msg)
		}
		return nil, fmt.Sprintf("%v\n%.4000s", err, msg)
	}
	return out.Bytes(), ""
}

// TestC35_Uses: what works in one goroutine works in several at once, from the
// first use on.
func TestC35_Uses(t *testing.T) {
	prop(t, 100, func(t *rapid.T) {
		kinds := []int{}
		for i, n := 0, 1+uniform(t, 4); i < n; i++ {
			kinds = append(kinds, uniform(t, len(uses)))
		}
		jobs := make([][]use, 2+uniform(t, 5))
		names := []string{}
		all := []use{}
		for i := range jobs {
			for k, n := 0, 1+uniform(t, 4); k < n; k++ {
				u := use{kinds[uniform(t, len(kinds))], uniform(t, 1<<30), 1 + uniform(t, 30)}
				jobs[i] = append(jobs[i], u)
				names = append(names, uses[u.Kind].name)
				all = append(all, u)
			}
		}
		describe(js(jobs))
		if _, failure := child(t, "uses", jobs); failure != "" {
			if strings.Contains(failure, "DISTURBED") {
				if _, alone := child(t, "uses", [][]use{all}); alone != "" {
					note(false, js(jobs), "fails alone")
					return // another property's matter
				}
			}
			t.Fatalf("what works in one goroutine fails in several: %v\n%s", names, failure)
		}
		note(len(names) > 1, js(jobs), "uses")
		st.mu.Lock()
		for _, k := range kinds {
			st.Classes[uses[k].name]++
		}
		st.mu.Unlock()
	})
}
